"""C20: the same bounded input spaces through every feature/profile configuration, answers compared."""
import json, os, re, shutil, threading, time

SEC = ["base", "as_bitvec", "bigint", "serialize"]
FEATURES = ["std", "as_bitvec", "bigint", "serialize", "unstable"]


def combos():
    """all distinct feature sets (serialize implies std)"""
    r = []
    for m in range(32):
        f = [FEATURES[k] for k in range(5) if m >> k & 1]
        if "serialize" in f and "std" not in f:
            continue
        r.append(tuple(f))
    return r


QUICK = [("std", "as_bitvec", "bigint", "serialize", "unstable"), (), ("std",), ("as_bitvec",), ("bigint",),
         ("std", "serialize"), ("unstable",)]


def name(c):
    return "+".join(c[0]) + "/" + c[1] if c[0] else "none/" + c[1]


def parse(n):
    f, p = n.split("/")
    return (() if f == "none" else tuple(f.split("+")), p)


def build(chk, c):
    """(path of the binary or None, compiler output)"""
    feats, prof = c
    td = os.path.join(chk.TARGET, "cfg")
    args = ["--release"] if prof == "release" else []
    args += ["--no-default-features"] + (["--features", ",".join(feats)] if feats else [])
    rc, out = chk.cargo("cfg", *args, env={"CARGO_TARGET_DIR": td})
    if rc != 0:
        return None, out
    bd = os.path.join(chk.TARGET, "cfg-bin")
    os.makedirs(bd, exist_ok=True)
    dst = os.path.join(bd, name(c).replace("/", "."))
    tmp = dst + ".%d" % os.getpid()
    shutil.copy(os.path.join(td, "release" if prof == "release" else "debug", "cfg"), tmp)
    os.replace(tmp, dst)
    return dst, ""


def build_all(chk, cs):
    """both profiles in parallel; {config: (binary or None, output)}"""
    res = {}

    def go(prof):
        for c in cs:
            if c[1] == prof:
                res[c] = build(chk, c)
    ts = [threading.Thread(target=go, args=(p,)) for p in ("dev", "release")]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res


def digests(out):
    d = {}
    for m in re.finditer(r"^digest (\S+) (\S+) (\S+)$", out, re.M):
        d[(m.group(1), m.group(2))] = m.group(3)
    return d


def sections(out):
    m = re.search(r"^sections (.*)$", out, re.M)
    return m.group(1).split() if m else []


def answers(chk, exe, hexin):
    f = os.path.join(chk.TARGET, "input-cfg-%d" % os.getpid())
    with open(f, "w") as h:
        h.write(hexin)
    rc, out = chk.run([exe, "--input-file", f], timeout=120)
    os.remove(f)
    return rc, out.splitlines()


def short(x):
    return x if len(x) <= 400 else "%s... (%d octets, see the replay file)" % (x[:400], len(x) // 2)


def difference(chk, ca, a, cb, b, hexin):
    """how the answers of two configurations on one input differ, or None"""
    ra, la = answers(chk, a, hexin)
    rb, lb = answers(chk, b, hexin)
    if ra != rb or ra != 0:
        if ra == rb:
            return None
        return "input %s: exit %s with %s, exit %s with %s" % (short(hexin), ra, name(ca), rb, name(cb))
    both = [s for s in SEC if s == "base" or (s in ca[0] and s in cb[0])]
    fa = [l for l in la if l.split(" ", 1)[0] in both]
    fb = [l for l in lb if l.split(" ", 1)[0] in both]
    if fa == fb:
        return None
    for x, y in zip(fa + ["(nothing)"] * (len(fb) - len(fa)), fb + ["(nothing)"] * (len(fa) - len(fb))):
        if x != y:
            return "input %s: with %s: %s; with %s: %s" % (short(hexin), name(ca), x[:500], name(cb), y[:500])


def explore(chk, exe, c, level, *more):
    j = os.path.join(chk.TARGET, "journal-cfg-%s-%d" % (name(c).replace("/", "."), os.getpid()))
    rc, out = chk.run([exe, "--level", str(level), "--journal", j, *more], timeout=24 * 3600)
    cases = chk.journal_cases(j) if rc != 0 else []
    try:
        os.remove(j)
    except OSError:
        pass
    return rc, out, cases


def locate(chk, space, sec, ca, a, cb, b, la, lb):
    """the input of a space on which two configurations differ"""
    def shards(exe, c, l):
        _, out, _ = explore(chk, exe, c, l, "--space", space)
        return {int(m.group(2)): m.group(3) for m in re.finditer(r"^shard \S+ (\S+) (\d+) (\S+)$", out, re.M) if m.group(1) == sec}
    sa, sb = shards(a, ca, la), shards(b, cb, lb)
    for k in sorted(set(sa) | set(sb)):
        if sa.get(k) == sb.get(k):
            continue

        def inputs(exe, c, l):
            _, out, _ = explore(chk, exe, c, l, "--space", space, "--shard", str(k))
            return [x.split() for x in out.splitlines() if x.startswith("input")]
        col = 2 + SEC.index(sec)
        for x, y in zip(inputs(a, ca, la), inputs(b, cb, lb)):
            # (a line of the empty input has one field less)
            x = x if len(x) == 6 else [x[0], ""] + x[1:]
            y = y if len(y) == 6 else [y[0], ""] + y[1:]
            if x[1] != y[1] or x[col] != y[col]:
                return x[1]
    return None


def violation(chk, ca, cb, hexin, msg):
    lines = [hexin, name(ca), name(cb)]
    p = chk.write_replay("C20", "configs", lines, msg)
    return p, msg


def decide(chk, tier):
    t0 = time.time()
    feats = QUICK if tier == "quick" else combos()
    cs = [(f, p) for f in feats for p in ("release", "dev")] + ([(f, "dev") for f in combos() if f not in feats])
    ref = (QUICK[0], "release")
    bins = build_all(chk, cs)
    if bins[ref][0] is None:
        chk.engine_error("cannot build the explorer against /repo:\n" + bins[ref][1][-4000:])
    for c in cs:
        if bins[c][0] is None:
            return {}, violation(chk, c, ref, "BUILD", "the crate builds with %s but not with %s: %s" %
                                 (name(ref), name(c), bins[c][1][-1500:]))
    level = {"release": 1 if tier == "quick" else 2, "dev": 0 if tier == "quick" else 1}
    res, spaces, report = {}, [], {}
    order = [ref] + [c for c in cs if c != ref]
    st = tr = cmpd = 0
    sample = []
    for c in order:
        rc, out, cases = explore(chk, bins[c][0], c, level[c[1]])
        if rc != 0:
            # one configuration died: on which input?
            for _, sp, ex, inp, full in cases:
                if full != len(inp):
                    continue
                for o in order:
                    d = o != c and difference(chk, c, bins[c][0], o, bins[o][0], inp.hex())
                    if d:
                        return report, violation(chk, c, o, inp.hex(), d)
            chk.engine_error("%s died (%s) and no single input shows it, or all configurations die\n%s" % (name(c), rc, out[-2000:]))
        r = json.loads(re.search(r"^report (.*)$", out, re.M).group(1))
        st += r["states"]
        tr += r["transitions"]
        sample += ["%s: %s" % (name(c), x) for x in (r.get("samples") or [])[:2]]
        spaces.append({"configuration": name(c), "cases": r["states"], "calls": r["transitions"], "seconds": r["wall_s"],
                       "spaces": [x["space"] for x in r["spaces"]]})
        res[c] = (digests(out), sections(out))
        report = {"states": st, "transitions": tr, "traces_validated_against_impl": 0, "spaces": spaces, "samples": sample}
        for o in res:
            if o == c:
                continue
            da, db = res[o][0], res[c][0]
            for k in sorted(set(da) & set(db)):
                cmpd += 1
                if da[k] != db[k]:
                    x = locate(chk, k[0], k[1], o, bins[o][0], c, bins[c][0], level[o[1]], level[c[1]])
                    d = None if x is None else difference(chk, o, bins[o][0], c, bins[c][0], x)
                    if d is None:
                        chk.engine_error("digests of %s differ between %s and %s but no input shows it" % (k, name(o), name(c)))
                    return report, violation(chk, o, c, x, d)
    report["traces_validated_against_impl"] = st - spaces[0]["cases"]  # the first configuration is what the others are compared with
    report["notes"] = ["%d pairs of digests (one per space, group of operations and pair of configurations) compared" % cmpd,
                       "%d configurations" % len(cs)]
    report["wall_s"] = time.time() - t0
    return report, None


def replay(chk, path):
    l = open(path).read().splitlines()
    ca, cb = parse(l[1]), parse(l[2])
    a, oa = build(chk, ca)
    b, ob = build(chk, cb)
    if l[0] == "BUILD":
        chk.say("%s: %s" % (name(ca), "builds" if a else oa[-2000:]))
        return 1 if a is None and b is not None else 0
    if a is None or b is None:
        chk.engine_error("cannot build: " + (oa + ob)[-3000:])
    d = difference(chk, ca, a, cb, b, l[0])
    chk.say(d or "no difference")
    return 1 if d else 0


def setup(chk):
    for c, (b, out) in build_all(chk, [(f, p) for f in QUICK for p in ("release", "dev")] +
                                 [(f, "dev") for f in combos() if f not in QUICK]).items():
        if b is None:
            chk.say("not built: %s" % name(c))
