"""C21: the real macro function, inside the compiler, on every identifier of the bounded spaces.

A copy of der-oid-macro gets a second macro appended (oid/probe.rs) that enumerates identifiers,
passes each as tokens to encode_oid and compares the octets with a reference encoder and decoder.
Then ordinary invocations of the macro are compiled into a client program and compared again.
"""
import itertools, json, os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

N = 8


def build(chk):
    """path of the compiled macro crate"""
    src = "/repo/der-oid-macro"
    dst = os.path.join(chk.TARGET, "oid-crate")
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    shutil.copytree(os.path.join(src, "src"), os.path.join(dst, "src"))
    for f in ("Cargo.toml", "build.rs"):
        if os.path.exists(os.path.join(src, f)):
            shutil.copy(os.path.join(src, f), dst)
    with open(os.path.join(dst, "src", "lib.rs"), "a") as f:
        f.write(open(os.path.join(chk.VERIF, "oid", "probe.rs")).read())
    toml = open(os.path.join(dst, "Cargo.toml")).read()
    if "[workspace]" not in toml:
        toml += "\n[workspace]\n"
    # optimised, but with the arithmetic checks that a debug build of a user's crate has
    toml += "\n[profile.release.build-override]\nopt-level = 2\noverflow-checks = true\ndebug-assertions = true\n" \
            "[profile.release]\noverflow-checks = true\ndebug-assertions = true\n"
    with open(os.path.join(dst, "Cargo.toml"), "w") as f:
        f.write(toml)
    td = os.path.join(chk.TARGET, "oid")
    rc, out = chk.run(["cargo", "build", "--offline", "--quiet", "--release", "--manifest-path", os.path.join(dst, "Cargo.toml")],
                      env=dict(chk.ENV, CARGO_TARGET_DIR=td))
    if rc != 0:
        chk.engine_error("cannot build the macro crate with the probe:\n" + out[-4000:])
    return os.path.join(td, "release", "libder_oid_macro.so")


def rustc(chk, so, src, out, crate_type, env, timeout=24 * 3600):
    return chk.run(["rustc", "--edition", "2021", "--crate-type", crate_type, "--crate-name", "client",
                    "--extern", "der_oid_macro=" + so, "-A", "warnings", "-o", out, src],
                   env=dict(chk.ENV, **env), timeout=timeout)


def probe(chk, so, env, tag):
    """lines written by the probe, or None and the compiler's output"""
    d = os.path.join(chk.TARGET, "oid-run")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "probe-%s.rs" % tag)
    res = os.path.join(d, "probe-%s.out" % tag)
    if os.path.exists(res):
        os.remove(res)
    with open(src, "w") as f:
        f.write("der_oid_macro::verif_probe!();\n")
    rc, out = rustc(chk, so, src, os.path.join(d, "probe-%s.rlib" % tag), "lib", dict(env, VERIF_PROBE_OUT=res))
    if not os.path.exists(res):
        return None, "exit %s: %s" % (rc, out[-3000:])
    return open(res).read().splitlines(), out


def base128(v):
    r = [v & 127]
    v >>= 7
    while v:
        r.insert(0, v & 127 | 128)
        v >>= 7
    return r


def reference(arcs, rel):
    o = []
    if not rel:
        o += base128(arcs[0] * 40 + arcs[1])
        arcs = arcs[2:]
    for a in arcs:
        o += base128(a)
    return o


def written(tier):
    """(text of an invocation, arcs, relative)"""
    vs = [0, 1, 39, 127, 128, 840, 16383, 16384, 113549, 2 ** 21, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64, 2 ** 128 + 5]
    r = [("0", [0, 0], False)]
    for a in range(3):
        for b in range(40):
            r.append(("%d.%d" % (a, b), [a, b], False))
            for v in (vs):
                r.append(("%d.%d.%d" % (a, b, v), [a, b, v], False))
    for l in (1, 2, 3) if tier == "thorough" else (1, 2):
        for t in itertools.product(vs, repeat=l):
            r.append(("rel " + ".".join(map(str, t)), list(t), True))
            r.append(("1.2." + ".".join(map(str, t)), [1, 2] + list(t), False))
    for t in ([1, 2, 840, 113549, 1, 1, 1], [0, 0], [0, 39, 0], [2, 39, 255, 0, 0, 128]):
        s = [str(x) for x in t]
        for pre, rel in (("", False), ("rel ", True), ("rel   ", True), ("rel\n", True)):
            for sep in (".", " . ", ". ", " .", "\n.\n", "./* */"):
                r.append((pre + sep.join(s), t, rel))
        r.append(("  " + ".".join(s) + "  ", t, False))
    return r


def invocations(chk, so, cases, tag):
    """compile and run ordinary invocations; (text, what is wrong) of the first wrong one, or None"""
    d = os.path.join(chk.TARGET, "oid-run")
    os.makedirs(d, exist_ok=True)
    src, exe = os.path.join(d, "inv-%s.rs" % tag), os.path.join(d, "inv-%s" % tag)
    lines = ["fn check(n: usize, got: &[u8], want: &[u8]) { if got != want { println!(\"WRONG {} octets {:02x?}, expected {:02x?}\", n, got, want); } }",
             "fn main() {"]

    for n, (t, arcs, rel) in enumerate(cases):
        text = "check(%d, &der_oid_macro::encode_oid!(%s), &%s);" % (n, t, json.dumps(reference(arcs, rel)))
        lines.append(text)
    lines.append("println!(\"END {}\", %d); }" % len(cases))
    # line number -> case
    no, where = 1, {}
    for k, l in enumerate(lines):
        for _ in range(l.count("\n") + 1):
            where[no] = k - 2
            no += 1
    with open(src, "w") as f:
        f.write("\n".join(lines))
    rc, out = rustc(chk, so, src, exe, "bin", {})
    if rc != 0:
        m = re.search(r"^error[^\n]*\n\s*--> [^\n:]*:(\d+):", out, re.M)
        k = where.get(int(m.group(1)), -1) if m else -1
        if 0 <= k < len(cases):
            return cases[k], "the invocation does not compile: " + out[:600]
        chk.engine_error("the client of the macro does not compile:\n" + out[-3000:])
    rc, out = chk.run([exe], timeout=600)
    m = re.search(r"^WRONG (\d+) (.*)$", out, re.M)
    if m:
        return cases[int(m.group(1))], m.group(2)
    if rc != 0 or "END %d" % len(cases) not in out:
        chk.engine_error("the client of the macro fails: exit %s\n%s" % (rc, out[-2000:]))
    return None


def unwritten(tier):
    """(text, arcs or None): not identifiers, or ones the macro need not support (arcs: their encoding)"""
    big = [3, 4, 5, 6, 7, 8, 9, 10, 39, 40, 41, 127, 128, 255, 256, 257, 258, 2 ** 16, 2 ** 32, 2 ** 32 + 1, 2 ** 64, 2 ** 64 + 2, 2 ** 128 + 1]
    seconds = [40, 41, 47, 48, 79, 80, 119, 120, 127, 128, 215, 216, 255, 256, 257, 295, 296, 999, 2 ** 16, 2 ** 32, 2 ** 32 + 2, 2 ** 64, 2 ** 64 + 3]
    r = []
    for b in [0, 1, 2] + big:
        for tail in ("", ".1", ".840.113549"):
            for c in list(range(40)) + seconds if b > 2 else seconds:
                t = "%d.%d%s" % (b, c, tail)
                r.append((t, [int(x) for x in t.split(".")] if b == 2 else None))
        if b:
            r.append(("%d" % b, None))
    for t in ("", "x", "1.x", "x.2", "1.2.x", "1.2.-3", "1.2.3x", "1.2.", "1.2..3", "1,2,3", "1 2 3", "1.2.3 4", "1/2/3", "\"1.2.3\"", "1.2.0x10",
              "rel", "rel.1", "rel x", "rel 1.x", "rel 1.", "rel 1..2", "relative 1.2", "rel rel 1.2", "1.2 rel", "Rel 1.2", "abs 1.2"):
        r.append((t, None))
    return r


def refusals(chk, so, cases, tag):
    """the invocations that compile although they are no identifiers: (case, why), or None"""
    d = os.path.join(chk.TARGET, "oid-run")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "ref-%s.rs" % tag)
    with open(src, "w") as f:
        for n, (t, _) in enumerate(cases):
            f.write("pub const F%d: &[u8] = &der_oid_macro::encode_oid!(%s);\n" % (n, t))
    rc, out = chk.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "client", "--extern", "der_oid_macro=" + so,
                       "-A", "warnings", "--error-format", "json", "--emit", "metadata", "-o", os.path.join(d, "ref-%s.rmeta" % tag), src],
                      env=dict(chk.ENV), timeout=600)
    errs = set()
    for l in out.splitlines():
        if l.startswith("{"):
            try:
                m = json.loads(l)
            except ValueError:
                continue
            for sp in m.get("spans", []) if m.get("level") == "error" else []:
                while sp.get("expansion") and not sp["file_name"].endswith("ref-%s.rs" % tag):
                    sp = sp["expansion"]["span"]
                errs.add(sp["line_start"] - 1)
    if rc == 0 and errs or rc != 0 and not errs:
        chk.engine_error("cannot read the compiler's verdicts: exit %s\n%s" % (rc, out[-2000:]))
    ok = [k for k in range(len(cases)) if k not in errs]
    for k in ok:
        t, arcs = cases[k]
        if arcs is None:
            return (t, [], False), "it is no object identifier, and the macro encodes it all the same"
    right = [(cases[k][0], cases[k][1], False) for k in ok]
    return invocations(chk, so, right, tag + "-r") if right else None


def violation(chk, kind, text, arcs, rel, msg):
    p = chk.write_replay("C21", "identifier", [kind, json.dumps(text), json.dumps([str(a) for a in arcs]), "rel" if rel else "abs"], msg)
    return p, "encode_oid!(%s): %s" % (text, msg)


def decide(chk, tier):
    t0 = time.time()
    so = build(chk)
    envs = [{"VERIF_PROBE_K": str(k), "VERIF_PROBE_N": str(N), "VERIF_PROBE_TIER": tier, "VERIF_PROBE_ONE": ""} for k in range(N)]
    with ThreadPoolExecutor(N) as ex:
        runs = list(ex.map(lambda k: probe(chk, so, envs[k], "%s-%d" % (tier, k)), range(N)))
    calls = octets = 0
    spaces, samples = {}, []
    unread = None
    report = {}
    for lines, out in runs:
        if lines is None:
            chk.engine_error("the probe died: " + out)
        got = {}
        for l in lines:
            w, _, t = l.partition(" ")
            if w == "space":
                n, _, s = t.partition(" ")
                spaces[s] = spaces.get(s, 0) + int(n)
            elif w == "sample":
                samples.append(t)
            else:
                got[w] = t
        calls += int(got["calls"])
        octets += int(got["octets"])
        unread = unread or got.get("unread")
        report = {"states": calls, "transitions": calls, "spaces": [{"space": s, "cases": n} for s, n in spaces.items()], "samples": samples[:12]}
        if "failed" in got:
            t = got["failed"]
            rel = t.startswith("rel ")
            arcs = [int(x) for x in t[4 * rel:].split(".")]
            l2, _ = probe(chk, so, dict(envs[0], VERIF_PROBE_K="0", VERIF_PROBE_N="1", VERIF_PROBE_ONE=t), "one")
            if not l2 or not any(x.startswith("failed") for x in l2):
                # depends on earlier invocations: the whole enumeration is the replay
                return report, violation(chk, "probe", t, arcs, rel, got.get("why", "") + " (in this order of invocations)")
            return report, violation(chk, "probe", t, arcs, rel, got.get("why", ""))
    inv = written(tier)
    parts = [inv[k::N] for k in range(N)]
    with ThreadPoolExecutor(N) as ex:
        bad = list(ex.map(lambda k: invocations(chk, so, parts[k], "%s-%d" % (tier, k)), range(N)))
    for b in bad:
        if b:
            (t, arcs, rel), why = b
            return report, violation(chk, "invocation", t, arcs, rel, why)
    ref = unwritten(tier)
    b = refusals(chk, so, ref, tier)
    if b:
        (t, arcs, rel), why = b
        return report, violation(chk, "refusal", t, arcs, rel, why)
    if unread:
        chk.engine_error("cannot read the macro's output: " + unread)
    report["states"] += len(inv) + len(ref)
    report["transitions"] += len(inv) + len(ref)
    report["spaces"] += [{"space": "invocations compiled by rustc", "cases": len(inv)}, {"space": "invocations that are no identifiers", "cases": len(ref)}]
    report["traces_validated_against_impl"] = len(inv)
    report["notes"] = ["%d octets compared with the reference encoder and decoded back" % octets,
                       "%d ordinary invocations compiled into a client and compared again" % len(inv)]
    report["wall_s"] = time.time() - t0
    return report, None


def replay(chk, path):
    l = open(path).read().splitlines()
    text, arcs, rel = json.loads(l[1]), [int(x) for x in json.loads(l[2])], l[3] == "rel"
    so = build(chk)
    if l[0] == "probe":
        e = {"VERIF_PROBE_K": "0", "VERIF_PROBE_N": "1", "VERIF_PROBE_TIER": "quick",
             "VERIF_PROBE_ONE": ("rel " if rel else "") + ".".join(map(str, arcs))}
        lines, out = probe(chk, so, e, "replay")
        chk.say("\n".join(lines or [out]))
        return 1 if lines is None or any(x.startswith("failed") for x in lines) else 0
    if l[0] == "refusal":
        b = refusals(chk, so, [(text, arcs or None)], "replay")
    else:
        b = invocations(chk, so, [(text, arcs, rel)], "replay")
    chk.say(b[1] if b else "correct")
    return 1 if b else 0


def setup(chk):
    build(chk)
