"""C25: the same bounded input spaces on machines with another word size or byte order, answers compared with this one."""
import json, os, re, shutil, threading, time

FEATURES = "std,as_bitvec,bigint,serialize,unstable"
CFG = ["--no-default-features", "--features", FEATURES]
SMALL = "wasm32-unknown-unknown"
INTERPRETED = {"quick": ["s390x-unknown-linux-gnu"], "thorough": ["s390x-unknown-linux-gnu", "powerpc-unknown-linux-gnu"]}
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-ignore-leaks"
JOBS = 8


class Failed(Exception):
    def __init__(self, what, out):
        Exception.__init__(self, what)
        self.what, self.out = what, out


def td(chk, n):
    return os.path.join(chk.TARGET, "machines", n)


def must(chk, what, cmd, env=None, timeout=700):
    rc, out = chk.run(cmd, env=dict(chk.ENV, **(env or {})), timeout=timeout)
    if rc != 0:
        raise Failed(what, out)
    return out


def native(chk):
    d = td(chk, "native")
    must(chk, "this machine", ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(chk.VERIF, "cfg/Cargo.toml"), *CFG],
         {"CARGO_TARGET_DIR": d, "CARGO_PROFILE_DEV_OPT_LEVEL": "2"})
    return os.path.join(d, "debug", "cfg")


def small(chk):
    """the WebAssembly build: the standard library is built from its sources, so all dependencies come from folders"""
    root = must(chk, "nightly", ["rustc", "+nightly", "--print", "sysroot"]).strip()
    vend = td(chk, "vendored")
    shutil.rmtree(vend, ignore_errors=True)
    man = os.path.join(chk.VERIF, "cfg/Cargo.toml")
    must(chk, "vendor", ["cargo", "+nightly", "vendor", "--offline", "--quiet", "--versioned-dirs", "--manifest-path", man, vend])
    lib = os.path.join(root, "lib/rustlib/src/rust/library/vendor")
    for n in os.listdir(lib):
        if not os.path.exists(os.path.join(vend, n)):
            os.symlink(os.path.join(lib, n), os.path.join(vend, n))
    d = td(chk, "small")
    must(chk, SMALL, ["cargo", "+nightly", "build", "--offline", "--quiet", "--manifest-path", man, *CFG, "--target", SMALL,
                      "-Zbuild-std=std,panic_abort", "--config", 'source.crates-io.replace-with="vendored"',
                      "--config", 'source.vendored.directory="%s"' % vend],
         {"CARGO_TARGET_DIR": d, "CARGO_PROFILE_DEV_OPT_LEVEL": "2", "RUSTFLAGS": "-Clink-arg=-zstack-size=16777216"})
    return os.path.join(d, SMALL, "debug", "cfg.wasm")


def miri_env(chk, target):
    return {"MIRI_SYSROOT": td(chk, "sysroot-" + target), "CARGO_TARGET_DIR": td(chk, "interpreted"), "MIRIFLAGS": MIRIFLAGS}


def miri_cmd(chk, target, *args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", os.path.join(chk.VERIF, "cfg/Cargo.toml"),
            *CFG, "--target", target, "--", *args]


def interpreted(chk, target):
    env = miri_env(chk, target)
    if not os.path.isdir(os.path.join(env["MIRI_SYSROOT"], "lib")):
        must(chk, "interpreter", ["cargo", "+nightly", "miri", "setup", "--target", target], env)
    empty = td(chk, "empty")
    open(empty, "w").close()
    must(chk, target, miri_cmd(chk, target, "--file", empty, "--from", "0", "--step", "1"), env)
    return target


def build_all(chk, targets):
    os.makedirs(td(chk, ""), exist_ok=True)
    res = {}

    def go(k, fs):
        for n, f in fs:
            try:
                res[n] = f()
            except Failed as e:
                res[n] = e
    ts = [threading.Thread(target=go, args=(0, [("native", lambda: native(chk))])),
          threading.Thread(target=go, args=(1, [(SMALL, lambda: small(chk))])),
          threading.Thread(target=go, args=(2, [(t, lambda t=t: interpreted(chk, t)) for t in targets]))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res


def machine(chk, bins, m, *args):
    """(command, environment) to run the explorer on a machine"""
    if m == "native":
        return [bins[m], *args], {}
    if m == SMALL:
        host = os.path.join(chk.VERIF, "cfg/host.js")
        return ["node", host, bins[m]] + (["--text", args[1]] if args[0] == "--input-file" else [args[1], args[3], args[5]]), {}
    return miri_cmd(chk, m, *args), miri_env(chk, m)


def answers(chk, bins, m, f, n):
    """[answers by line number], [(line number at which a process ended early, its output)]"""
    got, died, lock = {}, [], threading.Lock()

    def go(k):
        cmd, env = machine(chk, bins, m, "--file", f, "--from", str(k), "--step", str(JOBS))
        rc, out = chk.run(cmd, env=dict(chk.ENV, **env), timeout=24 * 3600)
        last, done = k - JOBS, False
        mine = {}
        for l in out.splitlines():
            if l == "done":
                done = True
            x = l.split(" ", 1)
            if len(x) == 2 and x[0].isdigit():
                mine[int(x[0])] = x[1]
                last = max(last, int(x[0]))
        with lock:
            got.update(mine)
            if rc != 0 or not done:
                died.append((last + JOBS, rc, out[-3000:]))
    ts = [threading.Thread(target=go, args=(k,)) for k in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return got, died


def same(kind, a, b):
    """is what the other machine answered (b) right, given what this one answered (a)?"""
    if b is None or b.startswith("stopped"):
        return False
    if kind != "H":
        return a == b
    s = set(a.split())
    return all(t in s or t.endswith("e") for t in b.split())


def text(chk, bins, m, hexin):
    f = td(chk, "input-%d" % os.getpid())
    with open(f, "w") as h:
        h.write(hexin)
    cmd, env = machine(chk, bins, m, "--input-file", f)
    rc, out = chk.run(cmd, env=dict(chk.ENV, **env), timeout=600)
    os.remove(f)
    return rc, out.splitlines()


def difference(chk, bins, m, hexin, kind):
    """how the answers of a machine on one input differ, or None"""
    ra, la = text(chk, bins, "native", hexin)
    rb, lb = text(chk, bins, m, hexin)
    s = hexin if len(hexin) <= 400 else "%s... (%d octets, see the replay file)" % (hexin[:400], len(hexin) // 2)
    if ra != 0:
        return None
    if rb != 0:
        return "input %s: on %s the run ends with %s: %s" % (s, m, rb, " ".join(lb[-12:])[-900:])
    if kind == "H":
        la = set(la)
        for x in lb:
            if x not in la and ("Err(" not in x or "PANIC" in x):
                return "input %s: on %s, neither a refusal nor an answer of a 64-bit machine: %s" % (s, m, x[:600])
        return None
    for x, y in zip(la + ["(nothing)"] * (len(lb) - len(la)), lb + ["(nothing)"] * (len(la) - len(lb))):
        if x != y:
            return "input %s: %s: %s; %s: %s" % (s, "x86_64", x[:500], m, y[:500])
    return None


def built(chk, bins):
    """a violation when the crate itself does not compile for a machine"""
    if isinstance(bins["native"], Failed):
        chk.engine_error("cannot build the explorer against /repo:\n" + bins["native"].out[-4000:])
    for m, b in bins.items():
        if isinstance(b, Failed):
            if "could not compile `der-parser`" in b.out:
                msg = "the crate builds on this machine but not for %s: %s" % (m, b.out[-1500:])
                return chk.write_replay("C25", "machines", ["BUILD", m, "G"], msg), msg
            chk.engine_error("cannot build for %s (%s):\n%s" % (m, b.what, b.out[-4000:]))


def decide(chk, tier):
    t0 = time.time()
    targets = INTERPRETED[tier]
    bins = build_all(chk, targets)
    v = built(chk, bins)
    if v:
        return {}, v
    report = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "spaces": [], "samples": [], "notes": []}
    for m, lists in [(SMALL, "quick" if tier == "quick" else "deep")] + [(t, "interpreted-least" if tier == "quick" else "interpreted") for t in targets]:
        t1 = time.time()
        f = td(chk, "inputs-%s-%d" % (lists, os.getpid()))
        err = f + ".spaces"
        with open(f, "w") as h, open(err, "w") as e:
            import subprocess
            if subprocess.run([bins["native"], "--emit", lists], stdout=h, stderr=e).returncode != 0:
                chk.engine_error("cannot list the inputs: " + open(err).read()[-2000:])
        lines = open(f).read().splitlines()
        a, da = answers(chk, bins, "native", f, len(lines))
        if da:
            chk.engine_error("the run on this machine ended early at %r" % (da[:1],))
        b, db = answers(chk, bins, m, f, len(lines))
        names = [x.split()[1:] for x in open(err).read().splitlines() if x.startswith("space ")]
        os.remove(f)
        os.remove(err)
        calls = 0
        suspects = [j for j, _, _ in db if j < len(lines)]
        for j, l in enumerate(lines):
            x, y = a.get(j), b.get(j)
            if x is None:
                chk.engine_error("no answer on this machine for line %d" % j)
            if l[0] == "H":
                calls += len(x.split())
            else:
                calls += int(x.split()[0])
            if y is not None and not same(l[0], x, y):
                suspects.append(j)
        for j in suspects[:20]:
            kind, hexin = lines[j][0], lines[j][2:]
            d = difference(chk, bins, m, hexin, kind)
            if d and ("unsupported operation" not in d):
                return report, (chk.write_replay("C25", "machines", [hexin, m, kind], d), d)
        missing = [j for j in range(len(lines)) if j not in b]
        if suspects or db or missing:
            chk.engine_error("%s: %d answers differ, %d missing, and no single input shows it: %s" % (m, len(suspects), len(missing), db[:1]))
        report["states"] += len(lines)
        report["transitions"] += 2 * calls
        report["traces_validated_against_impl"] += len(lines)
        report["spaces"].append({"machine": m, "cases": len(lines), "calls": calls, "seconds": round(time.time() - t1, 1),
                                 "spaces": [" ".join(x) for x in names]})
        report["samples"] += ["%s: %s" % (m, lines[k][:200]) for k in range(0, len(lines), max(1, len(lines) // 6))][:6]
        report["notes"].append("%s: every input through every entry point: %d; the general ones only: %d; lengths beyond 31 bits: %d" %
                               (m, *[sum(l[0] == k for l in lines) for k in "EGH"]))
    report["wall_s"] = time.time() - t0
    return report, None


def replay(chk, path):
    hexin, m, kind = open(path).read().splitlines()[:3]
    bins = build_all(chk, [] if m == SMALL else [m])
    v = built(chk, bins)
    if v:
        chk.say(v[1])
        return 1
    if hexin == "BUILD":
        chk.say("builds")
        return 0
    d = difference(chk, bins, m, hexin, kind)
    chk.say(d or "no difference")
    return 1 if d else 0


def setup(chk):
    for m, b in build_all(chk, INTERPRETED["quick"]).items():
        if isinstance(b, Failed):
            chk.say("not built: %s (%s)\n%s" % (m, b.what, b.out[-1500:]))
