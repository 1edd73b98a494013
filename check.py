#!/usr/bin/env python3
"""Driver of the checks: builds the explorers from /repo's working tree, runs the one that decides
a property, and turns the outcome into a verdict, a replay file and an evidence file.

  check.py PROP [quick|thorough]     decide one property
  check.py --setup                   build everything
  check.py --replay FILE             run the case of a replay file again
"""
import json, os, re, shutil, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
MC_PROPS = ["C%02d" % i for i in range(1, 20)] + ["C22", "C23", "C24"]


def say(*a):
    print(*a, flush=True)


def engine_error(msg):
    say("ENGINE-ERROR:", msg)
    sys.exit(2)


def run(cmd, timeout=None, **kw):
    """(exit code or None on timeout, output)"""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=kw.pop("env", ENV), stdin=subprocess.DEVNULL, errors="replace", **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return None, o.decode(errors="replace") if isinstance(o, bytes) else o


def cargo(crate, *args, env=None):
    rc, out = run(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, crate, "Cargo.toml"), *args],
                  env=dict(ENV, **(env or {})))
    return rc, out


def build_mc(profile="release"):
    args = ["--release"] if profile == "release" else []
    rc, out = cargo("mc", *args)
    if rc != 0:
        engine_error("cannot build the explorer against /repo:\n" + out[-4000:])
    return os.path.join(TARGET, "release" if profile == "release" else "debug", "mc")


def write_replay(prop, kind, lines, msg):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%s.replay" % (prop, kind))
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
        f.write("# property=%s kind=%s\n# %s\n# replay: python3 %s --replay %s\n" %
                (prop, kind, msg.replace("\n", " ")[:3000], os.path.join(VERIF, "check.py"), p))
    return p


def journal_cases(path):
    """the cases that were running when the explorer died"""
    res = []
    try:
        data = open(path, "rb").read()
    except OSError:
        return res
    for s in range(len(data) // 8192):
        b = data[s * 8192:(s + 1) * 8192]
        act, sl, el, n = [int.from_bytes(b[4 * k:4 * k + 4], "little") for k in range(4)]
        full = int.from_bytes(b[16:24], "little")
        if act != 1:
            continue
        p = 24
        sp = b[p:p + sl].decode(errors="replace")
        ex = b[p + sl:p + sl + el].decode(errors="replace")
        inp = b[p + sl + el:p + sl + el + n]
        res.append((s, sp, ex, inp, full))
    return res


def known_list():
    """mc's --known file, extracted from the known-findings file"""
    out = []
    try:
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: "):
                out.append(l[7:])
    except OSError:
        pass
    return out


def fields(out, tag):
    return {m.group(1): m.group(2) for m in re.finditer(r"^%s (\w+)=(.*)$" % tag, out, re.M)}


def one_replay(exe, prop, args, f, limit=400):
    rc, out = run([exe, prop, "--replay", f, "--journal", os.path.join(TARGET, "journal-replay-%d" % os.getpid())] + args, timeout=limit)
    return rc, out


def run_mc(prop, tier, profile="release", extra=()):
    """run the explorer; returns (report dict, violation (replay path, message) or None, known lines)"""
    exe = build_mc(profile)
    tag = "%s-%s-%d" % (prop, profile, os.getpid())
    jr = os.path.join(TARGET, "journal-" + tag)
    rep = os.path.join(TARGET, "report-%s.json" % tag)
    kn = os.path.join(TARGET, "known-" + tag)
    with open(kn, "w") as f:
        f.write("\n".join(known_list()) + "\n")
    for p in (rep, jr):
        if os.path.exists(p):
            os.remove(p)
    base = ["--tier", tier, "--known", kn, *extra]
    t0 = time.time()
    rc, out = run([exe, prop, "--out", rep, "--journal", jr, *base], timeout=24 * 3600)
    report = {}
    try:
        report = json.load(open(rep))
    except Exception:
        pass
    known = re.findall(r"^KNOWN (.*)$", out, re.M)
    vio = None
    if rc == 1 and "FOUND space=" in out:
        v = fields(out, "FOUND")
        lines = [v.get("space", ""), v.get("input", ""), v.get("extra", ""), " ".join(base[:2] + list(extra)), profile]
        path = write_replay(prop, "case" if profile == "release" else "case-" + profile, lines, v.get("msg", ""))
        rc2, out2 = one_replay(exe, prop, base, path)
        if rc2 != 1 or "FOUND space=" not in out2:
            # the case alone passes: what fails may be its place after the cases before it
            rc3, out3 = run([exe, prop, "--journal", jr, *base], timeout=24 * 3600)
            v3 = fields(out3, "FOUND")
            if rc3 != 1 or v3.get("space") != v.get("space"):
                engine_error("a reported case does not fail again, alone or in its place (rc %s, %s): %s\n%s" % (rc2, rc3, v, out2[-2000:]))
            lines[0] = "*whole exploration*"
            path = write_replay(prop, "history", lines, v.get("msg", "") + " (after the cases enumerated before it)")
        vio = (path, v.get("msg", ""))
    elif rc != 0:
        # died (stack overflow, abort, memory) or a case hangs: find the case
        what = "hang" if rc == 97 else "died (exit %s)" % rc
        cands = journal_cases(jr)
        tail = out[-1500:]
        for s, sp, ex, inp, full in cands:
            if full != len(inp):
                # too long for the journal: identified by its prefix
                lines = [sp, inp.hex(), ex, " ".join(base[:2] + list(extra)), profile, "prefix %d" % full]
            else:
                lines = [sp, inp.hex(), ex, " ".join(base[:2] + list(extra)), profile]
            path = write_replay(prop, "crash", lines, "%s while running this case. %s" % (what, tail))
            rc2, out2 = one_replay(exe, prop, base, path, 300)
            if rc2 != 0 or rc2 is None:
                vio = (path, "%s: space %s input %s.. (%d octets) %s" % (what, sp, inp[:40].hex(), full, ex))
                break
        if vio is None and rc != -9:
            # no case fails alone: does it die again when all of them are run in order?
            rc3, out3 = run([exe, prop, "--journal", jr, *base], timeout=24 * 3600)
            if rc3 == rc:
                lines = ["*whole exploration*", "", "", " ".join(base[:2] + list(extra)), profile]
                vio = (write_replay(prop, "history", lines, "%s, after the cases enumerated before it. %s" % (what, tail)),
                       "%s: only after the cases before it. %s" % (what, tail))
        if vio is None:
            engine_error("the explorer %s, no single case reproduces it (%d candidates)\n%s" % (what, len(cands), tail))
        report.setdefault("wall_s", time.time() - t0)
    for p in (jr, rep, kn, os.path.join(TARGET, "journal-replay-%d" % os.getpid())):
        try:
            os.remove(p)
        except OSError:
            pass
    return report, vio, known


def merge(a, b):
    """reports of two runs of one property"""
    r = dict(a)
    for k in ("states", "transitions", "traces_validated_against_impl", "cases_accepted", "cases_refused",
              "cases_outside_model", "violations", "wall_s"):
        r[k] = (a.get(k) or 0) + (b.get(k) or 0)
    for k in ("spaces", "samples", "notes"):
        r[k] = (a.get(k) or []) + (b.get(k) or [])
    return r


ASSUME = [
    "the reference model (mc/src/model.rs and the expectations in mc/src/p_*.rs) states X.690 and the documented behaviour correctly",
    "asn1-rs and nom behave on inputs outside the enumerated spaces as the code paths exercised inside them suggest (small-scope hypothesis)",
    "rustc compiles the explorer and the library correctly",
]
ASSUME_OID = [
    "the reference encoder and decoder (oid/probe.rs, oidmacro.py) state X.690 8.19 and 8.20 correctly",
    "identifiers outside the enumerated spaces behave as those inside suggest (small-scope hypothesis)",
    "rustc hands the macro the tokens it hands to any user of it",
]
ASSUME_CFG = [
    "inputs outside the enumerated spaces behave alike in all configurations if those inside do (small-scope hypothesis)",
    "equal 64-bit digests of all answers mean equal answers",
]

ASSUME_MACHINES = [
    "wasm32 (run by node) stands for 32-bit machines; Miri's interpretation for the big-endian target stands for such a machine",
    "inputs outside the enumerated spaces behave alike on all machines if those inside do (small-scope hypothesis)",
    "equal 64-bit digests of all answers mean equal answers",
]


def evidence(prop, tier, report, vio, t0, extra=None):
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "states": int(report.get("states", 0)),
        "transitions": int(report.get("transitions", 0)),
        "traces_validated_against_impl": int(report.get("traces_validated_against_impl", 0)),
        "samples": (report.get("samples") or [])[:40],
        "exhaustive": vio is None,
        "rule": "states: cases of the listed bounded spaces, each enumerated completely; transitions: calls of the real "
                "library made on them; traces_validated_against_impl: cases whose outcome was compared with the reference",
        "cases_accepted": int(report.get("cases_accepted", 0)),
        "cases_refused": int(report.get("cases_refused", 0)),
        "cases_outside_model": int(report.get("cases_outside_model", 0)),
        "spaces": report.get("spaces") or [],
        "notes": report.get("notes") or [],
    }
    if extra:
        cov.update(extra)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking", "coverage": cov,
        "assumptions": {"C20": ASSUME_CFG, "C21": ASSUME_OID, "C25": ASSUME_MACHINES}.get(prop, ASSUME),
        "wall_s": round(time.time() - t0, 3), "violations": 1 if vio else 0,
    }
    tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def decide(prop, tier):
    t0 = time.time()
    os.makedirs(TARGET, exist_ok=True)
    known, vio, extra = [], None, None
    if prop in MC_PROPS:
        report, vio, known = run_mc(prop, tier)
        if prop == "C01" and vio is None:
            # the same without optimisation: stack use and arithmetic checks of a debug build
            r2, vio, k2 = run_mc(prop, tier, "dev", ("--slow",))
            report, known = merge(report, r2), known + k2
    elif prop == "C20":
        import configs
        report, vio = configs.decide(sys.modules[__name__], tier)
    elif prop == "C21":
        import oidmacro
        report, vio = oidmacro.decide(sys.modules[__name__], tier)
    elif prop == "C25":
        import machines
        report, vio = machines.decide(sys.modules[__name__], tier)
    else:
        engine_error("unknown property " + prop)
    if vio is None and (report.get("states", 0) == 0 or report.get("transitions", 0) == 0):
        engine_error("nothing was explored")
    evidence(prop, tier, report, vio, t0, extra)
    for k in known:
        say("KNOWN-FINDING: property=%s %s" % (prop, k))
    if vio:
        say(vio[1][:2000])
        say("VIOLATION property=%s replay=%s" % (prop, vio[0]))
        sys.exit(1)
    say("%s held on everything explored: %d states, %d transitions, %.1f s" %
        (prop, report.get("states", 0), report.get("transitions", 0), time.time() - t0))
    sys.exit(0)


def replay(path):
    prop = os.path.basename(path).split("-")[0]
    if prop == "C20":
        import configs
        sys.exit(configs.replay(sys.modules[__name__], path))
    if prop == "C21":
        import oidmacro
        sys.exit(oidmacro.replay(sys.modules[__name__], path))
    if prop == "C25":
        import machines
        sys.exit(machines.replay(sys.modules[__name__], path))
    l = open(path).read().splitlines()
    profile = l[4] if len(l) > 4 and not l[4].startswith("#") else "release"
    exe = build_mc(profile)
    if l[0] == "*whole exploration*":
        rc, out = run([exe, prop, "--journal", os.path.join(TARGET, "journal-replay-%d" % os.getpid())] + l[3].split(), timeout=24 * 3600)
    else:
        rc, out = one_replay(exe, prop, l[3].split(), path)
    say(out[-3000:])
    say("exit", rc)
    sys.exit(1 if rc != 0 else 0)


def setup():
    os.makedirs(TARGET, exist_ok=True)
    build_mc()
    build_mc("dev")
    for m in ("configs", "oidmacro", "machines"):
        try:
            __import__(m).setup(sys.modules[__name__])
        except ImportError:
            pass
    say("setup done")


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        setup()
    elif a[:1] == ["--replay"]:
        replay(a[1])
    elif a:
        decide(a[0], (a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
    else:
        print(__doc__)
        sys.exit(2)
