#!/usr/bin/env python3
"""run.py ID [quick|thorough]: builds the monitor of a property against /repo's
working tree, runs it, and turns what its oracle observed into a verdict.

exit 0: held on everything observed (evidence/ID.json tells what that was)
exit 1: VIOLATION property=ID replay=PATH
exit 2: no verdict (the build failed, nothing was observed, ...)
"""
import json, os, re, resource, signal, struct, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
ID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BIN = ID.lower()
THOROUGH = TIER == "thorough"
SCRATCH = os.path.join(V, ".build")
T0 = time.time()
os.makedirs(SCRATCH, exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)

def say(*a): print(*a, flush=True)
def no_verdict(m): say(f"NO-VERDICT property={ID} {m}"); sys.exit(2)

# ------------------------------------------------------------------ known findings
def known():
    """lines `known: property=ID <signature>`: a violation whose message contains the signature"""
    p, r = os.path.join(V, "known_findings.txt"), []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.+)", l.strip())
            if m and m.group(1) == ID: r.append(m.group(2))
    return r

# ------------------------------------------------------------------ builds
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"): ENV.pop(k, None)
def flavour(name):
    """-> (command to run, environment, build command or None)"""
    feat = ["--features", "serde"] if ID == "C28" else []
    e = dict(ENV)
    if name in ("chk", "rel"):
        return [f"{H}/target/{name}/{BIN}"], e, ["cargo", "build", "--offline", "--profile", name, "--bin", BIN] + feat
    if name == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=1500"
        t = "x86_64-unknown-linux-gnu"
        return [f"{H}/target/asan/{t}/rel/{BIN}"], e, ["cargo", "+nightly", "build", "--offline", "--profile", "rel", "--target", t, "--target-dir", f"{H}/target/asan", "--bin", BIN] + feat
    if name == "tsan":
        # the standard library is rebuilt too: its synchronisations have to be seen
        e["RUSTFLAGS"] = "-Zsanitizer=thread"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1"
        t = "x86_64-unknown-linux-gnu"
        return [f"{H}/target/tsan/{t}/rel/{BIN}"], e, ["cargo", "+nightly", "build", "--offline", "-Zbuild-std", "--profile", "rel", "--target", t, "--target-dir", f"{H}/target/tsan", "--bin", BIN] + feat
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation" + (f" -Zmiri-seed={name[4:] or 0}" if ID == "C35" else "")
    base = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target-dir", f"{H}/target/miri", "--bin", BIN] + feat + ["--"]
    return base, e, base + ["--cases", "0", "--threads", "1", "--out", "/dev/null"]
def build(name):
    cmd, e, b = flavour(name)
    r = subprocess.run(b, cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-4000:])
        m = re.search(r"cannot be (shared between|sent between) threads safely", r.stdout)
        if m and ID == "C35" and not re.search(r"error.*\n.*--> /repo/", r.stdout):
            l = re.search(r"`[^\n]*` " + m.group(0), r.stdout)
            violated(name, "build", f"a value of the library {m.group(0)}: {l.group(0) if l else ''}", r.stdout, "--cases 0")
        no_verdict(f"the {name} build failed")

# ------------------------------------------------------------------ runs
class Run:
    """one process observing cases; .viol = (case, message) list"""
    def __init__(s, name, tag, args, secs, threads=8):
        s.name, s.tag, s.args, s.secs, s.threads = name, tag, args, secs, threads
        s.out, s.prog, s.err = (os.path.join(SCRATCH, f"{ID}-{tag}.{x}") for x in ("json", "progress", "err"))
    def start(s):
        for p in (s.out, s.prog, s.prog + ".hang"):
            if os.path.exists(p): os.remove(p)
        cmd, e, _ = flavour(s.name)
        a = cmd + ["--seed", str(SEED), "--tier", TIER, "--threads", str(s.threads), "--secs", str(s.secs), "--out", s.out, "--progress", s.prog] + s.args
        s.cmd = a
        s.p = subprocess.Popen(a, cwd=H, env=e, stdout=subprocess.DEVNULL, stderr=open(s.err, "w"))
        s.t0 = time.time()
        return s
    def wait(s):
        try: s.p.wait(timeout=s.secs * 2 + 240)
        except subprocess.TimeoutExpired:
            s.p.kill(); s.p.wait(); no_verdict(f"{s.tag}: still running after {time.time() - s.t0:.0f} s")
        s.rc = s.p.returncode
        s.res, s.viol, s.crash = None, [], None
        if s.rc in (0, 1) and os.path.exists(s.out):
            try:
                s.res = json.load(open(s.out))
                s.viol = [(v["case"], v["msg"]) for v in s.res["violations"]]
                return s
            except ValueError: pass
        s.crash = describe(s.rc, open(s.err, errors="replace").read())
        return s
    def suspects(s):
        """cases under execution when the process ended"""
        try: b = open(s.prog, "rb").read()
        except OSError: return []
        return sorted({k - 1 for (k,) in struct.iter_unpack("<Q", b[:len(b) // 8 * 8]) if k})
def describe(rc, err):
    if rc == 97: return "unbounded result: the case allocates more than 2 GiB"
    if rc == 98: return "no answer: the case used over 25 s of processor time (it normally takes less than a millisecond)"
    m = re.search(r"(unsafe precondition\(s\) violated[^\n]*|ERROR: AddressSanitizer[^\n]*|Undefined Behavior[^\n]*|WARNING: ThreadSanitizer[^\n]*|memory allocation of[^\n]*failed|stack overflow[^\n]*)", err)
    sig = signal.Signals(-rc).name if rc and rc < 0 and -rc in signal.Signals.__members__.values() else str(rc)
    return f"the process ends abnormally ({sig}{', ' + m.group(1).strip() if m else ''})"
def one(name, k, timeout=240):
    """replays one case in a process of its own -> violation message or None"""
    cmd, e, _ = flavour(name)
    try: r = subprocess.run(cmd + ["--seed", str(SEED), "--tier", TIER, "--case", str(k)], cwd=H, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired: return None, ""
    if r.returncode == 0: return None, r.stderr
    if r.returncode == 1 and (m := re.search(r"VIOLATED case \d+: (.*)", r.stdout, re.S)): return m.group(1).strip(), r.stderr
    if name.startswith("miri") and "Undefined Behavior" not in r.stderr: return None, r.stderr
    return describe(r.returncode, r.stderr), r.stderr

def violated(name, k, msg, log, extra=None):
    for sgn in known():
        if sgn in msg: say(f"KNOWN-FINDING: property={ID} {msg[:300]}"); return
    d = os.path.join(V, "replays"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{ID}-seed{SEED}-{name}-{k}.sh")
    cmd, e, b = flavour(name)
    pre = "".join(f"export {v}='{e[v]}'; " for v in ("RUSTFLAGS", "MIRIFLAGS", "ASAN_OPTIONS") if v in e)
    tail = extra or f"--seed {SEED} --tier {TIER} --case {k}"
    with open(p, "w") as f:
        f.write("#!/bin/bash\n# replays a violation of %s (%s)\n" % (ID, name))
        for l in msg[:3000].splitlines(): f.write(f"# {l}\n")
        for l in log[-6000:].splitlines(): f.write(f"#   {l}\n")
        f.write(f"cd {H} && {pre}{' '.join(b)} && {' '.join(cmd)} {tail}\n")
    os.chmod(p, 0o755)
    say(f"{ID} {name} case {k}: {msg[:1500]}")
    say(f"VIOLATION property={ID} replay={p}")
    try: os.remove(os.path.join(V, "evidence", f"{ID}.json"))
    except OSError: pass
    sys.exit(1)

def judge(r, again=True):
    """verdict on one finished run"""
    for k, m in r.viol[:40]:
        _, log = one(r.name, k)
        violated(r.name, k, m, log)
    if r.crash is None: return
    if r.name.startswith("miri") and "Undefined Behavior" not in r.crash and r.rc not in (98, 97): no_verdict(f"{r.tag}: {r.crash}")
    if "data race" in r.crash:
        # (another run of the case may miss it)
        c = r.suspects() or [0]
        violated(r.name, c[0], f"{r.crash}, while running the cases {c}", open(r.err, errors="replace").read())
    # which case? those under execution are run again, alone
    for k in r.suspects():
        m, log = one(r.name, k)
        if m: violated(r.name, k, m, log)
    if again:
        r2 = Run(r.name, r.tag, r.args, r.secs, r.threads).start().wait()
        if r2.crash or r2.viol: return judge(r2, False)
    sys.stderr.write(open(r.err, errors="replace").read()[-3000:])
    no_verdict(f"{r.tag}: {r.crash}, which is not reproduced")

def probes(name):
    """requests too big for the memory; each in its own process"""
    cmd, e, _ = flavour(name)
    n = int(subprocess.run(cmd + ["--probes"], env=e, capture_output=True, text=True).stdout)
    out = {"answered": 0, "panic": 0, "allocation failure": 0}
    for b in range(0, n, 8):
        ps = [(k, subprocess.Popen(cmd + ["--probe", str(k)], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")) for k in range(b, min(n, b + 8))]
        for k, p in ps:
            try: o, err = p.communicate(timeout=300)
            except subprocess.TimeoutExpired: p.kill(); no_verdict(f"probe {k} takes too long")
            if p.returncode == 0: out["answered"] += 1
            elif p.returncode == 101: out["panic"] += 1
            elif p.returncode == -signal.SIGABRT and "memory allocation of" in err and "unsafe precondition" not in err: out["allocation failure"] += 1
            else: violated(name, f"probe{k}", f"probe {k} (a graph too big for the memory): " + describe(p.returncode, err), err, f"--probe {k}")
    return n, out

def costs():
    """C34: the instructions which operations execute, counted by callgrind, on small then on bigger
    graphs and sets; they may not grow much faster than the stated power of the size"""
    from concurrent.futures import ThreadPoolExecutor
    build("rel")
    b = f"{H}/target/rel/{BIN}"
    def cmd(k, n): return ["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", "--collect-atstart=no", "--toggle-collect=vp_measured", b, "--measure", str(k), str(n)]
    def measure(k, n, cap):
        # (the time of the processor, so that a busy machine changes nothing)
        lim = lambda: resource.setrlimit(resource.RLIMIT_CPU, (cap, cap))
        p = subprocess.run(cmd(k, n), env=ENV, capture_output=True, text=True, errors="replace", preexec_fn=lim)
        m = re.search(r"Collected : (\d+)", p.stderr)
        if p.returncode == 0 and m: return int(m[1]), ""
        return None, "slow" if p.returncode in (-9, -24) else p.stderr[-1500:]
    sc = [l.split(None, 4) for l in subprocess.run([b, "--list"], env=ENV, capture_output=True, text=True).stdout.splitlines()]
    sc = [(k, float(e), int(n), int(m), name) for k, e, n, m, name in sc]
    out = {name: {"exponent": e, "sizes": [], "instructions": []} for _, e, _, _, name in sc}
    def size(n, m, e, stage):
        if THOROUGH: m = m * 2 if e < 3 else m * 3 // 2
        return (n, round((n * m) ** .5), m)[stage]
    # a size at a time, so that what grows too fast is seen before it takes hours
    for stage, cap in enumerate((60, 120, 900 if THOROUGH else 240)):
        ex = ThreadPoolExecutor(8)
        try:
            for s, f in [(s, ex.submit(measure, s[0], size(s[2], s[3], s[1], stage), cap)) for s in sc]:
                (r, err), (k, e, n, m, name) = f.result(), s
                x, o = size(n, m, e, stage), out[s[4]]
                under = f"--measure {k} {x}  # under: " + " ".join(cmd(k, x)[:-4])
                if r is None:
                    # what fails here fails without valgrind too, or it is not the library's fault
                    if err == "slow":
                        violated("rel", f"measure{k}", f"{name}: it takes more than {cap} s of processor time (counted) with the size {x}, after {o['instructions']} instructions with the sizes {o['sizes']}", "", under)
                        continue
                    q = subprocess.run([b, "--measure", k, str(x)], env=ENV, capture_output=True, text=True, errors="replace")
                    if q.returncode: violated("rel", f"measure{k}", f"{name} (size {x}): {describe(q.returncode, q.stderr)}", q.stderr, f"--measure {k} {x}")
                    no_verdict(f"{name} (size {x}) could not be measured: {err}")
                o["sizes"].append(x); o["instructions"].append(r)
                a, z = o["instructions"][0], o["sizes"][0]
                lim = 1.5 * (x / z) ** e * max(a, 400 if e == 0 else z ** e)
                if r > lim:
                    violated("rel", f"measure{k}", f"{name}: {a} instructions with the size {z}, but {r} with the size {x}: over {int(lim)}, it grows faster than the power {e:g} of the size", "", under)
        finally: ex.shutdown(cancel_futures=True)
    return out

def main():
    runs, notes, extra = [], {}, {}
    secs = 480 if THOROUGH else 45
    if ID == "C26":
        for f in ("chk", "asan", "miri"): build(f)
        # asan and chk: the same hostile cases, under two kinds of instrumentation
        s = 200 if THOROUGH else 40
        for f in ("chk", "asan"):
            n = [] if THOROUGH else ["--cases", "120000" if f == "chk" else "60000"]
            r = Run(f, f, n, s).start().wait(); judge(r); runs.append(r)
        np, extra["oversized requests"] = probes("chk")
        ms = [Run("miri", f"miri{i}", ["--first", str(i * 10000), "--cases", "10000"], 260 if THOROUGH else 60, 1).start() for i in range(8)]
        for r in ms: r.wait()
        for r in ms: judge(r); runs.append(r)
    elif ID == "C35":
        for f in ("chk", "tsan", "miri"): build(f)
        r = Run("chk", "chk", [] if THOROUGH else ["--cases", "12000"], 160 if THOROUGH else 20, 3).start().wait(); judge(r); runs.append(r)
        r = Run("tsan", "tsan", ["--first", "20000000"] + ([] if THOROUGH else ["--cases", "2500"]), 200 if THOROUGH else 30, 3).start().wait(); judge(r); runs.append(r)
        # each interpreter has a scheduling and a memory order of its own
        ms = [Run(f"miri{i + 16 * SEED}", f"miri{i}", ["--first", str(30000000 + i * 10000), "--cases", "10000"], 260 if THOROUGH else 40, 1).start() for i in range(8)]
        for r in ms: r.wait()
        for r in ms: judge(r); runs.append(r)
    else:
        fl = ["chk", "rel"] if THOROUGH else ["chk"]
        for f in fl: build(f)
        for f in fl:
            r = Run(f, f, [], secs // len(fl)).start().wait(); judge(r); runs.append(r)
        if ID == "C34": extra["costs"] = costs()
    tot = lambda k: sum(r.res[k] for r in runs)
    reached = {}
    for r in runs:
        for k, n in r.res["reached"].items(): reached[k] = reached.get(k, 0) + n
    main_run = runs[0].res
    if tot("observations") == 0 or main_run["distinct_nontrivial"] == 0: no_verdict("nothing was observed")
    if main_run["skipped"] > main_run["cases"] * 4: no_verdict("most of the cases could not be judged")
    cov = {"evaluations": tot("cases"), "distinct_nontrivial": main_run["distinct_nontrivial"], "rule": main_run["rule"] + " (counted in the checked build)",
           "samples": main_run["samples"] or ["(none)"], "observations_judged": tot("observations"), "skipped": tot("skipped"),
           "per_instrumentation": {r.tag: {"cases": r.res["cases"], "observations": r.res["observations"], "seconds": r.res["wall_s"], "all_planned_cases": r.res["completed"]} for r in runs},
           "reached": reached, "exhaustive": False, **extra}
    ev = {"property": ID, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
          "assumptions": ["the oracle of the monitor (harness/src/model.rs and the property's body) states the property rightly",
                          "only the executions listed here were observed"],
          "wall_s": round(time.time() - T0, 2), "violations": 0}
    p = os.path.join(V, "evidence", f"{ID}.json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1); os.replace(p + ".tmp", p)
    for r in runs:
        for x in (r.out, r.prog, r.err):
            if os.path.exists(x): os.remove(x)
    say(f"{ID} held: {cov['evaluations']} cases, {cov['observations_judged']} observations judged, {cov['distinct_nontrivial']} distinct cases, {ev['wall_s']} s")
main()
