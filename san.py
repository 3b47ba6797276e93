#!/usr/bin/env python3
"""C29: runs the monitors' workloads under AddressSanitizer, ThreadSanitizer and
Miri; only what those report (or a crash) is judged here.

usage: san.py build | san.py quick | san.py thorough
"""
import json, os, re, signal, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target", "san")
TRIPLE = "x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED") or 1)
CORES = os.cpu_count() or 4
PROP = "C29"

CFG = "--cfg akasa_verif"
BUILDS = {
    # name: (crate, binary, cargo arguments, RUSTFLAGS)
    "asan": ("broker", "broker", ["build", "--target", TRIPLE], CFG + " -Zsanitizer=address"),
    "tsan": ("broker", "broker", ["build", "-Zbuild-std", "--target", TRIPLE], CFG + " -Zsanitizer=thread"),
    "asan-small": ("small", "small", ["build", "--target", TRIPLE], "-Zsanitizer=address"),
    "miri": ("broker", "broker", ["miri", "run", "--features", "real_time"], CFG),
    "miri-small": ("small", "small", ["miri", "run"], ""),
}


def env_for(name):
    crate, binary, args, flags = BUILDS[name]
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "MIRI_SYSROOT"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS=flags, CARGO_TARGET_DIR=os.path.join(TARGET, name))
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows"
    return e


def tree():
    h = hashlib.sha256()
    for base, dirs, files in os.walk("/repo/akasa-core"):
        dirs[:] = sorted(d for d in dirs if d != "target")
        for f in sorted(files):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(base, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def build(name, sum_):
    crate, binary, args, _ = BUILDS[name]
    e = env_for(name)
    d = e["CARGO_TARGET_DIR"]
    os.makedirs(d, exist_ok=True)
    stamp = os.path.join(d, ".tree")
    cwd = os.path.join(HERE, crate)
    if (not os.path.exists(stamp) or open(stamp).read() != sum_) and os.listdir(d):
        # content, not time stamps, decides whether the code under test is rebuilt
        what = "akasa-core" if crate == "broker" else "mon-small"
        for extra in ([], ["--target", TRIPLE]):
            subprocess.run(["cargo", "+nightly", "clean", "--offline", "-q", "-p", what] + extra, cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cmd = ["cargo", "+nightly"] + args + ["--offline", "--locked", "--bin", binary]
    if "miri" in name:
        e["MON_SINK"] = "1"
        cmd += ["--", "nothing"]  # an unknown property: exit 2 after the build
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = r.returncode == 0 or ("miri" in name and "unknown property" in r.stdout)
    with open(os.path.join(d, "build.log"), "w") as f:
        f.write(r.stdout)
    if ok:
        open(stamp, "w").write(sum_)
    return ok, r.stdout


def build_all(names):
    s = tree()
    with ThreadPoolExecutor(len(names)) as ex:
        out = list(ex.map(lambda n: build(n, s), names))
    bad = [n for n, (ok, _) in zip(names, out) if not ok]
    for n, (ok, text) in zip(names, out):
        if not ok:
            print(f"build of {n} failed")
            for m in list(re.finditer(r"^error.*(?:\n.*){0,8}", text, re.M))[:4]:
                print(m.group(0))
            print("...", text[-600:])
    return not bad


def command(name, what):
    crate, binary, args, _ = BUILDS[name]
    if "miri" in name:
        return ["cargo", "+nightly"] + args + ["--offline", "--locked", "-q", "--bin", binary, "--", what], os.path.join(HERE, crate)
    return [os.path.join(TARGET, name, TRIPLE, "debug", binary), what], HERE


REPORTS = [
    ("asan", r"ERROR: AddressSanitizer:? ?([^\n(]*?)(?: on | \(|\n)"),
    ("tsan", r"WARNING: ThreadSanitizer: ([^\n(]*)"),
    ("miri", r"error: (Undefined Behavior: [^\n]*|Data race[^\n]*|[^\n]*data race[^\n]*)"),
    ("std", r"(unsafe precondition\(s\) violated[^\n]*)"),
    ("abort", r"(malloc\(\)[^\n]*|free\(\): [^\n]*|double free[^\n]*|munmap_chunk[^\n]*)"),
]


def run(job):
    name, what, secs, seed, scratch = job
    cmd, cwd = command(name, what)
    e = env_for(name)
    e.update(MON_SINK="1", MON_SECS=str(secs), STORM_SECS=str(secs), STORM_AS="C29", VERIF_SEED=str(seed), VERIF_TIER="thorough", VERIF_DIR=scratch)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:abort_on_error=0"
    e["TSAN_OPTIONS"] = "exitcode=66:report_signal_unsafe=0:history_size=4"
    t = time.time()
    out = os.path.join(scratch, f"{name}-{what}-{seed}.out")
    killed = False
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            # an interpreted case may outlast the limit: what it did until then counts
            rc = p.wait(timeout=secs + (25 if "miri" in name else 180))
        except subprocess.TimeoutExpired:
            killed = True
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
    text = open(out, errors="replace").read()
    found = []
    for kind, rx in REPORTS:
        for m in re.finditer(rx, text):
            a = max(0, m.start() - 200)
            found.append((kind, m.group(1).strip(), text[a:a + 9000]))
    crash = rc < 0 and not killed
    if crash and not found:
        found.append(("crash", f"killed by signal {-rc}", text[-4000:]))
    seen = [json.loads(l[9:]) for l in text.splitlines() if l.startswith("OBSERVED ")]
    seen = seen[-1] if seen else None
    odd = None
    if not found and rc != 0 and not killed:
        odd = f"{name} {what} seed {seed}: exit {rc}: {text[-300:]}"
    if killed and "miri" not in name:
        odd = f"{name} {what} seed {seed}: no answer within {secs + 180} s"
    return dict(job=f"{name} {what} seed {seed}", cmd=" ".join(cmd), env={k: e[k] for k in ("MON_SECS", "STORM_SECS", "VERIF_SEED", "RUSTFLAGS", "MIRIFLAGS")}, name=name, what=what, found=found, seen=seen, odd=odd, secs=time.time() - t)


def where(text):
    """The first place in /repo a report names."""
    m = re.search(r"(?:/repo/)(akasa-core/src/[\w/]+\.rs:\d+)", text)
    return m.group(1) if m else "outside the repository"


def known():
    try:
        return [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if isinstance(k, dict) and k.get("property") == PROP and k.get("status") == "known"]
    except Exception:
        return []


def main():
    mode = sys.argv[1] if len(sys.argv) > 1 else "quick"
    if mode == "build":
        sys.exit(0 if build_all(list(BUILDS)) else 2)
    t0 = time.time()
    if not build_all(list(BUILDS)):
        sys.exit(2)
    built = time.time() - t0
    scratch = os.path.join(TARGET, "runs")
    subprocess.run(["rm", "-rf", scratch])
    os.makedirs(scratch)
    thorough = mode == "thorough"
    k = 6 if thorough else 1
    jobs = []
    add = lambda name, what, secs, n=1: jobs.extend((name, what, secs, SEED * 100 + i, scratch) for i in range(n))
    # the longest first; a storm has several threads of its own
    for what, n in [("C25", 3), ("C24", 2), ("C03", 2), ("C27", 1), ("C07", 1), ("C13", 1), ("C10", 1)]:
        add("miri", what, 60 * k, n * (2 if thorough else 1))
    add("miri-small", "C22", 20 * k)
    for what in ["C25", "C24", "C27", "C03", "C09", "C02", "C11", "C15", "C16", "C18", "C12", "C21", "C26"]:
        add("asan", what, 8 * k, 2 if what in ("C25", "C24", "C27") else 1)
    for what in ["C19", "C20", "C22"]:
        add("asan-small", what, 4 * k)
    single = list(jobs)
    jobs.clear()
    add("asan", "storm", 12 * k, 2)
    add("tsan", "storm", 18 * k, 4)
    storms = list(jobs)
    with ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(run, single))
    with ThreadPoolExecutor(max(2, CORES // 3)) as ex:
        res += list(ex.map(run, storms))
    counters, per, evaluations, distinct, samples = {}, {}, 0, 0, []
    for r in res:
        p = per.setdefault(r["name"], dict(processes=0, executions=0, seconds=0.0))
        p["processes"] += 1
        p["seconds"] = round(p["seconds"] + r["secs"], 1)
        s = r["seen"]
        if s:
            p["executions"] += s["evaluations"]
            evaluations += s["evaluations"]
            distinct += s["distinct"]
            for c, v in s["counters"].items():
                key = f"observed.{r['name']}.{c}"
                counters[key] = counters.get(key, 0) + v
            if len(samples) < 5:
                samples.append(f"{r['job']}: {s['evaluations']} executions")
    odd = [r["odd"] for r in res if r["odd"]]
    ks = known()
    hits, violations = {}, {}
    for r in res:
        for kind, what, text in r["found"]:
            sig = f"{kind}:{re.sub(r'0x[0-9a-f]+|<[0-9]+>|alloc[0-9]+', '_', what)[:90]} at {where(text)}"
            if any(x.get("signature") == sig for x in ks):
                hits[sig] = hits.get(sig, 0) + 1
            else:
                violations.setdefault(sig, (r, what, text))
    for x in ks:
        print(f"KNOWN-FINDING: property={PROP} {x.get('what')} (seen {hits.get(x.get('signature'), 0)} times in this run)")
    cov = dict(evaluations=evaluations, distinct_nontrivial=distinct, rule="executions (cases or storms) run under an instrumentation, distinct by their history within each process", samples=samples)
    cov.update({f"by_tool.{k2}": v for k2, v in per.items()})
    cov.update(counters)
    if odd:
        cov["inconclusive_reasons"] = odd[:20]
    ev = dict(property=PROP, tier="thorough" if thorough else "quick", seed=SEED, level="exploration", coverage=cov,
              assumptions=["the assembly of ring and the C library are not instrumented", "Miri runs without its experimental aliasing models and without TLS", "races hidden behind the harness's own synchronisation of a connection's bytes are not seen"],
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    evd = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    tmp = os.path.join(evd, f".{PROP}.json.tmp")
    open(tmp, "w").write(json.dumps(ev, indent=2) + "\n")
    os.rename(tmp, os.path.join(evd, f"{PROP}.json"))
    print(f"{PROP}: {evaluations} executions under {', '.join(f'{k2} ({v['executions']})' for k2, v in per.items())}; {len(violations)} violations, build {built:.0f}s, all {time.time() - t0:.0f}s")
    for o in odd[:8]:
        print("  inconclusive:", o)
    for i, (sig, (r, what, text)) in enumerate(list(violations.items())[:5]):
        rp = os.path.join(evd, "replay", f"{PROP}-{SEED}-{i}.txt")
        with open(rp, "w") as f:
            f.write(f"property {PROP}\nsignature {sig}\njob {r['job']}\ncommand {r['cmd']}\nenvironment {json.dumps(r['env'])}\n\n{text}\n")
        print(f"--- {sig}\n{text[:1500]}")
        print(f"VIOLATION property={PROP} replay={rp}")
    if violations:
        sys.exit(1)
    # an interpreted case may take longer than its time on a slow machine: the other tools must have seen something
    bare = [n for n in per if per[n]["executions"] == 0 and "miri" not in n]
    if bare:
        print("nothing observed under", bare)
        sys.exit(3)
    sys.exit(0)


main()
