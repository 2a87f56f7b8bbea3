#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep]

Decides one property: builds the harnesses it is explored with from /repo's
current working tree, runs the explorer, and writes evidence/<property>.json.
Exit 0: held on everything explored. 1: VIOLATION. 2: an error of the check."""
import hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WTR_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
from plan import PLAN, ASSUME

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def need(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise CheckError(f"{what}: exit {r.returncode}\n{' '.join(cmd)}\n{r.stdout[-6000:]}")
    return r.stdout


BASE = "-g -fno-omit-frame-pointer -U_FORTIFY_SOURCE -fno-exceptions -fno-rtti -fstrict-enums".split()
FLAVOURS = {
    "plain": (["-std=gnu++17", "-O1"] + BASE, []),
    "asan": (["-std=gnu++17", "-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize=alignment", "-fno-sanitize-recover=all"] + BASE, ["-fsanitize=address,undefined"]),
    "race": (["-std=gnu++17", "-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"] + BASE, []),
}
SIM = ["explore", "sched", "kernel", "interpose", "oracle"]


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def readf(p):
    with open(p, "rb") as f:
        return f.read()


def build_sim():
    need(["make", "-s", f"-j{NCPU}", "-f", "Makefile.sim", f"B={B}"], "building the simulator", cwd=V)


def strip_pp(text):
    return "\n".join(l for l in text.split("\n") if l.strip())


def preprocess(src, flags, inc):
    r = subprocess.run(["g++", *flags, "-E", "-P", *[f"-I{i}" for i in inc], src], text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise CheckError(f"the code under test does not preprocess: {r.stderr[-4000:]}")
    return strip_pp(r.stdout)


def build_harness(name, flavour, tree, srcs=None, inc_first=None, flags=()):
    """Builds harness/<name>.cpp (and more sources of /repo) against one include tree; returns the program."""
    cflags, lflags = FLAVOURS[flavour]
    inc = [os.path.join(V, "harness", i) for i in inc_first or []] + [os.path.join(REPO, tree)]
    srcs = [os.path.join(V, "harness", name + ".cpp")] + [os.path.join(REPO, s) for s in (srcs or [])]
    extra = []
    if len(srcs) > 1:
        inc.append(os.path.join(REPO, "watcher-c/include"))
    objs = []
    hashes = []
    procs = []
    for s in srcs:
        fl = cflags + list(flags) + (["-Dmain=cut_main"] if s.endswith("src/wtr/watcher/main.cpp") else [])
        pp = preprocess(s, fl, inc)
        h = digest(pp, " ".join(fl))
        hashes.append(h)
        o = os.path.join(B, "obj", f"{os.path.basename(s)}.{flavour}.{h}.o")
        objs.append(o)
        if not os.path.exists(o):
            os.makedirs(os.path.dirname(o), exist_ok=True)
            cmd = ["g++", *fl, *[f"-I{i}" for i in inc], "-c", s, "-o", o + ".tmp"]
            procs.append((subprocess.Popen(cmd, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT), o, cmd))
    for p, o, cmd in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise CheckError(f"the code under test does not compile: {' '.join(cmd)}\n{out[-6000:]}")
        if flavour == "race":
            need(["objcopy", *[f"--redefine-sym={f}=__tsan_{f}" for f in ("memcpy", "memmove", "memset")], o + ".tmp"], "objcopy")
        os.rename(o + ".tmp", o)
    sim = [os.path.join(B, s + ".o") for s in SIM + {"race": ["tsanrt"], "plain": ["fillnew"]}.get(flavour, [])]
    exe = os.path.join(B, "bin", f"{name}.{flavour}." + digest(*hashes, *[readf(s) for s in sim]))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        need(["g++", "-rdynamic", *lflags, *objs, *sim, "-o", exe + ".tmp", "-ldl", "-lpthread"], "linking")
        os.rename(exe + ".tmp", exe)
    return exe, digest(*hashes)


def known_findings(prop):
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    for l in open(p, errors="replace"):
        m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
        if m and prop in m[1].split(","):
            out.append((m[2], m[3].strip()))
    return out


def save_replay(prop, obj):
    d = os.path.join(V, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(obj, separators=(",", ":"))
    p = os.path.join(d, f"{prop}-{digest(text)[:10]}.json")
    with open(p, "w") as f:
        f.write(text)
    return p


def runner(job):
    import importlib
    return importlib.import_module("runners." + job["runner"])


def run_explorer(prop, job, tree_dirs, cov, findings):
    """One harness in one flavour over one or both header trees. Returns a violation or None."""
    name, flavour = job.get("harness") or job["runner"], job.get("flavour", "plain")
    exes = []
    seen = set()
    if job.get("runner"):
        exes = runner(job).programs(sys.modules[__name__], job)
        tree_dirs = []
    for tree in tree_dirs if job.get("trees", True) else tree_dirs[:1]:
        exe, h = build_harness(name, flavour, tree, job.get("srcs"), job.get("inc"), job.get("flags", ()))
        if h not in seen:
            seen.add(h)
            exes.append((tree, [exe], {}))
    budget = job["budget"][0 if TIER == "quick" else 1] / len(exes)
    for tree, exe, more in exes:
        out = os.path.join(B, f"out.{prop}.{name}.{flavour}.{os.getpid()}.json")
        cmd = [*exe, "--prop", prop, "--budget", str(budget), "--workers", str(NCPU), "--out", out, "--known", ",".join(k for k, _ in findings)]
        if TIER == "thorough":
            cmd.append("--thorough")
        if job.get("bound"):
            cmd += ["--bound", str(job["bound"][0 if TIER == "quick" else 1])]
        if job.get("scenario"):
            cmd += ["--scenario", job["scenario"]]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:malloc_context_size=1:quarantine_size_mb=1:thread_local_quarantine_size_kb=16:use_sigaltstack=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", **more)
        r = sh(cmd, cwd=V, env=env)
        print(f" {name} ({flavour}, {tree}):")
        print(r.stdout[-5000:], end="", flush=True)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            raise CheckError(f"the explorer ended with {r.returncode}")
        j = json.load(open(out, errors="replace"))
        os.unlink(out)
        for s in j["scenarios"]:
            s["tree"] = tree
            s["harness"] = f"{name}/{flavour}"
            cov["scenarios"].append(s)
        cov["states"] += j["states"]
        cov["transitions"] += j["transitions"]
        cov["traces_validated_against_impl"] += j["executions"]
        cov["distinct_outcomes"] += j["distinct_outcomes"]
        cov["kernel_reads"] += j["counters"][0]
        cov["kernel_records"] += j["counters"][1]
        cov["events_delivered"] += j["counters"][2]
        cov["exhaustive"] &= bool(j["exhaustive"])
        cov["samples"] += j["samples"][: max(0, 8 - len(cov["samples"]))]
        for k, n in j["known"].items():
            cov["known_finding_executions"][k] = cov["known_finding_executions"].get(k, 0) + n
        if j["violation"]:
            v = dict(j["violation"])
            v.update(property=prop, tree=tree, harness=name, flavour=flavour, srcs=job.get("srcs"), inc=job.get("inc"), job=job, known=[k for k, _ in findings])
            return v
    return None


def replay(path):
    v = json.load(open(path))
    if v["job"].get("runner"):
        _, exe, more = runner(v["job"]).programs(sys.modules[__name__], v["job"])[0]
        return subprocess.run([*exe, "--prop", v["property"], "--replay", path], env=dict(os.environ, **more)).returncode
    build_sim()
    exe, _ = build_harness(v["harness"], v["flavour"], v["tree"], v.get("srcs"), v.get("inc"), v["job"].get("flags", ()))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
    r = subprocess.run([exe, "--prop", v["property"], "--known", ",".join(v.get("known", [])), "--replay", path], env=env)
    return r.returncode


def setup():
    """Builds everything beforehand, so that the checks find it in the cache."""
    from concurrent.futures import ThreadPoolExecutor
    build_sim()
    jobs = {}
    for plan in PLAN.values():
        for j in plan:
            if "harness" in j:
                jobs[(j["harness"], j.get("flavour", "plain"))] = j
    with ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(build_harness, j["harness"], j.get("flavour", "plain"), "include", j.get("srcs"), j.get("inc"), j.get("flags", ())) for j in jobs.values()]:
            try:
                f.result()
            except CheckError as e:
                print("not built beforehand:", e)
    for plan in PLAN.values():
        for j in plan:
            if "runner" in j:
                try:
                    runner(j).programs(sys.modules[__name__], j)
                except CheckError as e:
                    print("not built beforehand:", e)
    return 0


def main():
    global TIER
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return replay(a[1])
    if a[:1] == ["--setup"]:
        return setup()
    prop = a[0]
    if "--tier" in a:
        TIER = a[a.index("--tier") + 1]
    t0 = time.time()
    plan = PLAN[prop]
    findings = known_findings(prop)
    ev = os.path.join(V, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, distinct_outcomes=0, kernel_reads=0, kernel_records=0, events_delivered=0, exhaustive=True, samples=[], scenarios=[], known_finding_executions={})
    viol = None
    build_sim()
    for job in plan:
        if job.get("only") and job["only"] != TIER:
            continue
        viol = run_explorer(prop, job, ["include", "devel/include"], cov, findings)
        if viol:
            break
    if not viol:
        import conformance
        try:
            conf = conformance.run(sys.modules[__name__], prop)
        except (CheckError, OSError) as e:
            conf = [dict(skipped=str(e)[:500])]
        if conf:
            cov["conformance_with_the_real_kernel"] = conf
    cov = {k: v for k, v in cov.items() if v not in (0,) or k in ("states", "transitions", "traces_validated_against_impl")}
    doc = dict(property=prop, tier=TIER, seed=SEED, level="model_checking", coverage=cov, assumptions=ASSUME.get(prop, []) + ASSUME["*"], wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    with open(ev, "w") as f:
        json.dump(doc, f, indent=1)
    for k, what in findings:
        print(f"KNOWN-FINDING: property={prop} {what} [seen in {cov['known_finding_executions'].get(k, 0)} of the executions explored]")
    if viol:
        p = save_replay(prop, viol)
        print("-" * 60)
        print(f"{viol.get('scenario', '')}: {viol.get('message', '')[:3000]}")
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    print(f"{prop}: held on {cov['traces_validated_against_impl']} executions, {cov['states']} states, {cov['transitions']} transitions ({round(time.time() - t0, 1)} s)")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("CHECK ERROR:", e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
