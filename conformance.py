"""The simulated kernel against the real one.

Both h_conf (the notification interfaces themselves) and h_e2e (a whole watcher) are built with the simulator and,
with -DREAL, without it; every sequence of operations up to a depth is run by both. For h_conf both must say exactly
the same. For h_e2e every outcome on the real kernel must be among those the explorer found for that sequence within
its bound of deviations (the simulation allows all the real kernel does). What disagrees is printed and recorded in
the evidence; it is no violation of the property, because the kernel the check happens to run on is not under test."""
import os, shutil, subprocess, tempfile

# program, interface, full alphabet, depth, deviations, in bursts
CONF = {
    "C03": [("h_conf", "in", 1, 2, 0, 0), ("h_e2e", "in", 0, 2, 2, 1)],
    "C05": [("h_e2e", "in", 1, 2, 1, 0)],
    "C06": [("h_conf", "fan", 1, 2, 0, 0), ("h_e2e", "fan", 0, 2, 2, 1)],
    "C10": [("h_e2e", "in", 0, 2, 1, 0), ("h_e2e", "fan", 0, 2, 1, 0)],
}
CONF_THOROUGH = {
    "C03": [("h_conf", "in", 1, 3, 0, 0), ("h_e2e", "in", 1, 2, 2, 1)],
    "C05": [("h_e2e", "in", 0, 3, 1, 0)],
    "C06": [("h_conf", "fan", 0, 3, 0, 0), ("h_e2e", "fan", 1, 2, 2, 1)],
    "C10": [("h_e2e", "in", 0, 3, 1, 0), ("h_e2e", "fan", 0, 3, 1, 0)],
}


def one(c, prog, mode, full, depth, bound, burst):
    n = c.NCPU
    exe, _ = c.build_harness(prog, "plain", "include")
    src = os.path.join(c.V, "harness", prog + ".cpp")
    flags = ["-std=gnu++17", "-O1", "-DREAL"]
    inc = [os.path.join(c.REPO, "include")]
    real = os.path.join(c.B, "bin", prog + ".real." + c.digest(c.preprocess(src, flags, inc)))
    if not os.path.exists(real):
        c.need(["g++", *flags, *[f"-I{i}" for i in inc], src, "-o", real + ".tmp", "-lpthread"], "building the program for the real kernel")
        os.rename(real + ".tmp", real)
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) and not (prog == "h_e2e" and mode == "fan") else None
    d = tempfile.mkdtemp(prefix="wtr-conf-", dir=shm)
    limit = 60 if c.TIER == "quick" else 900
    env = dict(os.environ)
    for k in ("CONF_BURST", "CONF_FAN", "CONF_THOROUGH"):
        env.pop(k, None)
    if burst:
        env["CONF_BURST"] = "1"
    r = dict(program=prog, interface={"in": "inotify", "fan": "fanotify"}[mode], alphabet="full" if full else "small", depth=depth, deviations=bound, waited=not burst)
    try:
        outs = [open(os.path.join(d, f"out{k}"), "w+") for k in range(n)]
        ps = [subprocess.Popen([real, mode, str(full), str(depth), d, str(k), str(n)], stdout=outs[k], stderr=subprocess.DEVNULL, env=env) for k in range(n)]
        ok = True
        for p in ps:
            try:
                ok &= p.wait(limit) == 0
            except subprocess.TimeoutExpired:
                ok = False
                p.kill()
                p.wait()
        got = set()
        for f in outs:
            f.seek(0)
            got |= set(f.read().splitlines())
            f.close()
        if any(l.startswith("unusable") for l in got):
            r["skipped"] = "the kernel does not permit it here"
            return r
        if not ok:
            r["skipped"] = "the program on the real kernel did not finish"
            return r
        sim_out = os.path.join(d, "sim")
        env.update(CONF_OUT=sim_out, CONF_DEPTH=str(depth), CONF_BOUND=str(bound))
        if mode == "fan":
            env["CONF_FAN"] = "1"
        if full:
            env["CONF_THOROUGH"] = "1"
        s = subprocess.run([exe, "--prop", "", "--budget", str(limit * 2), "--workers", str(n), "--out", os.path.join(d, "o.json"), "--known", ""], env=env, cwd=c.V, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if s.returncode or not os.path.exists(sim_out):
            r["skipped"] = "the simulated program did not finish"
            return r
        with open(sim_out, errors="replace") as f:
            sim = set(f.read().splitlines())
        name = lambda l: l.split("=>")[0]
        bad = got - sim if prog == "h_e2e" else got ^ sim
        missing = {name(l) for l in sim} ^ {name(l) for l in got}
        r.update(sequences=len({name(l) for l in got}), real_outcomes=len(got), simulated_outcomes=len(sim), disagreements=len(bad) + len(missing), examples=sorted(bad)[:4] + sorted(missing)[:2])
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(c, prop):
    out = []
    for job in (CONF if c.TIER == "quick" else CONF_THOROUGH).get(prop, []):
        r = one(c, *job)
        out.append(r)
        w = f" real kernel, {r['program']}, {r['interface']}, depth {r['depth']}{'' if r['waited'] or r['program'] == 'h_conf' else ', in bursts'}: "
        print(w + (f"skipped, {r['skipped']}" if "skipped" in r else f"{r['sequences']} sequences, {r['disagreements']} disagreements"))
        for e in r.get("examples", []):
            print("   disagrees: " + e)
    return out
