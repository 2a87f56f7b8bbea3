"""Depth-first enumeration of every sequence of choices, one forked process per execution, and a scheduler which
lets one Python thread run at a time and decides at every point where the interpreter may switch."""
import gc, hashlib, json, os, select, signal, sys, threading, time, traceback

class Violation(Exception):
    pass

class X:
    """The execution in progress."""
    prefix = []
    made = []      # (n, chosen, cost of the first alternative)
    trace = []
    states = set()
    transitions = 0
    outcome = []
    events = 0
    used = 0
    bound = 10**9
    thorough = False
    dead = False

def pick(n, label, cost=0):
    i = len(X.made)
    if cost and X.used + cost > X.bound:
        n = 1
    c = X.prefix[i] if i < len(X.prefix) else 0
    if c >= n:
        raise RuntimeError(f"not deterministic: choice {i} ({label}) has {n} alternatives, {c} wanted")
    if c and cost:
        X.used += cost
    X.made.append((n, c, cost))
    if n > 1:
        say(f"choice {label} = {c} of {n}")
    X.transitions += 1
    return c

def say(m):
    X.trace.append(m)

def state(*a):
    X.states.add(hashlib.md5(repr(a).encode("utf-8", "backslashreplace")).hexdigest()[:12])
    X.transitions += 1

_viol = []
def violation(m):
    """Also from callbacks, whose exceptions nobody sees."""
    _viol.append(m)
    raise Violation(m)

class Sched:
    """Threads of Python code, one at a time. Switches happen where CPython itself may switch: on entry to Python
    functions, after calls of native functions, and within native functions that release the lock."""
    def __init__(self, budget_label="switch"):
        self.threads = {}
        self.order = []
        self.cur = None
        self.main = threading.Lock(); self.main.acquire()
        self.errors = []
        self.blocked = {}
    def spawn(self, name, fn):
        lk = threading.Lock(); lk.acquire()
        def body():
            lk.acquire()
            sys.setprofile(self.hook)
            try:
                fn()
            except BaseException as e:
                self.errors.append((name, e))
            sys.setprofile(None)
            self.done(name)
        t = threading.Thread(target=body, daemon=True)
        self.threads[name] = (t, lk); self.order.append(name)
        t.start()
    def hook(self, frame, event, arg):
        if event in ("call", "c_return"):
            f = frame.f_code.co_filename
            if "py_explore" in f or "py_watch" in f or "threading" in f:
                return
            self.point(f"{event} {os.path.basename(f)}:{frame.f_code.co_name}")
    def point(self, what, mine=None):
        me = threading.current_thread()
        name = next((n for n, (t, _) in self.threads.items() if t is me), mine)
        if name is None:
            return
        others = [n for n in self.order if n != name]
        if not others:
            return
        c = pick(1 + len(others), what, cost=1)
        if c:
            self.switch(name, others[c - 1])
    def switch(self, a, b):
        say(f"{a} -> {b}")
        self.threads[b][1].release()
        self.threads[a][1].acquire()
    def done(self, name):
        self.order.remove(name)
        if self.order:
            c = pick(len(self.order), "next")
            self.threads[self.order[c]][1].release()
        else:
            self.main.release()
    def run(self):
        c = pick(len(self.order), "first")
        self.threads[self.order[c]][1].release()
        if not self.main.acquire(timeout=30):
            violation("the threads wait for each other: " + " ".join(self.order))
        for n, e in self.errors:
            if isinstance(e, Violation):
                raise e
            violation(f"thread {n} ended with {e!r}")

def execute(fn, prefix):
    X.prefix, X.made, X.trace, X.states, X.transitions, X.outcome, X.events, X.used = prefix, [], [], set(), 0, [], 0, 0
    msg = None
    _viol.clear()
    try:
        fn()
    except Violation:
        pass
    except BaseException as e:
        _viol.append("the wrapper or the program ended with " + "".join(traceback.format_exception(e))[-1500:])
    gc.collect()
    if _viol:
        msg = _viol[0]
    return dict(choices=X.made, violation=msg, trace=X.trace[-400:] if msg else X.trace[-60:] if len(prefix) < 2 else [], states=list(X.states), transitions=X.transitions, outcome=hashlib.md5(repr(X.outcome).encode("utf-8", "backslashreplace")).hexdigest()[:12], events=X.events)

def siblings(res, pre):
    """What is still to be explored below the execution with this prefix."""
    out = []
    for i in range(len(res["choices"]) - 1, len(pre) - 1, -1):
        n, c, _ = res["choices"][i]
        base = [x for _, x, _ in res["choices"][:i]]
        out += [base + [alt] for alt in range(n - 1, c, -1)]
    return out

def child(fn, prefix, quiet=True, batch=1):
    """A process for one execution, or for up to `batch` of those below it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if quiet:
                n = os.open("/dev/null", os.O_WRONLY); os.dup2(n, 2)
            stack = [prefix]; tot = None
            def put(data):
                data = json.dumps(data).encode() + b"\n"
                while data:
                    data = data[os.write(w, data):]
            k = 0
            while stack and k < batch:
                pre = stack.pop(); k += 1
                put(dict(next=pre))
                res = execute(fn, pre)
                stack += siblings(res, pre)
                res["left"] = stack if not stack or k == batch or res["violation"] else None
                put(res)
                if res["violation"]:
                    break
        finally:
            os._exit(0)
    os.close(w)
    return pid, r

def explore(fn, budget, workers, bound, batch=1, limit_s=60):
    """Everything up to `bound` deviations."""
    X.bound = bound
    t0 = time.time()
    stack = [[]]; running = {}
    tot = dict(executions=0, states=set(), transitions=0, outcomes=set(), events=0, complete=True, violation=None, samples=[])
    def take(line, job):
        res = json.loads(line)
        if "next" in res:
            job["pre"] = res["next"]; return
        job["pre"] = None
        tot["executions"] += 1; tot["transitions"] += res["transitions"]; tot["states"].update(res["states"]); tot["outcomes"].add(res["outcome"]); tot["events"] += res["events"]
        if len(tot["samples"]) < 2 and res["trace"]:
            tot["samples"].append(" | ".join(res["trace"])[:600])
        if res["violation"] and not tot["violation"]:
            tot["violation"] = dict(message=res["violation"], choices=res["choices"], trace="\n".join(res["trace"]), prefix=[c for _, c, _ in res["choices"]])
        if res["left"] is not None:
            stack.extend(res["left"]); job["ended"] = True
    def lost(job, how):
        tot["executions"] += 1
        pre = job["pre"] or []
        tot["violation"] = tot["violation"] or dict(message=how, choices=[[c + 1, c, 0] for c in pre], trace="", prefix=pre)
    while stack or running:
        if time.time() - t0 > budget and stack:
            tot["complete"] = False; stack.clear()
        if tot["violation"]:
            stack.clear()
        while stack and len(running) < workers:
            pre = stack.pop(0) if batch > 1 else stack.pop()
            pid, r = child(fn, pre, batch=1 if len(stack) + len(running) < workers else batch)
            running[r] = dict(pid=pid, pre=pre, buf=b"", since=time.time(), ended=False)
        if not running:
            continue
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in list(running):
            j = running[r]
            if r in rd:
                d = os.read(r, 1 << 20)
                if d:
                    j["buf"] += d; j["since"] = time.time()
                    *lines, j["buf"] = j["buf"].split(b"\n")
                    for l in lines:
                        take(l, j)
                    continue
                os.close(r); _, st = os.waitpid(j["pid"], 0); del running[r]
                if not j["ended"]:
                    lost(j, "the process was brought down (" + (f"signal {os.WTERMSIG(st)}" if os.WIFSIGNALED(st) else f"status {st}") + ")")
            elif time.time() - j["since"] > limit_s:
                os.kill(j["pid"], signal.SIGKILL); os.close(r); os.waitpid(j["pid"], 0); del running[r]
                lost(j, f"the program does not come to an end within {limit_s} s")
    tot["seconds"] = time.time() - t0
    return tot

def main(scenarios, argv):
    """scenarios: (name, function, quick bound, thorough bound, weight)"""
    import argparse
    ap = argparse.ArgumentParser()
    for o in ("prop", "out", "known", "scenario", "replay", "bound"):
        ap.add_argument("--" + o, default="")
    ap.add_argument("--budget", type=float, default=60); ap.add_argument("--workers", type=int, default=8); ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args(argv)
    X.thorough = a.thorough
    if a.replay:
        v = json.load(open(a.replay))
        X.thorough = v.get("thorough", False)
        fn = next(f for n, f, *_ in scenarios if n == v["scenario"])
        X.bound = 10**9
        pid, r = child(fn, v["prefix"], quiet=False)
        buf = b""
        while d := os.read(r, 1 << 20):
            buf += d
        _, st = os.waitpid(pid, 0)
        if not buf:
            print(f"the process was brought down (status {st})"); print("reproduced"); return 1
        res = json.loads(buf.split(b"\n")[-2])
        if "next" in res:
            print(f"the process was brought down (status {st})"); return 1
        print("\n".join(res["trace"])); print("violation:", res["violation"])
        return 1 if res["violation"] else 0
    gc.collect(); gc.freeze()
    sel = [s for s in scenarios if not a.scenario or s[0] == a.scenario or (a.scenario.endswith("*") and s[0].startswith(a.scenario[:-1]))]
    out = dict(scenarios=[], states=0, transitions=0, executions=0, distinct_outcomes=0, counters=[0, 0, 0], exhaustive=True, samples=[], known={}, violation=None)
    left = a.budget
    for i, (name, fn, bq, bt, wgt, *batch) in enumerate(sel):
        b = bt if a.thorough else bq
        t = explore(fn, left * wgt / sum(s[4] for s in sel[i:]), a.workers, b, *batch)
        left = max(1.0, left - t["seconds"])
        print(f"  {name:34s} bound {b}  executions {t['executions']:8d}  steps {t['transitions']:10d}  states {len(t['states']):8d}  outcomes {len(t['outcomes']):6d}  {'' if t['complete'] else 'cut '}{t['seconds']:.1f}s", flush=True)
        out["scenarios"].append(dict(name=name, bound_completed=b if t["complete"] else -1, bound=b, executions=t["executions"], transitions=t["transitions"], states=len(t["states"]), complete=t["complete"], seconds=round(t["seconds"], 1)))
        out["states"] += len(t["states"]); out["transitions"] += t["transitions"]; out["executions"] += t["executions"]; out["distinct_outcomes"] += len(t["outcomes"]); out["counters"][2] += t["events"]; out["exhaustive"] &= t["complete"]; out["samples"] += t["samples"]
        if t["violation"]:
            v = t["violation"]; v.update(scenario=name, thorough=a.thorough); out["violation"] = v
            print("violation:", v["message"][:800]); break
    json.dump(out, open(a.out, "w") if a.out else sys.stdout)
    return 1 if out["violation"] else 0
