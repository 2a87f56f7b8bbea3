"""The Rust wrapper: the harness program enumerates by itself; here are its scenarios, and the wrapper's own program."""
import json, os, select, signal, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import py_explore as px
from py_explore import X, pick, say, state, violation, Violation

EXE, PROG, MIRI = (os.environ.get(k, "") for k in ("RSW_EXE", "RSW_PROG", "RSW_MIRI"))
forked = px.child

def child(fn, prefix, quiet=True, batch=1):
    if not getattr(fn, "native", None):
        return forked(fn, prefix, quiet, batch)
    cmd = [*json.loads(MIRI)] if fn.native.startswith("miri-") else [EXE]
    env = dict(os.environ)
    p = subprocess.Popen(cmd + [fn.native, str(min(X.bound, 99)), str(int(X.thorough)), str(batch), ",".join(map(str, prefix))], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if quiet else None, env=env, cwd=os.environ.get("RSW_DIR", "."))
    r = os.dup(p.stdout.fileno()); p.stdout.close()
    p.returncode = 0  # the explorer waits for it
    return p.pid, r
px.child = child

def native(name):
    def f(): pass
    f.native = name
    return f

NAMES = ["rename", "modify", "create", "destroy", "owner", "other"], ["dir", "file", "hard_link", "sym_link", "watcher", "other"]
PATHS = [b"/w/a", b"/w/\xff\xfe", b'/w/"q"\\\n', "/w/é😀".encode(), b"s/self/live@/w"]

def program():
    tmp = os.environ["RSW_TMP"]
    log = os.path.join(tmp, f"log{os.getpid()}")
    if os.path.exists(log):
        os.unlink(log)
    mode = pick(3, "what", 0)
    args = [[], ["/w"], ["/w/é"], [""]][pick(4, "argument")]
    env = dict(os.environ, RSW_LOG=log)
    if mode == 0:
        env["RSW_FAIL"] = "1"
    evs = []
    if mode:
        n = pick(4 if X.thorough else 3, "events")
        at = pick(n + 1, "while opening")
        for i in range(n):
            p = PATHS[pick(len(PATHS), "name")]
            a = pick(2, "associated")
            evs.append((10 ** 18 + i, p, b"/w/to\xc3" if a else None, (i + mode) % 6, (i + a) % 6))
        enc = lambda e: f"{e[0]} {e[1].hex()} {e[2].hex() if e[2] is not None else '-'} {e[3]} {e[4]}"
        env["RSW_SCRIPT"] = ";".join(map(enc, evs[:at])) + "|" + ";".join(map(enc, evs[at:]))
    say(f"program {args} {evs}")
    p = subprocess.Popen([PROG, *args], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lambda: signal.signal(signal.SIGINT, signal.SIG_DFL))
    out = b""
    fd = p.stdout.fileno()
    until = time.time() + 20
    want_lines = len(evs)
    try:
        if mode:
            calls = lambda: open(log).read().split("\n") if os.path.exists(log) else []
            while out.count(b"\n") < want_lines and time.time() < until and p.poll() is None:
                if select.select([fd], [], [], 0.2)[0]:
                    d = os.read(fd, 65536)
                    if not d:
                        break
                    out += d
            while not calls() and time.time() < until and p.poll() is None:
                time.sleep(0.005)
            ended = p.poll() is not None
            if ended:
                violation(f"the program ended by itself, with status {p.returncode}")
            # the handler of the interrupt is there once the program waits for it
            def caught():
                for l in open(f"/proc/{p.pid}/status"):
                    if l.startswith("SigCgt"):
                        return int(l.split()[1], 16) >> 1 & 1
            while not caught() and time.time() < until:
                time.sleep(0.005)
            if mode == 2:
                time.sleep(0.05)
            p.send_signal(signal.SIGINT)
        try:
            rest, err = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            violation("the program does not end on an interrupt")
        out += rest
    finally:
        if p.poll() is None:
            p.kill(); p.wait()
    calls = [l for l in (open(log).read().split("\n") if os.path.exists(log) else []) if l]
    if os.path.exists(log):
        os.unlink(log)
    path = (args[0] if args else ".").encode().hex()
    if mode == 0:
        if p.returncode == 0:
            violation("the watcher could not be opened, but the program gave status 0")
        if calls != [f"open {path}".strip()] and calls != ["open " + path]:
            violation(f"native calls: {calls}")
        return
    if p.returncode != 0:
        violation(f"the program ended with status {p.returncode}: {err[-300:]}")
    if [c.strip() for c in calls] != [("open " + path).strip(), "close"]:
        violation(f"native calls: {calls}")
    got = []
    for l in out.decode("utf-8").split("\n")[:-1]:
        try:
            got.append(json.loads(l))
        except ValueError:
            violation(f"not a line of JSON: {l!r}")
    t = lambda b: None if b is None else b.decode("utf-8", "replace")
    want = [dict(effect_time=e[0], path_name=t(e[1]), associated_path_name=t(e[2]), effect_type=NAMES[0][e[3]], path_type=NAMES[1][e[4]]) for e in evs]
    if got != want:
        violation(f"printed {got}, not {want}")
    X.events += len(evs)
    X.outcome.append((mode, args, evs)); state(mode, args, evs)

SCENARIOS = [
    ("miri-session", native("miri-session"), 0, 2, 3, 40),
    ("miri-two-watchers", native("miri-two"), 0, 1, 3, 40),
] if MIRI else [
    ("session", native("session"), 2, 3, 4, 4000),
    ("two-watchers", native("two"), 1, 2, 3, 4000),
    ("three-watchers", native("three"), 1, 2, 2, 4000),
    ("values", native("values"), 0, 0, 1, 500),
    ("paths", native("paths"), 1, 1, 1, 500),
    ("many-waiting", native("many"), 0, 0, 1, 4),
    ("program", program, 9, 9, 4, 8),
]
if __name__ == "__main__":
    sys.exit(px.main(SCENARIOS, sys.argv[1:]))
