"""The Python wrapper, as it is, over a native library which records every call and decides what happens."""
import ctypes, gc, itertools, json, os, subprocess, sys, threading, weakref
from py_explore import X, Sched, Violation, main, pick, say, state, violation

DIR = os.environ["PYW_DIR"]
sys.path.insert(0, DIR)
sys.dont_write_bytecode = True

# Callbacks given to native code, and whether they are still there.
_FUNC = ctypes.CFUNCTYPE
_serial = itertools.count(1)
LIVE = {}

def _tracked(*a, **k):
    base = _FUNC(*a, **k)
    class Tracked(base):
        _flags_, _argtypes_, _restype_ = base._flags_, base._argtypes_, base._restype_
        def __init__(self, *a):
            super().__init__()
            self.addr = ctypes.cast(self, ctypes.c_void_p).value
            LIVE[self.addr] = self.serial = next(_serial)
        def __del__(self, LIVE=LIVE):
            a = getattr(self, "addr", None)
            if a and LIVE.get(a) == self.serial:
                del LIVE[a]
    return Tracked

ctypes.CFUNCTYPE = _tracked
import watcher
MOD = sys.modules.get("watcher.watcher", watcher)
ctypes.CFUNCTYPE = _FUNC
gc.disable()

_Open = _FUNC(ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)
_Close = _FUNC(ctypes.c_bool, ctypes.c_void_p)

HANDLES = itertools.count(0x7F3355000010, 0x100)
class Native:
    """The native library's side."""
    def __init__(self, lib):
        self.lib = ctypes.CDLL(lib)
        self.lib.mock_emit.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int64, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
        self.lib.mock_emit.restype = None
        self._o, self._c = _Open(self.open), _Close(self.close)
        self.lib.mock_set.argtypes = [_Open, _Close]
        self.lib.mock_set(self._o, self._c)
        self.w = {}            # handle -> dict
        self.on_open = lambda h: None
        self.on_close = lambda h: True
        self.refuse = False
        self.sched = None
    def open(self, path, cb, ctx):
        p = ctypes.string_at(path)
        say(f"native open {p!r}")
        if self.sched:
            self.sched.point("native open")
        if not cb:
            violation("the native library is given no callback")
        if self.refuse:
            return None
        h = next(HANDLES)
        self.w[h] = dict(path=p, cb=cb, ctx=ctx, serial=LIVE.get(cb), closed=0, sent=0)
        self.on_open(h)
        return h
    def close(self, h):
        say(f"native close {h and hex(h)}")
        if h not in self.w:
            violation(f"the native library is asked to close a handle it never gave: {h and hex(h)}")
        w = self.w[h]
        w["closed"] += 1
        if w["closed"] > 1:
            violation("the native watcher is closed twice")
        if self.sched:
            self.sched.point("native close")
        r = self.on_close(h)
        if self.sched:
            self.sched.point("native close ends")
        w["over"] = True
        return r
    def emit(self, h, t, path, assoc, et, pt):
        w = self.w[h]
        if w.get("over"):
            return False
        if w["serial"] is not None and LIVE.get(w["cb"]) != w["serial"]:
            violation("native code may still call, but the callback is gone")
        w["sent"] += 1
        X.events += 1
        self.lib.mock_emit(w["cb"], w["ctx"], t, path, assoc, et, pt)
        return True

KEEP = []
def native():
    d = os.path.join(DIR, "watcher", ".wtr_watcher.mesonpy.libs")
    KEEP[:-1] = []
    KEEP.append(Native(os.path.join(d, sorted(os.listdir(d))[0])))
    return KEEP[-1]

ET = ["rename", "modify", "create", "destroy", "owner", "other"]
PT = ["dir", "file", "hard_link", "sym_link", "watcher", "other"]
class UserError(Exception):
    pass
unraisable = []
def _hook(u):
    unraisable.append((u.exc_value.with_traceback(None), repr(u.object), u.err_msg))
def check_unraisable(allowed=0):
    bad = [u for u in unraisable if not isinstance(u[0], (UserError, Violation))]
    if bad:
        violation(f"an exception nobody can catch: {bad[0][0]!r} in {bad[0][1]} {bad[0][2] or ''}")

def same(e, want):
    """Is this the event the native library sent?"""
    t, p, a, et, pt = want
    if not isinstance(e, watcher.Event):
        violation(f"the callback is given {e!r}")
    ok = e.effect_time == t and os.fsencode(e.path_name) == p and (e.associated_path_name is None if a is None else e.associated_path_name is not None and os.fsencode(e.associated_path_name) == a)
    ok = ok and isinstance(e.effect_type, watcher.EffectType) and isinstance(e.path_type, watcher.PathType) and e.effect_type.value == et and e.path_type.value == pt and e.effect_type.name.lower() == ET[et] and e.path_type.name.lower() == PT[pt]
    if not ok:
        violation(f"sent: {want!r}; given to the callback: {e!r}")
def same_json(text, want, names):
    t, p, a, et, pt = want
    try:
        j = json.loads(text)
    except ValueError as x:
        violation(f"the JSON text does not parse: {x}: {text!r}")
    if j != {"effect_time": t, "path_name": names(p), "associated_path_name": None if a is None else names(a), "effect_type": ET[et], "path_type": PT[pt]} or type(j["effect_time"]) is not int:
        violation(f"sent: {want!r}; the JSON text says: {text!r}")
    if "\n" in text:
        violation("the JSON text has more than one line")

PIECES = [b'"', b"\\", b"'", b"\n", b"\r", b"\t", b"\0"[:0] or b"\x01", b"\x1b", b"\x7f", b" ", b"{", b"}", b",", b"null", b"$", b"%s", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x90\x8d", b"\xc3", b"\xff", b"\xfe", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xc0\x80", b"\xf5\x80\x80\x80", b"\xe2\x80\xa8", b"\xef\xbb\xbf", b"a", b"/"]
TIMES = [0, 1, -1, 9, 10**9, 2**31 - 1, 2**31, 2**32, 2**53 + 1, 10**18, 1795136338493256973, 2**63 - 1, -2**63]

def a_watch(n, sink, path="/w"):
    return watcher.Watch(path, sink)

def values(group):
    """Every value of every field, alone and in pairs."""
    def run():
        n = native(); sys.unraisablehook = _hook
        got = []
        w = a_watch(n, got.append)
        h = list(n.w)[0]
        et, pt = pick(6, "effect type"), pick(6, "path type")
        if group == "bytes":
            names = [bytes([b]) for b in range(1, 256)] + [b"x" + bytes([b]) + b"y" for b in range(1, 256)]
        elif group == "pairs":
            names = [a + b for a in PIECES for b in PIECES]
        elif group == "lengths":
            names = [c * k for c in (b"a", b"\xff", b"\xc3\xa9", b'"') for k in (1, 2, 100, 254, 255, 256, 1000, 4094, 4095, 4096, 8191)]
        else:
            names = [b"/w/f"]
        times = TIMES if group == "times" else [1795136338493256973]
        for nm in names:
            for t in times:
                for a in (None, b"/w/other", nm):
                    want = (t, nm, a, et, pt)
                    del got[:]
                    n.emit(h, *want)
                    check_unraisable()
                    if len(got) != 1:
                        violation(f"sent {want!r}: the callback ran {len(got)} times")
                    same(got[0], want)
                    same_json(got[0].to_json(), want, os.fsdecode)
        state(group, et, pt)
        w.close()
        if n.w[h]["closed"] != 1:
            violation("not closed")
    return run

PATHS = ["/w", ".", "", "/w/\udcff", "/w/\u00e9\u20ac\U0001f40d", "/w/\"q\"\\\n", "/" + "x" * 5000]
def paths():
    """The native library is given the very path."""
    n = native(); sys.unraisablehook = _hook
    p = PATHS[pick(len(PATHS), "path")]
    w = a_watch(n, lambda e: None, p)
    (h, x), = n.w.items()
    if x["path"] != os.fsencode(p):
        violation(f"asked for {p!r}, the native library was given {x['path']!r}")
    w.close(); check_unraisable(); state(p)

def histories(depth):
    def run():
        n = native(); sys.unraisablehook = _hook; unraisable.clear()
        refuse = pick(2, "open fails"); result = pick(2, "close gives") == 0; early = pick(3, "events while opening"); late = pick(3, "events while closing"); cyc = pick(2, "the callback refers to the watcher"); twins = pick(2, "the same again, and times which go back")
        got, want, seq = [], [], itertools.count(1)
        raising = [False]
        holder = {}
        def make(tag):
            def cb(e, holder=holder if cyc else None):
                got.append((tag, e))
                if raising[0]:
                    raise UserError()
            return cb
        handle_tag = {}
        cur = [None]
        def send(h):
            k = next(seq)
            if twins:
                k //= 2
                k = k if k % 2 else 9 - k
            ev = (k, b"/w/%d" % k, None if k % 3 else b"/w/a%d" % k, k % 6, (k // 2) % 6)
            if n.emit(h, *ev):
                want.append((handle_tag[h], ev))
        def on_open(h):
            handle_tag[h] = cur[0]
            for _ in range(early):
                send(h)
        def on_close(h):
            for _ in range(late):
                send(h)
            return result
        n.on_open, n.on_close, n.refuse = on_open, on_close, bool(refuse)
        def make_watch(tag):
            cur[0] = tag
            try:
                holder[tag] = watcher.Watch("/w", make(tag))
                if refuse:
                    violation("the native library did not open a watcher, and nobody is told")
            except Violation:
                raise
            except Exception as e:
                if not refuse:
                    violation(f"the constructor raised {e!r}")
        def handle(tag):
            return next((h for h, t in handle_tag.items() if t == tag), None)
        entered = {}
        def guarded(what, fn):
            try:
                return fn()
            except (Violation, UserError):
                raise
            except Exception as e:
                if result:
                    violation(f"{what} raised {e!r}")
        def op_close(tag):
            if tag in holder:
                guarded("close()", holder[tag].close)
                return True
        def op_exit(tag, exc):
            if tag not in holder:
                return
            w = holder[tag]
            try:
                def body():
                    with w as x:
                        if x is not w:
                            violation("a with block gives something else than the watcher")
                        if handle(tag) and not n.w[handle(tag)]["closed"]:
                            send(handle(tag))
                        if exc:
                            raise UserError()
                guarded("the end of a with block", body)
                if exc:
                    violation("an exception does not leave the with block")
            except UserError:
                if not exc:
                    raise
            del w
            if handle(tag) and not n.w[handle(tag)]["closed"]:
                violation("the end of a with block does not close the watcher")
            return True
        def op_del(tag):
            if tag in holder:
                del holder[tag]
                gc.collect()
                if not cyc and not n.w[handle(tag)]["closed"]:
                    violation("the watcher is gone, but not closed")
                return True
        def op_send(tag, r):
            h = handle(tag)
            if h is None or n.w[h]["closed"]:
                return
            raising[0] = r
            send(h)
            raising[0] = False
            return True
        make_watch("a")
        ops = [lambda: op_send("a", False), lambda: op_send("a", True), lambda: op_close("a"), lambda: op_exit("a", False), lambda: op_exit("a", True), lambda: op_del("a"), lambda: "b" not in handle_tag and not refuse and (make_watch("b") or True), lambda: op_send("b", False), lambda: op_close("b"), lambda: op_del("b")]
        for _ in range(depth):
            o = pick(len(ops) + 1, "op")
            if o == len(ops):
                break
            if not ops[o]():
                return   # not possible here
            state(o, [(n.w[h]["closed"], n.w[h]["sent"]) for h in n.w], sorted(holder), refuse, result, early, late, cyc)
        holder.clear(); gc.collect()
        for h, w in n.w.items():
            if not w["closed"]:
                violation("the watcher is gone, but the native one is not closed")
        if refuse and n.w:
            violation("opened all the same")
        check_unraisable()
        for tag in ("a", "b"):
            g = [e for t, e in got if t == tag]; s = [e for t, e in want if t == tag]
            if len(g) != len(s):
                violation(f"{len(s)} events were sent, {len(g)} arrived: {g!r}")
            for x, y in zip(g, s):
                same(x, y)
        X.outcome = [(t, e[0]) for t, e in want]
    return run

def threads():
    """Two threads which open, close, drop; and a native thread delivering events meanwhile."""
    n = native(); sys.unraisablehook = _hook
    what = pick(5, "what")
    got = []
    s = Sched()
    n.sched = s
    sent = []
    def on_close(h):
        sent.append(h); n.emit(h, len(sent), b"/w/late", None, 3, 4)
        return True
    n.on_close = on_close
    if what == 0:     # the first two watchers of the program
        def opener():
            w = watcher.Watch("/w", got.append)
            w.close()
        s.spawn("A", opener); s.spawn("B", opener)
    else:
        w = watcher.Watch("/w", got.append)
        ref = [w]; del w
        def closer():
            ref[0].close()
        def exiter():
            with ref[0]:
                pass
        def sender():
            for h in list(n.w):
                if not n.w[h].get("over"):
                    sent.append(h); n.emit(h, len(sent), b"/w/f", None, 2, 1)
        s.spawn("A", closer)
        s.spawn("B", [closer, exiter, sender, closer][what - 1])
        if what == 4:
            s.spawn("C", sender)
    s.run()
    n.sched = None
    if what:
        ref.clear()
    gc.collect()
    if len(n.w) != (2 if what == 0 else 1):
        violation(f"{len(n.w)} native watchers")
    for h, x in n.w.items():
        if x["closed"] != 1:
            violation(f"the native watcher was closed {x['closed']} times")
    check_unraisable()
    if len(got) != len(sent):
        violation(f"{len(sent)} events were sent, {len(got)} arrived")
    if [e.effect_time for e in got] != sorted(e.effect_time for e in got):
        violation("events arrive out of order")
    state(what, len(got), [c for _, c, _ in X.made])

PROGRAM = r'''
import sys, os, threading, time, atexit
sys.path.insert(0, os.environ["PYW_DIR"])
import watcher
how, where, count, ending = [int(x) for x in sys.argv[1:5]]
def cb(e):
    os.write(1, ("E %s\n" % e.path_name).encode())
def make():
    if how == 1:
        box = []
        def cb2(e):
            cb(e); len(box)
        box.append(watcher.Watch("/w%d" % len(KEEP), cb2)); return box[0]
    return watcher.Watch("/w%d" % len(KEEP), cb)
KEEP = []
for _ in range(count):
    KEEP.append(make())
if how == 2 and KEEP:
    KEEP[0].close()
if how == 3 and KEEP:
    KEEP[0].__enter__()
if where == 1:
    sys.modules["kept"] = KEEP
    KEEP = None
elif where == 2:
    import builtins
    builtins.kept = KEEP
    KEEP = None
elif where == 3:
    def hold(k):
        while True: time.sleep(1000)
    threading.Thread(target=hold, args=(KEEP,), daemon=True).start()
    KEEP = None
elif where == 4:
    atexit.register(lambda k: None, KEEP)
    KEEP = None
if ending == 1: sys.exit(3)
if ending == 2: raise ValueError("on purpose")
if ending == 3:
    t = threading.Thread(target=lambda: time.sleep(0.01)); t.start()
'''
def program(args, stdin=b"", env={}, expect=0):
    r, w = os.pipe(); os.set_inheritable(w, True)
    p = subprocess.Popen([sys.executable, "-B", *args], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, close_fds=False, env=dict(os.environ, MOCK_LOG=str(w), PYTHONDONTWRITEBYTECODE="1", **env))
    os.close(w)
    try:
        out, err = p.communicate(stdin, timeout=40)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        violation("the program does not end")
    log = b""
    while d := os.read(r, 1 << 16):
        log += d
    say(f"exit status {p.returncode}")
    for l in log.decode().split("\n"):
        say("log: " + l)
    if p.returncode != expect:
        violation(f"the program ended with {p.returncode}, not {expect}: {err.decode(errors='replace')[-600:]}")
    return out, err, log.decode().split("\n")[:-1]
def exits():
    """Programs which end without closing."""
    how, where, count, ending = pick(4, "watchers"), pick(5, "kept in"), pick(3, "number"), pick(4, "ending")
    out, err, log = program(["-c", PROGRAM, str(how), str(where), str(count), str(ending)], expect=[0, 3, 1, 0][ending])
    if log.count("open") != count or log.count("close-end") != count or "close-twice" in log or "close-unknown" in log:
        violation(f"{count} watchers were opened; the native library saw {log}")
    lines = out.decode().split("\n")[:-1]
    want = [f"E s/self/{x}@/w{i}" for i in range(count) for x in ("live", "die")]
    if sorted(lines) != sorted(want):
        violation(f"events given to the callback: {lines}; sent: {want}")
    if b"Exception ignored" in err or (b"Traceback" in err and ending != 2):
        violation(f"an exception nobody can catch: {err.decode(errors='replace')[-600:]}")
    X.events += len(lines); state(how, where, count, ending)
def unusable():
    """The library is missing, or the watcher cannot be opened: one exception, and nothing else."""
    k = pick(4, "what")
    env = dict(PYW_DIR=DIR + "-nolib") if k == 0 else {}
    args = ["'/w'", "'/unopenable'", "3", "'/w\\ud800'"][k] if k else "'/w'"
    prog = f"import sys,os\nsys.path.insert(0,os.environ['PYW_DIR'])\nimport watcher\ntry:\n  w=watcher.Watch({args},print)\nexcept Exception as e:\n  print('raised',type(e).__name__)\n"
    out, err, log = program(["-c", prog], env=env)
    if not out.startswith(b"raised"):
        violation(f"nothing is raised: {out!r} {err!r}")
    if err.strip():
        violation(f"an exception nobody can catch: {err.decode(errors='replace')[-600:]}")
    state(k)
def script():
    """Run as a program: one JSON text per line, until something is typed or the input ends."""
    k, t = pick(2, "input"), pick(3, "text encoding")
    env = dict(MOCK_NAMES="1", PYTHONPATH=DIR, **[{}, {"PYTHONIOENCODING": "ascii"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}][t])
    out, err, log = program([os.path.join(DIR, "watcher", "watcher.py"), "/w"], stdin=[b"\n", b""][k], env=env, expect=[0, 1][k])
    if k == 1 and b"EOFError" not in err:
        violation(f"the program failed: {err.decode(errors='replace')[-600:]}")
    names = [b"plain", b'quote"quote', b"back\\slash", b"new\nline", b"tab\t", b"\x01\x1f\x7f", b"\xff\xfe", b"\xc3\xa9\xe2\x82\xac", b"\xf0\x9f\x90\x8d", b"\xed\xa0\x80", b'{"a":1}', b"'", b"$", b"\xc3"]
    want = [(1, b"s/self/live@/w", None, 2, 4)] + [(10**18 + et * 100000 + pt * 10000 + i * 10 + a, names[i], names[(i + 3) % len(names)] if a else None, et, pt) for et in range(6) for pt in range(6) for i in range(len(names)) for a in range(2)] + [(2, b"s/self/die@/w", None, 3, 4)]
    lines = out.decode("utf-8", "surrogateescape").split("\n")[:-1]
    if b"Exception ignored" in err:
        violation(f"an event is lost: {err.decode(errors='replace')[-600:]}")
    if len(lines) != len(want):
        violation(f"{len(want)} events, {len(lines)} lines")
    enc = (lambda p: p.decode("utf-8", "surrogateescape")) if t != 2 else (lambda p: p.decode("ascii", "surrogateescape"))
    for l, wnt in zip(lines, want):
        if t == 2:   # names are decoded in the way of that environment
            j = json.loads(l)
            if j["effect_time"] != wnt[0]: violation(f"{l!r} is not {wnt!r}")
            continue
        same_json(l, wnt, enc)
    if log != ["open", "close-begin", "close-end"]:
        violation(f"the native library saw {log}")
    X.events += len(lines); state(k, t)

T = "--thorough" in sys.argv or any("thorough\": true" in open(a).read() for a in sys.argv[1:] if a.endswith(".json") and os.path.exists(a))
S = [("python-bytes", values("bytes"), 0, 0, 1), ("python-pairs", values("pairs"), 0, 0, 1), ("python-lengths", values("lengths"), 0, 0, 1), ("python-times", values("times"), 0, 0, 1), ("python-paths", paths, 0, 0, 1), ("python-histories", histories(4 if T else 3), 0, 0, 4, 400), ("python-threads", threads, 2, 3, 4), ("python-exits", exits, 0, 0, 3), ("python-unusable", unusable, 0, 0, 1), ("python-script", script, 0, 0, 1)]
if __name__ == "__main__":
    sys.exit(main(S, sys.argv[1:]))
