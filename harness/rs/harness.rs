//! Every sequence of choices of a scenario, one after another, of the real Rust wrapper over a native library of our
//! own which checks every call. Run under Miri, memory and data races are checked as well; run natively, freed memory
//! is overwritten and not used again within an execution.
use futures::task::ArcWake;
use futures::Stream;
use std::collections::VecDeque;
use std::ffi::{c_char, c_void, CStr, CString};
use std::fmt::Write as _;
use std::io::Write as _;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll};
use wtr_watcher::{EffectType, Event, PathType, Watch};

#[cfg(not(miri))]
mod graveyard {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::UnsafeCell;
    use std::sync::atomic::{AtomicBool, Ordering};
    pub struct Graves {
        lock: AtomicBool,
        dead: UnsafeCell<[(usize, usize, usize); N]>,
        n: UnsafeCell<usize>,
    }
    const N: usize = 1 << 17;
    unsafe impl Sync for Graves {}
    #[global_allocator]
    pub static A: Graves = Graves { lock: AtomicBool::new(false), dead: UnsafeCell::new([(0, 0, 0); N]), n: UnsafeCell::new(0) };
    impl Graves {
        fn with<R>(&self, f: impl FnOnce(&mut [(usize, usize, usize); N], &mut usize) -> R) -> R {
            while self.lock.swap(true, Ordering::Acquire) {
                std::hint::spin_loop()
            }
            let r = unsafe { f(&mut *self.dead.get(), &mut *self.n.get()) };
            self.lock.store(false, Ordering::Release);
            r
        }
        /// Everything that died since the last time is really given back, unless it was written to.
        pub fn bury(&self) -> bool {
            self.with(|d, n| {
                let mut ok = true;
                for &(p, s, a) in &d[..*n] {
                    unsafe {
                        ok &= std::slice::from_raw_parts(p as *const u8, s).iter().all(|&b| b == 0xDD);
                        System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(s, a));
                    }
                }
                *n = 0;
                ok
            })
        }
    }
    unsafe impl GlobalAlloc for Graves {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            std::ptr::write_bytes(p, 0xDD, l.size());
            self.with(|d, n| {
                if *n < N {
                    d[*n] = (p as usize, l.size(), l.align());
                    *n += 1;
                } // else: leaked
            })
        }
    }
}
#[cfg(miri)]
mod graveyard {
    pub struct Graves;
    pub static A: Graves = Graves;
    impl Graves {
        pub fn bury(&self) -> bool {
            true
        }
    }
}

// ---- the execution in progress

#[derive(Default)]
struct Ex {
    prefix: Vec<u32>,
    made: Vec<(u32, u32, u32)>,
    trace: Vec<String>,
    states: Vec<u64>,
    transitions: u64,
    events: u64,
    outcome: u64,
    used: u32,
    bound: u32,
    viol: Option<String>,
    thorough: bool,
    ndet: bool,
}
static EX: Mutex<Option<Ex>> = Mutex::new(None);
struct G(MutexGuard<'static, Option<Ex>>);
impl std::ops::Deref for G {
    type Target = Ex;
    fn deref(&self) -> &Ex {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for G {
    fn deref_mut(&mut self) -> &mut Ex {
        self.0.as_mut().unwrap()
    }
}
fn x() -> G {
    G(EX.lock().unwrap_or_else(|e| e.into_inner()))
}
fn pick(n: u32, label: &str, cost: u32) -> u32 {
    let mut e = x();
    let i = e.made.len();
    let n = if cost > 0 && e.used + cost > e.bound { 1 } else { n };
    let c = e.prefix.get(i).copied().unwrap_or(0);
    if c >= n {
        e.ndet = true;
        return 0;
    }
    if c > 0 {
        e.used += cost;
    }
    e.made.push((n, c, cost));
    if n > 1 && !cfg!(miri) {
        e.trace.push(format!("choice {label} = {c} of {n}"));
    }
    e.transitions += 1;
    c
}
/// Formatting is most of the cost under Miri, where the trace is done without.
macro_rules! say {
    ($($a:tt)*) => { if !cfg!(miri) { let m = format!($($a)*); x().trace.push(m) } };
}
fn num(o: &mut String, v: u64) {
    if v >= 10 {
        num(o, v / 10)
    }
    o.push((b'0' + (v % 10) as u8) as char)
}
fn nums(v: impl Iterator<Item = u64>) -> String {
    let mut o = String::from("[");
    for (i, k) in v.enumerate() {
        if i > 0 {
            o.push(',')
        }
        num(&mut o, k)
    }
    o.push(']');
    o
}
fn violation(m: String) {
    let mut e = x();
    e.trace.push(format!("!! {m}"));
    if e.viol.is_none() {
        e.viol = Some(m)
    }
}
fn hash(h: u64, s: &[u8]) -> u64 {
    s.iter().fold(h ^ 0xcbf29ce484222325, |h, &b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

// ---- the native library

#[derive(Clone, Debug, PartialEq)]
struct Ev {
    time: i64,
    path: Vec<u8>,
    assoc: Option<Vec<u8>>,
    effect: i8,
    kind: i8,
}
type Cb = unsafe extern "C" fn(wtr_watcher::wtr_watcher_event, *mut c_void);
struct Nat {
    handle: usize,
    cb: Option<Cb>,
    cx: Cx,
    open: bool,
    closes: u32,
    result: bool,
    sent: VecDeque<Ev>, // to be received
    last: Option<Ev>,
    worker: Option<Worker>,
}
#[derive(Default)]
struct Native {
    w: Vec<Nat>,
    opens: u32,
    paths: Vec<Vec<u8>>,
    next: i64,
    wakes: Vec<(usize, Arc<Bell>)>, // (watcher, who waits)
    refuse: bool,
    quiet: bool,
}
static NAT: Mutex<Option<Native>> = Mutex::new(None);
fn nat<R>(f: impl FnOnce(&mut Native) -> R) -> R {
    f(NAT.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap())
}
struct Bell(AtomicUsize);
impl ArcWake for Bell {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.fetch_add(1, Ordering::SeqCst);
    }
}
struct Cx(*mut c_void);
unsafe impl Send for Cx {}

type Job = Box<dyn FnOnce() + Send>;
struct Worker {
    todo: std::sync::mpsc::Sender<Job>,
    done: std::sync::mpsc::Receiver<()>,
    t: std::thread::JoinHandle<()>,
}
fn on_thread(i: usize, f: impl FnOnce() + Send + 'static) -> bool {
    let w = nat(|n| n.w[i].worker.take()).unwrap_or_else(|| {
        let (todo, jobs) = std::sync::mpsc::channel::<Job>();
        let (ack, done) = std::sync::mpsc::channel();
        let t = std::thread::spawn(move || {
            for j in jobs {
                j();
                let _ = ack.send(());
            }
        });
        Worker { todo, done, t }
    });
    let ok = w.todo.send(Box::new(f)).is_ok() && w.done.recv().is_ok();
    nat(|n| n.w[i].worker = Some(w));
    ok
}
fn end_thread(i: usize) {
    if let Some(w) = nat(|n| n.w[i].worker.take()) {
        drop(w.todo);
        let _ = w.t.join();
    }
}

/// On a thread of the library's own, as every event comes. The strings are gone afterwards.
fn emit(i: usize, e: Ev, during: &str) {
    let (cb, cx) = nat(|n| (n.w[i].cb, Cx(n.w[i].cx.0)));
    say!("native {i}: event {} {during}", e.time);
    let bell = nat(|n| {
        n.w[i].sent.push_back(e.clone());
        n.w[i].last = Some(e.clone());
        let at = n.wakes.iter().position(|b| b.0 == i);
        at.map(|k| n.wakes.remove(k).1)
    });
    let Some(cb) = cb else {
        return violation("no callback was given".into());
    };
    x().events += 1;
    let r = on_thread(i, move || {
        let cx = cx;
        let p = CString::new(e.path).unwrap();
        let a = e.assoc.map(|a| CString::new(a).unwrap());
        let ev = wtr_watcher::wtr_watcher_event {
            effect_time: e.time,
            path_name: p.as_ptr(),
            associated_path_name: a.as_ref().map_or(std::ptr::null(), |a| a.as_ptr()),
            effect_type: e.effect as _,
            path_type: e.kind as _,
        };
        unsafe { cb(ev, cx.0) };
    });
    if !r {
        violation("the callback did not come back".into())
    }
    if let Some(b) = bell {
        if b.0.load(Ordering::SeqCst) == 0 {
            violation("an event came, but whoever waits for the stream was not woken".into())
        }
    }
}
fn fresh(i: usize) -> Ev {
    nat(|n| {
        n.next += 1;
        let t = n.next;
        let path = |s: &str| {
            let mut p = String::from("/t/");
            num(&mut p, i as u64);
            p.push_str(s);
            num(&mut p, t as u64);
            p.into_bytes()
        };
        Ev { time: t, path: path("/"), assoc: (t % 3 == 0).then(|| path("/to")), effect: (t % 6) as i8, kind: (t / 2 % 6) as i8 }
    })
}

#[no_mangle]
pub unsafe extern "C" fn wtr_watcher_open(path: *const c_char, cb: Option<Cb>, cx: *mut c_void) -> *mut c_void {
    let p = CStr::from_ptr(path).to_bytes().to_vec();
    say!("open {:?}", String::from_utf8_lossy(&p));
    let (refuse, quiet) = nat(|n| {
        n.opens += 1;
        n.paths.push(p);
        (n.refuse, n.quiet)
    });
    if refuse || pick(2, "open fails", 1) == 1 {
        return std::ptr::null_mut();
    }
    let i = nat(|n| {
        let i = n.w.len();
        n.w.push(Nat { handle: 0x1000 + 16 * i, cb, cx: Cx(cx), open: true, closes: 0, result: true, sent: VecDeque::new(), last: None, worker: None });
        i
    });
    if !quiet {
        for _ in 0..pick(3, "events during open", 0) {
            emit(i, fresh(i), "during open")
        }
    }
    nat(|n| n.w[i].handle) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn wtr_watcher_close(h: *mut c_void) -> bool {
    say!("close {:#x}", h as usize);
    let Some(i) = nat(|n| n.w.iter().position(|w| w.handle == h as usize)) else {
        violation(format!("wtr_watcher_close() was called with {h:?}, which wtr_watcher_open() never gave"));
        return false;
    };
    let quiet = nat(|n| n.quiet);
    if nat(|n| {
        n.w[i].closes += 1;
        n.w[i].closes
    }) > 1
    {
        violation(format!("watcher {i} was closed a second time: it is freed memory by now"));
        return false;
    }
    if !quiet {
        for _ in 0..pick(2, "events during close", 0) {
            emit(i, fresh(i), "during close")
        }
    }
    end_thread(i);
    let ok = pick(2, "close fails", 1) == 0;
    nat(|n| {
        n.w[i].open = false;
        n.w[i].result = ok;
        n.wakes.retain(|b| b.0 != i);
    });
    ok
}

// ---- comparing

fn effect_of(c: i8) -> &'static str {
    ["rename", "modify", "create", "destroy", "owner", "other"].get(c as usize).copied().unwrap_or("other")
}
fn kind_of(c: i8) -> &'static str {
    ["dir", "file", "hard_link", "sym_link", "watcher", "other"].get(c as usize).copied().unwrap_or("other")
}
fn name_effect(e: &EffectType) -> &'static str {
    match e {
        EffectType::Rename => "rename",
        EffectType::Modify => "modify",
        EffectType::Create => "create",
        EffectType::Destroy => "destroy",
        EffectType::Owner => "owner",
        EffectType::Other => "other",
    }
}
fn name_kind(e: &PathType) -> &'static str {
    match e {
        PathType::Dir => "dir",
        PathType::File => "file",
        PathType::HardLink => "hard_link",
        PathType::SymLink => "sym_link",
        PathType::Watcher => "watcher",
        PathType::Other => "other",
    }
}
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn differs(g: &Event, w: &Ev) -> Option<String> {
    let mut d = String::new();
    if g.effect_time != w.time {
        write!(d, " time {} is not {}", g.effect_time, w.time).unwrap()
    }
    if g.path_name != text(&w.path) {
        write!(d, " path {:?} is not {:?}", g.path_name, w.path.escape_ascii().to_string()).unwrap()
    }
    if g.associated_path_name != w.assoc.as_deref().map(text) {
        write!(d, " associated path {:?} is not {:?}", g.associated_path_name, w.assoc.as_ref().map(|a| a.escape_ascii().to_string())).unwrap()
    }
    if name_effect(&g.effect_type) != effect_of(w.effect) {
        write!(d, " effect {:?} is not {}", g.effect_type, w.effect).unwrap()
    }
    if name_kind(&g.path_type) != kind_of(w.kind) {
        write!(d, " type {:?} is not {}", g.path_type, w.kind).unwrap()
    }
    (!d.is_empty()).then_some(d)
}
fn json_differs(g: &Event, w: &Ev) -> Option<String> {
    let s = match serde_json::to_string(g) {
        Ok(s) => s,
        Err(e) => return Some(format!("no JSON text: {e}")),
    };
    if s.contains('\n') {
        return Some("its JSON text has more than one line".into());
    }
    let v: serde_json::Value = match serde_json::from_str(&s) {
        Ok(v) => v,
        Err(e) => return Some(format!("its JSON text {s} cannot be read: {e}")),
    };
    let want = serde_json::json!({"effect_time": w.time, "path_name": text(&w.path), "associated_path_name": w.assoc.as_deref().map(text), "effect_type": effect_of(w.effect), "path_type": kind_of(w.kind)});
    if v != want {
        return Some(format!("its JSON text is {s}"));
    }
    match serde_json::from_str::<Event>(&s) {
        Ok(b) => differs(&b, w).map(|d| format!("read back from JSON:{d}")),
        Err(e) => Some(format!("its JSON text {s} cannot be read back: {e}")),
    }
}

// ---- the program's side

struct Held {
    w: Option<Box<Watch>>,
    i: usize, // which native watcher
    closed: bool,
}
fn next(h: &mut Held, wait: bool) -> bool {
    let bell = Arc::new(Bell(AtomicUsize::new(0)));
    let wk = futures::task::waker(bell.clone());
    let mut cx = Context::from_waker(&wk);
    let w = h.w.as_mut().unwrap();
    let r = Pin::new(&mut **w).poll_next(&mut cx);
    let i = h.i;
    let want = nat(|n| {
        n.wakes.retain(|b| b.0 != i);
        n.w[i].sent.pop_front()
    });
    match (r, want) {
        (Poll::Ready(Some(g)), Some(e)) => {
            say!("got {}", g.effect_time);
            let d = differs(&g, &e).or_else(|| differs(&g.clone(), &e));
            if let Some(d) = d {
                violation(format!("an event differs from the native one:{d}"))
            }
            true
        }
        (Poll::Ready(Some(g)), None) => {
            violation(format!("an event came which was never there, or came already: {g:?}"));
            false
        }
        (Poll::Pending, Some(e)) => {
            violation(format!("event {} (\"{}\") is not in the stream", e.time, e.path.escape_ascii()));
            false
        }
        (Poll::Ready(None), Some(e)) => {
            violation(format!("the stream ended before event {}", e.time));
            false
        }
        (Poll::Ready(None), None) => {
            if !h.closed {
                violation("the stream ended, although the watcher is open".into())
            }
            false
        }
        (Poll::Pending, None) => {
            if wait && !h.closed {
                nat(|n| n.wakes.push((i, bell)));
            }
            false
        }
    }
}
fn open(path: &str) -> Option<Held> {
    let before = nat(|n| (n.w.len(), n.opens));
    let r = Watch::try_new(path);
    let after = nat(|n| (n.w.len(), n.opens));
    if after.1 != before.1 + 1 {
        violation(format!("wtr_watcher_open() was called {} times", after.1 - before.1))
    }
    match (r, after.0 > before.0) {
        (Ok(w), true) => Some(Held { w: Some(Box::new(w)), i: before.0, closed: false }),
        (Err(_), false) => None,
        (Ok(_), false) => {
            violation("the watcher could not be opened, but no error was given".into());
            None
        }
        (Err(e), true) => {
            violation(format!("the watcher was opened, but the error {e} was given"));
            None
        }
    }
}
fn close(h: &mut Held) {
    let r = h.w.as_mut().unwrap().close();
    if !h.closed {
        let (n, ok) = nat(|n| (n.w[h.i].closes, n.w[h.i].result));
        if n != 1 {
            violation("close() did not close the native watcher".into())
        } else if r.is_ok() != ok {
            violation(format!("close() gave {r:?}, but the native close gave {ok}"))
        }
    }
    h.closed = true;
}
fn finish(mut hs: Vec<Held>) {
    for h in hs.iter_mut() {
        while h.w.is_some() && next(h, false) {}
    }
    nat(|n| n.wakes.clear());
    drop(hs);
    for (i, w) in nat(|n| n.w.iter().map(|w| (w.closes, w.open)).collect::<Vec<_>>()).iter().enumerate() {
        if w.0 != 1 {
            violation(format!("watcher {i} was closed {} times when all was over", w.0))
        }
    }
}
fn mark(hs: &[Held]) {
    let mut s = Vec::new();
    for h in hs {
        let q = nat(|n| (n.w[h.i].sent.len(), n.w[h.i].closes, n.wakes.iter().any(|b| b.0 == h.i)));
        s.extend([h.w.is_some() as u8, h.closed as u8, q.0 as u8, q.1 as u8, q.2 as u8]);
    }
    let v = hash(0, &s);
    let mut e = x();
    e.states.push(v);
    e.outcome = hash(e.outcome, &s);
}

fn session(watches: usize, depth: usize) {
    let mut hs: Vec<Held> = Vec::new();
    if let Some(h) = open("/w0") {
        hs.push(h)
    }
    let mut opens = 1;
    for _ in 0..depth {
        mark(&hs);
        // moved in memory between any two steps
        for h in hs.iter_mut() {
            if let Some(w) = h.w.take() {
                let v = *w;
                h.w = Some(Box::new(v))
            }
        }
        let mut ops: Vec<(u32, usize)> = vec![(0, 0)];
        for (k, h) in hs.iter().enumerate() {
            if nat(|n| n.w[h.i].open) {
                ops.push((1, k));
                if !cfg!(miri) && nat(|n| n.w[h.i].last.is_some()) {
                    ops.push((6, k));
                    ops.push((7, k))
                }
            }
            if h.w.is_some() {
                ops.push((2, k));
                if nat(|n| n.w[h.i].closes) < 2 {
                    ops.push((3, k))
                }
                ops.push((4, k))
            }
        }
        if opens < watches {
            ops.push((5, 0))
        }
        let (op, k) = ops[pick(ops.len() as u32, "step", 0) as usize];
        match op {
            0 => break,
            1 => {
                let i = hs[k].i;
                emit(i, fresh(i), "")
            }
            6 => {
                // the same once more
                let i = hs[k].i;
                let e = nat(|n| n.w[i].last.clone()).unwrap();
                emit(i, e, "(again)")
            }
            7 => {
                // at the same time, or earlier
                let i = hs[k].i;
                let mut e = fresh(i);
                e.time = nat(|n| n.w[i].last.as_ref().unwrap().time) - 1 + hs.len() as i64 % 2;
                emit(i, e, "(not later)")
            }
            2 => {
                next(&mut hs[k], true);
            }
            3 => close(&mut hs[k]),
            4 => {
                let i = hs[k].i;
                nat(|n| n.wakes.retain(|b| b.0 != i));
                hs[k].w = None;
                nat(|n| n.w[i].sent.clear())
            }
            _ => {
                let p = format!("/w{opens}");
                opens += 1;
                if let Some(h) = open(&p) {
                    hs.push(h)
                }
            }
        }
        if x().viol.is_some() {
            break;
        }
    }
    finish(hs)
}

const PIECES: &[&[u8]] = &[b"", b"a", b"\"", b"\\", b"\n", b"\x01", b"\x1f", b"\x7f", b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"/", b" ", b"\xc0\xaf", b"'", b"{}", b"\xef\xbf\xbd", b"\xe2\x80\xa8"];
const TIMES: &[i64] = &[0, 1, -1, i64::MAX, i64::MIN, 1 << 53, (1 << 53) + 1, 1_700_000_000_123_456_789];
fn one(e: Ev) {
    let w = e.clone();
    let mut h = open("/v").unwrap();
    emit(h.i, e, "");
    // and the way to the program's JSON, on a copy taken from the stream
    let wk = futures::task::noop_waker();
    match Pin::new(&mut **h.w.as_mut().unwrap()).poll_next(&mut Context::from_waker(&wk)) {
        Poll::Ready(Some(g)) => {
            if let Some(d) = differs(&g, &w).or_else(|| json_differs(&g, &w)) {
                violation(format!("an event differs from the native one: {d}"))
            }
        }
        _ => violation("the event is not in the stream".into()),
    }
    nat(|n| n.w[h.i].sent.clear());
    let o = format!("{w:?}");
    let mut g = x();
    g.outcome = hash(0, o.as_bytes());
    let v = g.outcome;
    g.states.push(v);
    drop(g);
    finish(vec![h])
}
fn values() {
    nat(|n| n.quiet = true);
    x().bound = 0;
    let t = |b: u8| vec![b'/', b, b'x'];
    match pick(5, "what", 0) {
        0 => {
            let (e, k, a) = (pick(8, "effect", 0) as i8 - 1, pick(8, "type", 0) as i8 - 1, pick(2, "associated", 0));
            one(Ev { time: 5, path: b"/a".to_vec(), assoc: (a == 1).then(|| b"/b".to_vec()), effect: e, kind: k })
        }
        1 => {
            let b = pick(255, "byte", 0) as u8 + 1;
            let a = pick(3, "where", 0);
            one(Ev { time: 5, path: if a != 1 { t(b) } else { b"/p".to_vec() }, assoc: (a != 0).then(|| t(b)), effect: 0, kind: 1 })
        }
        2 => {
            let n = if x().thorough { 3 } else { 2 };
            let mut p = Vec::new();
            for i in 0..n {
                p.extend_from_slice(PIECES[pick(PIECES.len() as u32, ["1st", "2nd", "3rd"][i], 0) as usize])
            }
            let a = pick(2, "where", 0);
            one(Ev { time: 5, path: if a == 0 { p.clone() } else { b"/p".to_vec() }, assoc: (a == 1).then_some(p), effect: 1, kind: 0 })
        }
        3 => one(Ev { time: TIMES[pick(TIMES.len() as u32, "time", 0) as usize], path: b"/a".to_vec(), assoc: None, effect: 2, kind: 4 }),
        _ => {
            let l = [1usize, 2, 15, 16, 22, 23, 24, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 70000][pick(16, "length", 0) as usize];
            let a = pick(2, "where", 0);
            let p = vec![b'l'; l];
            one(Ev { time: 5, path: if a == 0 { p.clone() } else { b"/p".to_vec() }, assoc: (a == 1).then_some(p), effect: 1, kind: 0 })
        }
    }
}
fn paths() {
    nat(|n| n.quiet = true);
    let mut p = String::new();
    let n = if x().thorough { 4 } else { 3 };
    for _ in 0..n {
        p.push_str(["", "a", "/", "\0", "é", "😀", " ", "\n"][pick(8, "piece", 0) as usize])
    }
    let k = pick(2, "long", 0);
    if k == 1 {
        p.push_str(&"x".repeat(5000))
    }
    nat(|n| n.refuse = false);
    if p.contains('\0') {
        let r = Watch::try_new(&p);
        let opens = nat(|n| n.opens);
        if r.is_ok() || opens != 0 {
            violation(format!("a path with a NUL byte was taken: {p:?}"))
        }
    } else {
        let h = open(&p);
        if nat(|n| n.paths.last().map(|v| v != p.as_bytes())).unwrap_or(true) {
            violation(format!("the path {p:?} did not arrive"))
        }
        finish(h.into_iter().collect())
    }
    let mut g = x();
    let v = hash(0, p.as_bytes());
    g.states.push(v);
    g.outcome = v;
}

/// More events than any channel of fixed size holds, before anyone looks.
fn many() {
    nat(|n| n.quiet = true);
    x().bound = 0;
    let n = [1u32, 2, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 2000][pick(19, "how many", 0) as usize];
    let read = pick(3, "read", 0); // at the end, after close, some in between
    let mut h = open("/m").unwrap();
    for k in 0..n {
        emit(h.i, fresh(h.i), "");
        if read == 2 && k % 3 == 0 {
            next(&mut h, true);
        }
    }
    if read == 1 {
        close(&mut h)
    }
    let mut g = x();
    let v = hash(read as u64, &n.to_le_bytes());
    g.states.push(v);
    g.outcome = v;
    drop(g);
    finish(vec![h])
}

fn run(name: &str) {
    match name {
        "session" => session(1, if x().thorough { 9 } else { 7 }),
        "two" => session(2, if x().thorough { 6 } else { 4 }),
        "three" => session(3, if x().thorough { 5 } else { 3 }),
        "miri-session" => session(1, if x().thorough { 5 } else { 3 }),
        "miri-two" => session(2, if x().thorough { 3 } else { 1 }),
        "values" | "miri-values" => values(),
        "paths" => paths(),
        "many" => many(),
        _ => panic!("no such scenario"),
    }
}

fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn put(s: &str) {
    let mut o = std::io::stdout().lock();
    o.write_all(s.as_bytes()).unwrap();
    o.flush().unwrap();
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    // scenario bound thorough batch prefix,prefix,...
    let (name, bound, thorough, batch) = (a[1].clone(), a[2].parse::<u32>().unwrap(), a[3] == "1", a[4].parse::<u32>().unwrap());
    let first: Vec<u32> = a.get(5).map_or(vec![], |s| s.split(',').filter(|v| !v.is_empty()).map(|v| v.parse().unwrap()).collect());
    let mut stack = vec![first];
    let mut k = 0;
    std::panic::set_hook(Box::new(|_| {}));
    while let Some(pre) = stack.pop() {
        if k == batch {
            stack.push(pre);
            break;
        }
        k += 1;
        put(&["{\"next\":", &nums(pre.iter().map(|&v| v as u64)), "}\n"].concat());
        *EX.lock().unwrap_or_else(|e| e.into_inner()) = Some(Ex { prefix: pre.clone(), bound, thorough, ..Default::default() });
        *NAT.lock().unwrap_or_else(|e| e.into_inner()) = Some(Native::default());
        let r = std::panic::catch_unwind(|| run(&name));
        if let Err(p) = r {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            violation(format!("the wrapper panicked: {m}"))
        }
        for i in 0..nat(|n| n.w.len()) {
            end_thread(i)
        }
        drop(NAT.lock().unwrap_or_else(|e| e.into_inner()).take());
        if !graveyard::A.bury() {
            violation("freed memory was written to".into())
        }
        let e = EX.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
        if e.ndet {
            eprintln!("not deterministic");
            std::process::exit(70);
        }
        for i in pre.len()..e.made.len() {
            let (n, c, _) = e.made[i];
            for alt in (c + 1..n).rev() {
                let mut v: Vec<u32> = e.made[..i].iter().map(|m| m.1).collect();
                v.push(alt);
                stack.push(v)
            }
        }
        let stop = stack.is_empty() || k == batch || e.viol.is_some();
        let mut o = String::from("{\"choices\":[");
        for (i, m) in e.made.iter().enumerate() {
            if i > 0 {
                o.push(',')
            }
            o.push_str(&nums([m.0, m.1, m.2].iter().map(|&v| v as u64)))
        }
        o.push_str("],\"violation\":");
        o.push_str(&e.viol.as_ref().map_or("null".into(), |v| js(v)));
        o.push_str(",\"trace\":[");
        if e.viol.is_some() || pre.len() < 2 {
            let t = &e.trace[e.trace.len().saturating_sub(if e.viol.is_some() { 400 } else { 60 })..];
            o.push_str(&t.iter().map(|l| js(l)).collect::<Vec<_>>().join(","))
        }
        let mut st = e.states.clone();
        st.sort();
        st.dedup();
        o.push_str("],\"states\":");
        o.push_str(&nums(st.into_iter()));
        for (k, v) in [("transitions", e.transitions), ("outcome", e.outcome), ("events", e.events)] {
            o.push_str(",\"");
            o.push_str(k);
            o.push_str("\":");
            num(&mut o, v)
        }
        o.push_str(",\"left\":");
        if stop {
            o.push('[');
            for (i, p) in stack.iter().enumerate() {
                if i > 0 {
                    o.push(',')
                }
                o.push_str(&nums(p.iter().map(|&v| v as u64)))
            }
            o.push(']')
        } else {
            o.push_str("null")
        }
        o.push_str("}\n");
        put(&o);
        if stop {
            return;
        }
    }
}
