"""The Rust wrapper: a scratch crate made of /repo's sources, bindings derived from /repo's C header, and a native
library of our own inside of the harness."""
import json, os, re, shutil, subprocess, tomllib

HARNESS = ["rs/harness.rs", "rs/build.rs", "rs_watch.py", "py_explore.py", "rs_prog_mock.c"]
CT = {"int64_t": "i64", "int8_t": "i8", "uint8_t": "u8", "int32_t": "i32", "uint32_t": "u32", "int": "i32", "char const*": "*const ::std::os::raw::c_char", "const char*": "*const ::std::os::raw::c_char"}


def bindings(c):
    """What bindgen makes of the header (which is not there without a network)."""
    src = os.path.join(c.REPO, "watcher-c/include/wtr/watcher-c.h")
    t = c.need(["gcc", "-E", "-P", src], "the C header")
    t = re.sub(r"\s+", " ", t)
    o = []
    consts = re.findall(r"static const (\w+) (WTR_WATCHER_\w+) = (-?\w+) ?;", t) or []
    if len(consts) < 12:
        raise c.CheckError("the constants of the C header were not understood")
    for ty, n, v in consts:
        o.append(f"pub const {n}: {CT[ty]} = {int(v, 0)};")
    m = re.search(r"struct wtr_watcher_event \{(.*?)\}", t)
    o.append("#[repr(C)]\n#[derive(Debug, Copy, Clone)]\npub struct wtr_watcher_event {")
    for f in m[1].split(";"):
        f = f.strip()
        if f:
            ty, n = re.match(r"(.*[ *])(\w+)$", f).groups()
            o.append(f"    pub {n}: {CT[re.sub(r' +[*]', '*', ty.strip())]},")
    o.append("}")
    o.append("pub type wtr_watcher_callback = ::std::option::Option<unsafe extern \"C\" fn(event: wtr_watcher_event, context: *mut ::std::os::raw::c_void)>;")
    o.append("extern \"C\" {\n    pub fn wtr_watcher_open(path: *const ::std::os::raw::c_char, callback: wtr_watcher_callback, context: *mut ::std::os::raw::c_void) -> *mut ::std::os::raw::c_void;\n    pub fn wtr_watcher_close(watcher: *mut ::std::os::raw::c_void) -> bool;\n}")
    return "\n".join(o) + "\n"


def manifest(c, lib, prog, harness):
    with open(os.path.join(c.REPO, "Cargo.toml"), "rb") as f:
        m = tomllib.load(f)

    def val(v):
        if isinstance(v, dict):
            return "{ " + ", ".join(f"{k} = {val(x)}" for k, x in v.items()) + " }"
        return json.dumps(v)
    o = ["[package]", 'name = "wtr-watcher"', 'version = "0.0.0"', f'edition = {json.dumps(m["package"].get("edition", "2021"))}', 'build = "build.rs"', "[lib]", 'name = "wtr_watcher"', f"path = {json.dumps(lib)}",
         "[[bin]]", 'name = "wtr-watcher"', f"path = {json.dumps(prog)}", "[[bin]]", 'name = "harness"', f"path = {json.dumps(harness)}", "[features]"]
    o += [f"{k} = {val(v)}" for k, v in m.get("features", {}).items()]
    o.append("[dependencies]")
    o += [f"{k} = {val(v)}" for k, v in m.get("dependencies", {}).items()]
    o += ["[profile.dev]", "opt-level = 1", "debug-assertions = true", "[workspace]"]
    return "\n".join(o) + "\n"


def programs(c, job):
    src = os.path.join(c.REPO, "watcher-rs/src")
    files = sorted(os.path.join(p, f) for p, _, fs in os.walk(src) for f in fs)
    b = bindings(c)
    h = c.digest(*[c.readf(f) for f in files], c.readf(os.path.join(c.REPO, "Cargo.toml")), b, *[c.readf(os.path.join(c.V, "harness", n)) for n in HARNESS])
    d = os.path.join(c.B, "rs")
    done = os.path.join(d, h)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(d, "target"))
    os.makedirs(d, exist_ok=True)
    crate = os.path.join(d, "crate")
    if not os.path.exists(done + "/ok"):
        shutil.rmtree(done, ignore_errors=True)
        shutil.rmtree(crate, ignore_errors=True)
        os.makedirs(done)
        shutil.copytree(src, crate + "/src")
        shutil.copy(os.path.join(c.V, "harness/rs/harness.rs"), crate + "/src/harness_.rs")
        shutil.copy(os.path.join(c.V, "harness/rs/build.rs"), crate + "/build.rs")
        shutil.copy("/opt/veriftools/crates.Cargo.lock", crate + "/Cargo.lock")
        with open(crate + "/watcher_c.rs", "w") as f:
            f.write(b)
        with open(crate + "/Cargo.toml", "w") as f:
            f.write(manifest(c, "src/lib.rs", "src/main.rs", "src/harness_.rs"))
        c.need(["cargo", "build", "--offline", "-q", "--bin", "harness"], "building the Rust wrapper and its harness", cwd=crate, env=env)
        shutil.copy(d + "/target/debug/harness", done + "/harness")
        mock = os.path.join(done, "mock.o")
        c.need(["gcc", "-O1", "-g", "-c", f"-I{c.REPO}/watcher-c/include", os.path.join(c.V, "harness/rs_prog_mock.c"), "-o", mock], "building the native stand-in")
        c.need(["cargo", "rustc", "--offline", "-q", "--bin", "wtr-watcher", "--", "-C", f"link-arg={mock}"], "building the Rust program", cwd=crate, env=env)
        shutil.copy(d + "/target/debug/wtr-watcher", done + "/prog")
        open(done + "/ok", "w").close()
    miri = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", crate + "/Cargo.toml", "--bin", "harness", "--"]
    menv = dict(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(d, "miri"), MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows")
    if job.get("miri"):
        r = subprocess.run(miri + ["miri-session", "0", "0", "0"], env=dict(os.environ, **menv), cwd=crate, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("  (Miri cannot be used here: " + r.stdout[-300:].replace("\n", " ") + ")")
            return []
        return [("watcher-rs under Miri", ["python3", os.path.join(c.V, "harness/rs_watch.py")], dict(RSW_MIRI=json.dumps(miri), RSW_DIR=crate, **menv))]
    tmp = os.path.join(d, "tmp")
    os.makedirs(tmp, exist_ok=True)
    e = dict(RSW_EXE=done + "/harness", RSW_PROG=done + "/prog", RSW_TMP=tmp, RSW_DIR=crate)
    return [("watcher-rs", ["python3", os.path.join(c.V, "harness/rs_watch.py")], e)]
