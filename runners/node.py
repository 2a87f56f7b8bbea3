"""The Node.js package in the real Node.js: /repo's addon and TypeScript, and a native library of our own."""
import os, shutil
NEEDS = ["node_watch.mjs", "node_mock.cpp"]


def programs(c, job):
    src = os.path.join(c.REPO, "watcher-nodejs/lib")
    files = [os.path.join(src, f) for f in ("watcher.ts", "watcher-napi.cpp")] + [os.path.join(c.REPO, "watcher-c/include/wtr/watcher-c.h")]
    h = c.digest(*[c.readf(f) for f in files], *[c.readf(os.path.join(c.V, "harness", n)) for n in NEEDS], c.readf(__file__))
    d = os.path.join(c.B, "node", h)
    if not os.path.exists(d):
        tmp = d + f".tmp{os.getpid()}"
        os.makedirs(tmp + "/lib")
        os.makedirs(tmp + "/build/Release")
        shutil.copy(files[0], tmp + "/lib")
        open(tmp + "/package.json", "w").write('{"type":"module"}')
        g = ["g++", "-std=c++17", "-O1", "-g", "-shared", "-fPIC", "-I/usr/include/node", "-I" + os.path.join(c.REPO, "watcher-c/include")]
        m = os.path.join(c.V, "harness/node_mock.cpp")
        c.need([*g, m, "-o", tmp + "/libmock.so", "-lpthread"], "building the native stand-in")
        c.need([*g, "-DCONTROL", m, "-o", tmp + "/mock.node", "-L" + tmp, "-lmock", "-Wl,-rpath,$ORIGIN"], "building the control of the stand-in")
        c.need([*g, "-DNODE_GYP_MODULE_NAME=watcher_napi", files[1], "-o", tmp + "/build/Release/watcher-napi.node", "-L" + tmp, "-lmock", "-Wl,-rpath,$ORIGIN/../.."], "the code under test does not compile")
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp)
    return [("watcher-nodejs", ["node", "--experimental-transform-types", "--no-warnings", "--force-node-api-uncaught-exceptions-policy=true", os.path.join(c.V, "harness/node_watch.mjs")], dict(NODEW_DIR=d))]
