"""Which harnesses decide which property, with what share of time (quick, thorough)."""
CORE = "h_core"
CAPI = ["watcher-c/src/watcher-c.cpp"]


def core(flavour, quick, thorough, **kw):
    return dict(harness=CORE, flavour=flavour, budget=(quick, thorough), **kw)


def multi(flavour, quick, thorough, **kw):
    return dict(harness="h_multi", flavour=flavour, budget=(quick, thorough), **kw)


def mixed(plain, asan):
    """The full bounds without sanitizers, and one deviation (two when thorough) with them."""
    return [core("plain", *plain), core("asan", *asan, bound=(1, 2))]


def napi(flavour, quick, thorough, **kw):
    return dict(harness="h_napi", flavour=flavour, budget=(quick, thorough), srcs=["watcher-nodejs/lib/watcher-napi.cpp"], flags=["-I/usr/include/node", "-DNODE_GYP_MODULE_NAME=watcher_napi"], trees=False, **kw)


PLAN = {
    "C01": [core("plain", 100, 600)],
    "C02": mixed((100, 900), (30, 600)) + [core("race", 40, 900, scenario="inotify.*", bound=(1, 3)), multi("plain", 20, 100)],
    "C03": [core("plain", 250, 3000)],
    "C04": [core("plain", 200, 3000)],
    "C05": [core("plain", 250, 3000)],
    "C06": [core("plain", 300, 3000)],
    "C07": [core("plain", 250, 3000)],
    "C08": mixed((150, 1500), (100, 900)),
    "C09": mixed((150, 1500), (60, 900)) + [multi("plain", 30, 100)],
    "C10": [core("plain", 250, 1500), core("plain", 40, 400, flags=["-DNO_FAN", "-D__ANDROID_API__=24"]), core("plain", 40, 400, flags=["-DNO_FAN"], inc=["kernel_5_8"])],
    "C11": mixed((150, 1500), (80, 900)),
    "C12": [core("asan", 200, 1500)],
    "C13": [multi("race", 130, 2500), multi("asan", 35, 600, bound=(0, 1))],
    "C14": [dict(harness="h_capi", flavour="plain", budget=(80, 900), srcs=CAPI), dict(harness="h_capi", flavour="asan", budget=(20, 600), srcs=CAPI, bound=(0, 1)), dict(harness="h_capi_mock", flavour="asan", budget=(40, 300), srcs=CAPI, inc=["mock_capi"])],
    "C15": [dict(harness="h_event", flavour="plain", budget=(80, 900)), dict(harness="h_event", flavour="asan", budget=(60, 600))],
    "C16": [dict(harness="h_cli", flavour="plain", budget=(120, 1500), srcs=["src/wtr/watcher/main.cpp"]), dict(harness="h_cli", flavour="asan", budget=(40, 900), srcs=["src/wtr/watcher/main.cpp"], bound=(0, 1)), dict(harness="h_cli_mock", flavour="asan", budget=(40, 400), srcs=["src/wtr/watcher/main.cpp"], inc=["mock_capi"])],
    "C17": [napi("plain", 60, 900), napi("asan", 40, 600), dict(runner="node", budget=(60, 600))],
    "C18": [dict(runner="py", budget=(150, 1500))],
    "C19": [dict(runner="rs", budget=(120, 1500)), dict(runner="rs", flavour="miri", miri=True, budget=(60, 900))],
    "C20": [dict(harness="h_hog", flavour="plain", budget=(150, 2000)), dict(harness="h_hog", flavour="asan", budget=(40, 900), bound=(0, 1))],
}
KERNEL = "the simulated kernel behaves as Linux does for the calls the watcher makes (compared with the real kernel, see DESIGN.md)"
ASSUME = {
    "*": [
        KERNEL,
        "interleavings are explored at system calls, locks, condition variables, futexes and thread starts; unsynchronised memory accesses are judged in C13",
        "bounds as listed per scenario: histories up to the depth and schedules or failures up to the number of deviations given there",
    ],
}
