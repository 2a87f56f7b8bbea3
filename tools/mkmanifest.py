#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and the table below."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from plan import PLAN
SIMT = "stateless model checking of the real code: exhaustive enumeration of "
T = {
    "C01": ("schedules, base path kinds and failing calls over a simulated kernel", "Every execution within the bounds is run on the real header; the live and die messages, their order and their prefixes are judged in each."),
    "C02": ("schedules around open, events and close over a simulated kernel, with a livelock horizon", "All schedules up to the preemption bound with idle, busy and endless event streams; termination within a step horizon, truth of the return value, silence after close."),
    "C03": ("operation histories, paces and read splits (inotify) against the record of the simulated kernel", "All histories up to the depth; every record the kernel handed out is matched with the events delivered, in order."),
    "C04": ("rename histories and read splits (inotify and fanotify) against the record of the simulated kernel", "As C03, judged on renames only. One known finding (fanotify, see KNOWN_FINDINGS.txt)."),
    "C05": ("directory histories and preemptions of the watcher's scans, with the watch set compared with the tree", "After each history every directory must be watched, and a probe in every directory inside and outside must be reported, or not, under its current path."),
    "C06": ("operation histories, paces and read splits (fanotify) against the record of the simulated kernel", "As C03 for fanotify, including directories that are gone when the record is read and merged records."),
    "C07": ("histories mixing reported and ignored activity over a simulated kernel", "No event may be delivered that does not stand for a change the kernel reported inside the tree."),
    "C08": ("single and double system call failures over bounded histories", "Every failure point with every errno of the table, singly and in pairs; process survival, honest announcement, correct delivery of the rest; also under AddressSanitizer and UBSan."),
    "C09": ("schedules and system call failures with a full account of descriptors, streams, threads and watch instances", "After close nothing may be left; nothing foreign may be closed; no descriptor may be used after its close."),
    "C10": ("operation histories run over both kernel interfaces and compared event by event, and all ways fanotify can be refused", "Differential: the two real adapters against each other on the same history."),
    "C11": ("placements of interruptions, spurious wake-ups, overflows and unknown or vanishing directories in bounded histories", "All placements up to the bound; events before and after, one announcement per loss."),
    "C12": ("record shapes: name, path and handle lengths around every boundary and batches filling the buffer, under AddressSanitizer", "Every byte the simulated kernel did not return is poisoned during the walk; events that fit must arrive exactly."),
    "C13": ("interleavings of two watchers and their owners at every atomic, lock and system call, with vector-clock race detection and freed memory kept apart", "The real header compiled with thread-sanitizer instrumentation against a run-time of our own: scheduling points at every atomic operation, happens-before checks on every access of every schedule explored."),
    "C14": ("histories and schedules through the C interface: over the simulated kernel, and over a watcher that delivers every combination of types, times, names and outcomes of close", "Each event is compared field by field with what the C++ watcher delivered; the life of every handle is followed; also under AddressSanitizer and UBSan."),
    "C15": ("event values: all types and associations, all bytes, sequences of special pieces, lengths and numbers around every boundary, all pairs of events that differ in any combination of fields", "Each value runs through the real conversions, copies and comparisons; the text is read back by a strict parser and compared."),
    "C16": ("argument lists, operation histories, names, schedules of the end of input and failing calls, of the real program over a simulated kernel with a virtual clock", "main() runs as it is; exit status, both output streams, the moment it ends, and every line, read back by a strict parser, are judged; a second harness puts every event value through it."),
    "C17": ("orders of native events, turns of JavaScript, calls of close and failing Node-API calls, of the real addon over a mock of the Node-API which checks its rules, and of the whole package inside the real Node.js over a mock of the native library", "The addon runs unmodified in the simulator, with scheduling points at every lock, system call and crossing into JavaScript, also under AddressSanitizer; the package, watcher.ts included, runs in Node.js with every event value and every ending of the program or of a worker."),
    "C18": ("histories, values, endings and interleavings at every point where the interpreter may switch, of the real Python module over a native library which checks every call", "One forked process per part of the tree of choices; a deterministic scheduler picks the Python thread at every call and return (bounded number of switches); native code keeps calling until the watcher is closed, and refers to the callback by address."),
    "C19": ("histories, values and paths of the real Rust crate over a native library which checks every call, natively with freed memory overwritten, and again under Miri", "Every event comes on a thread of the library's own, with strings that are gone afterwards; the watcher moves in memory between any two steps; wakers are followed; the crate's program is run as a process for every script of events."),
    "C20": ("operation histories between and during scans, links, unreadable directories, failing calls and moments of close, of the portable adapter over a simulated filesystem with a virtual clock", "The tree after every step is recorded; for each path the events delivered must follow from some sequence of samples which agrees with when scans were complete."),
}
NA = {

}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in PLAN and i in T:
        t, n = T[i]
        checks.append(dict(property=i, quick_cmd=f"./check.py {i} --tier quick", thorough_cmd=f"./check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                           technique=(SIMT + t) if not t.startswith("=") else t[1:], level="model_checking", level_note=n))
m = dict(version=1, setup_cmd="./check.py --setup", hooks=dict(guard="none", enable="no hooks: /repo is built as it is, system calls are served by interposed definitions in the harness program", source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items() if k not in [c["property"] for c in checks]],
         notes="See DESIGN.md. KNOWN_FINDINGS.txt lists what was found, repaired or not.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
