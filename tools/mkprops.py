#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the JSON stays well-formed)."""
import json, os
D='devel/include/detail/wtr/watcher/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    files=list(files)
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
H='include/wtr/watcher.hpp'
WATCH='devel/include/wtr/watcher-/watch.hpp'; EVENT='devel/include/wtr/watcher-/event.hpp'
INO=D+'adapter/linux/inotify/watch.hpp'; FAN=D+'adapter/linux/fanotify/watch.hpp'
LW=D+'adapter/linux/watch.hpp'; SR=D+'adapter/linux/sysres.hpp'; SB=D+'semabin.hpp'
WH=D+'adapter/warthog/watch.hpp'; DW=D+'adapter/darwin/watch.hpp'; WW=D+'adapter/windows/watch.hpp'
CAPI='watcher-c/src/watcher-c.cpp'; CH='watcher-c/include/wtr/watcher-c.h'; CLI='src/wtr/watcher/main.cpp'

prop('C01','Every watcher\'s event stream is bracketed by exactly one live and one die',
 'For every watcher, the first callback is one "create"/"watcher" event whose path is "s/self/live@" or "e/self/live@" followed by the absolute path that was asked for (a relative path is taken from the working directory at the time of opening), the last is one "destroy"/"watcher" event with "s/self/die@" or "e/self/die@" and the same path, and neither message appears anywhere else. A path that is not an existing directory gives "e/" for both; a watcher that ran and was closed gives "s/" for both; an "e/self/live@" is never followed by "s/self/die@" or by filesystem events. Every other watcher-type event is a message starting "s/", "w/" or "e/".',
 ['schedules','inputs','fault_sequences','configurations'],'all schedules of the owner and watcher threads around open, filesystem activity and close, all kinds of base path, all single and double system-call failures, inotify and fanotify',
 'The tests open a watcher, do something, sleep and close; they see one schedule, one path kind and no failing system call.',
 [WATCH,LW,SR,H],[('live message, platform watch, die message run in that order on the one watcher thread',WATCH),('fatal results become one error message',LW)],['callback of wtr::watch'])
prop('C02','Closing always stops the watcher, promptly, and reports the truth',
 'Whenever close() is called (or the watcher is destroyed) by any thread other than the one its callback is running on, before, during or after start-up, with events pending or continuously arriving, it returns after finitely many steps of the watcher and the last callback has returned before it does; no callback of that watcher runs afterwards. The first close() returns true exactly if the final message was "s/self/die@", every later close() returns false and has no effect, and no thread is left waiting forever.',
 ['schedules','histories','fault_sequences'],'all interleavings of open, close, callbacks and incoming events at system-call and at atomic-operation granularity up to the preemption bound; all failure points',
 'A lost wake-up, a close overtaken by a busy event queue or a callback after close needs one particular interleaving; the tests close an idle watcher.',
 [WATCH,SB,LW,H],[('the close request is an eventfd the event loop waits on',SB),('close() joins the watcher thread through the future',WATCH),('the loop ends on the close request',LW)],['return value of close()','callback after close()'],
 [('close request','pending or released',SB)])
prop('C03','inotify: every reported change is delivered once, in order, correctly named',
 'With inotify, every create, delete, modify or rename the operating system reports for an entry of a watched directory is delivered to the callback exactly once, in the reported order, with the matching effect (create, destroy, modify, rename), with path type "dir" for directories and "file" otherwise, with the absolute path that entry had at the time (or, if a directory above it was renamed, has had between then and the callback), and with an effect time between the change and the callback. While the watched path itself stays in place, this does not depend on how the notifications are split over reads, how many arrive together, how long the names are, or when the watcher runs.',
 ['histories','schedules','inputs'],'all sequences of filesystem operations over a small tree up to a depth, all ways of splitting their notifications over reads, all name lengths',
 'Tests create and delete some hundred top-level entries with short names and one batching; they do not vary batching, depth, order or name length.',
 [INO,LW,H],[('walk of the variable-length records of one read',INO),('map from watch descriptor to directory path',INO)],['callback of wtr::watch'],
 [('descriptor map','which directory a notification is about',INO)])
prop('C04','A rename is reported as one event that pairs the old and the new path',
 'A rename within the watched tree, whose two halves the operating system reports together, is delivered as exactly one "rename" event whose path is the old path and whose associated event is a "rename" with the new path; both have the right path type, and neither half is delivered again (one exception is a recorded finding: with fanotify, halves of two different renames which are reported next to each other). Halves of different renames are never paired, a rename into or out of the tree is a "rename" event without an associated event, and an associated event never appears on any other effect.',
 ['histories','schedules'],'all sequences of renames (within, into, out of, overwriting, exchanging, chains, directories and files) mixed with other operations up to a depth, all splits over reads, inotify and fanotify',
 'Tests rename single entries one after the other; interleaved renames, splits between the two halves and moves across the boundary are not exercised.',
 [INO,FAN,EVENT,H],[('look-ahead pairing of adjacent rename records',INO+', '+FAN)],['callback of wtr::watch'])
prop('C05','The whole tree under the path is watched, and stays watched',
 'Whenever the watcher has caught up, and as long as the watched path itself stays in place, every directory in the tree under the watched path is watched: directories that existed at the start at any depth, directories made later (also several levels at once), moved in from outside or renamed, including everything under them; so each later change in any of them is reported under its current path. Directories reached only through symbolic links are not watched, and a directory that was moved out or removed is no longer reported on.',
 ['histories','schedules','configurations'],'all initial trees and sequences of directory operations (make, make nested, remove, re-make, rename, move in, move out, link) up to a depth, in all interleavings with the watcher\'s scans up to the bound',
 'Tests create directories in the top level only and never use them afterwards.',
 [SR,INO,FAN,H],[('recursive walk at start and on new directories',SR),('marking of directories as they appear',INO+', '+FAN)],['callback of wtr::watch'])
prop('C06','fanotify: every reported change is delivered once, in order, correctly named',
 'With fanotify, every create, delete, modify or rename the operating system reports for an entry of a watched directory on the filesystem of the watched path is delivered to the callback exactly once, in the reported order, with the matching effect (for changes of one entry which the operating system merged into one notification: one of their effects), path type, the absolute path of that entry and a time between the change and the callback, as long as the containing directory still exists when the notification is read. A notification whose directory is gone, or which cannot be interpreted, affects no other notification. This does not depend on how notifications are batched or on the lengths of names and handles.',
 ['histories','schedules','inputs'],'all sequences of filesystem operations over a small tree up to a depth, all ways of splitting their notifications over reads, all name and handle lengths, all stale directories',
 'Tests see one batching, existing directories and short names, and only when run with the privilege fanotify needs.',
 [FAN,LW,H],[('walk of the variable-length records of one read',FAN),('directory handle and name resolved to a path',FAN)],['callback of wtr::watch'])
prop('C07','Nothing is reported that did not happen in the tree',
 'Every filesystem event delivered stands for a create, delete, modify or rename that happened to an entry inside the watched tree while the watcher was running. Opening, reading, listing, closing, or changing attributes of files and directories, and any activity outside the tree, produces no event at all, and messages of the watcher itself are never mistaken for filesystem events.',
 ['histories','configurations'],'all sequences mixing ignored activity (access, open, close, attribute change, activity outside, activity through links) with reported activity up to a depth, inotify and fanotify',
 'One test reads files in one directory and expects silence; mixtures, directories, self-notifications and the outside of the tree are not covered.',
 [INO,FAN,H],[('requested notification mask and filtering of self notifications',INO+', '+FAN)],['callback of wtr::watch'])
prop('C08','Any failing system call is survived or reported, never fatal to the process',
 'For every sequence of failures of the operating system calls the watcher makes (other than starting its thread), the process is not brought down, the watcher does not hang or spin, and it either keeps delivering correct events or ends by itself with a message beginning "e/" followed by "e/self/die@". A directory that cannot be watched is announced with a message beginning "w/" naming it, and does not stop the rest of the tree from being watched; close() reports false exactly if the watcher failed.',
 ['fault_sequences','schedules'],'every single failure and every pair of failures, with every errno the call can give, at every system call of a bounded history, inotify and fanotify',
 'The tests run on a healthy system: no call ever fails.',
 [LW,SR,INO,FAN,WATCH,SB,H],[('result codes classed as warning, complete or error',SR),('resources are given back before the result is reported',LW)],['callback of wtr::watch','return value of close()'])
prop('C09','A watcher gives back every resource it took',
 'When close() has returned and the watcher object is gone, every file descriptor, directory stream, thread and kernel watch instance the watcher opened has been released exactly once, also when starting up or running failed part-way; nothing it did not open is ever closed, and no descriptor is used after being closed. Creating and closing watchers repeatedly therefore never exhausts or corrupts the descriptors of the program.',
 ['fault_sequences','histories','schedules'],'all bounded histories of open, activity and close, with every single and double failure, including descriptor numbers down to 0',
 'A leaked or doubly closed descriptor does not fail any test; failures are never injected.',
 [LW,SR,INO,FAN,SB,WATCH,H],[('close of the notification and epoll descriptors after the loop',LW),('eventfd closed by its owner',SB)],['descriptor table after close()'])
prop('C10','The choice of the kernel interface is invisible to the user',
 'With the effective user root, and a build and a kernel that permit it, fanotify is used, and in every other case inotify; if fanotify cannot be set up the watcher falls back to inotify without any message, with nothing left over from the attempt, and with one live and one die message in total. For every history of file operations that waits for the watcher between the steps both interfaces deliver the same events.',
 ['configurations','histories','fault_sequences'],'root or not, fanotify permitted or failing with every errno, times all operation histories up to a depth, compared with each other event by event',
 'The tests run with whichever interface the machine permits; they never compare the two.',
 [LW,INO,FAN,H],[('try fanotify as root, fall back to inotify on the interface being unusable',LW)],['callback of wtr::watch'])
prop('C11','Recoverable conditions do not stop the watcher and lost events are announced',
 'An interrupted or spuriously ready wait or read, an overflow of the kernel\'s event queue, a notification about an unknown or vanished directory, and a directory that vanishes while it is being scanned leave the watcher running: events before and after are delivered as always. When the kernel says that events were lost, exactly one message beginning "w/" is delivered for it at that point of the stream, and it is not taken for a filesystem event.',
 ['fault_sequences','histories','schedules'],'every placement of one or two such conditions in every bounded history, inotify and fanotify',
 'The tests never interrupt the watcher or overflow a queue.',
 [LW,INO,FAN,SR,H],[('warnings keep the loop running',SR),('overflow and unknown-descriptor handling',INO+', '+FAN)],['callback of wtr::watch'])
prop('C12','Parsing kernel notifications never reads or writes out of bounds',
 'For every well-formed sequence of notification records the kernel can return, of any size up to a full buffer, with names up to the longest the filesystem allows, with paths up to and beyond the longest a path may be, with padding and handles of any size, the watcher reads only bytes the kernel returned and never overruns a buffer. Events that fit are still delivered with their exact path, and one that cannot be represented does not disturb the others.',
 ['inputs','histories','configurations'],'all sequences of records up to a length over record kinds, name lengths around every boundary, directory path lengths around PATH_MAX, batches filling the buffer exactly, interfaces inotify and fanotify',
 'The sanitizer build sees only the short names and small batches of the tests.',
 [INO,FAN,SR,H],[('record lengths bound the walk',INO+', '+FAN),('buffers sized for the longest name and path',INO+', '+FAN)],['AddressSanitizer plus poisoning of every byte the simulated kernel did not return'])
prop('C13','Watchers are independent and safe to use from several threads',
 'Any number of watchers, on the same, nested or different trees, opened and closed from different threads in any order (each one closed by one thread at a time), each deliver exactly the events they would deliver alone, and closing one has no effect on another. The callback of one watcher is never run twice at the same time, always by one thread, what it is given may be copied and kept, and no schedule contains a data race or a use of freed memory.',
 ['schedules'],'all interleavings of two watchers with their owners, at every atomic operation, lock, thread operation and system call, up to the preemption bound; happens-before race detection on every access of every schedule',
 'The concurrent-watcher test runs one free schedule and checks counts at the end; races do not show.',
 [WATCH,SB,LW,INO,EVENT,H],[('no shared mutable state between watchers',H),('atomic close request and future join',SB+', '+WATCH)],['callback of wtr::watch','race detector'])
prop('C14','The C interface reports the same events and handles as the C++ one',
 'Through the C interface every event of the underlying watcher arrives once, in order, with the same effect time, the same path and associated path (or null if there is none), and with effect and path types equal to the published constants, together with the context pointer given at open; the strings stay valid for the duration of the callback. Opening never returns a handle that cannot be closed, closing null or closing before the watcher went live gives false, a successful close gives true and releases everything, and no callback comes after that.',
 ['histories','schedules','inputs','fault_sequences'],'all effect, path type and association combinations, all bounded histories of open, activity and close including close right after open in all schedules up to the bound',
 'No test uses the C interface.',
 [CAPI,CH,WATCH],[('field by field copy into the C event',CAPI),('heap-allocated watcher behind the handle',CAPI)],['wtr_watcher_open','wtr_watcher_close','wtr_watcher_callback'])
prop('C15','Events convert to text and JSON without loss, and compare and copy by value',
 'For every event (names which are not valid UTF-8 keep their bytes in narrow text, and do not fail in wide text), the JSON text it converts to is one well-formed member, keyed by the effect time, that parses back to exactly its effect, path type, path and (if any) the associated event; the narrow and wide conversions agree, streaming equals converting, and every number and every effect and path type has its documented text with nothing added. A copied event equals the original and is independent of it; two events are equal exactly if all their fields, including the associated event, are equal.',
 ['inputs'],'all effect and path types, all bytes and pairs of special characters in names, all boundary times of every digit count and sign, associated or not, nested copies',
 'Tests convert a handful of events with 19-digit times and plain names.',
 [EVENT,H],[('text conversion templates',EVENT),('copy constructor and comparison',EVENT)],['to<string>','to<wstring>','operator<<','operator=='])
prop('C16','The command line program watches what it is told, for as long as it is told',
 'For every argument list the program either prints its help (to standard output with status 0 if asked for, to standard error with status 1 if the path or arguments are unusable) or watches the given path, by default the current directory, for the given positive number of one of the documented units, or until anything can be read from standard input, or it ends, if no time is given, and exits with 0 exactly if closing succeeded. Meanwhile it prints each event as it comes, in order, as one line holding one JSON object with its exact path type, path name, effect type, effect time and associated event or null.',
 ['inputs','histories','configurations'],'all argument lists over an alphabet of paths, every unit spelling and boundary counts, all event kinds and special characters in names, under a virtual clock',
 'Tests use the program for one time unit and compare only counts of matching lines.',
 [CLI,H],[('argument parser',CLI),('JSON printer',CLI),('timed or input-bound main',CLI)],['standard output','standard error','exit status','virtual time'])
prop('C17','The Node.js addon hands every event to JavaScript and closes cleanly',
 'Every event of the underlying watcher reaches the JavaScript callback exactly once, in order, with its time (as the nearest JavaScript number), path, associated path (or null; bytes that are not UTF-8 as Node.js decodes them) and types, however many are waiting when JavaScript gets to run and also while close is under way. close() gives true exactly if the native close did, releases the callback, the thread-safe function and all memory exactly once, a second close() gives false, and nothing is accessed after being freed.',
 ['histories','schedules','inputs','fault_sequences'],'all orders of native events, JavaScript turns, close calls and failing Node-API calls up to a depth, against a mock of the Node-API that checks its rules',
 'There is one smoke test that needs a network-installed toolchain, and it is not among the tests that run here.',
 ['watcher-nodejs/lib/watcher-napi.cpp','watcher-nodejs/lib/watcher.ts',CH],[('event copy queued on a thread-safe function','watcher-nodejs/lib/watcher-napi.cpp'),('numeric types mapped to names','watcher-nodejs/lib/watcher.ts')],['JavaScript callback arguments','close() result','Node-API call log'])
prop('C18','The Python wrapper hands every event to Python and closes cleanly',
 'Every event of the underlying watcher reaches the Python callback exactly once, in order, as an Event with the same time, path, associated path (or None) and types, for every path name the operating system allows, and with a JSON text that parses back to the same; an exception in the callback loses no later event. Watch closes the native watcher exactly once, whether through close(), the end of a with block or garbage collection, in any combination, raising only if opening or closing failed, and the context and callback stay alive as long as native code can call them.',
 ['histories','inputs','fault_sequences'],'all type values, name byte patterns and sequences of open, events, close, exit and deletion up to a depth, against a native library that checks every call',
 'No test imports the Python wrapper.',
 ['watcher-py/watcher/watcher.py',CH],[('ctypes structure and callback bridge','watcher-py/watcher/watcher.py'),('close on exit and deletion','watcher-py/watcher/watcher.py')],['Event passed to the callback','native open and close calls'])
prop('C19','The Rust wrapper streams every event and closes cleanly',
 'Every event of the underlying watcher comes out of the stream exactly once, in order, with the same time, path, associated path (or none) and types, also those that arrive while the watcher is being opened or closed; bytes of a path that are not UTF-8 come as replacement characters, and the program of the crate prints each event as one line of JSON. The native watcher is closed exactly once over any sequence of close() and drop, close() tells whether that succeeded, a path with a NUL byte is an error, and native code never sees a context that has been freed or moved.',
 ['histories','inputs','fault_sequences'],'all type values, name byte patterns and sequences of open, events, polls, close and drop up to a depth, against a native library that checks every call',
 'The crate has no tests.',
 ['watcher-rs/src/lib.rs',CH],[('boxed sender as the callback context','watcher-rs/src/lib.rs'),('close on drop','watcher-rs/src/lib.rs')],['Stream items','native open and close calls'])
prop('C20','The portable adapter reports the difference between two scans, once each',
 'The portable polling adapter reports, for every two consecutive scans of the tree, exactly one create for each file or directory that appeared, one modify for each file whose write time changed and one destroy for each file or directory that disappeared, with the path and type the entry has (or last had), and nothing when nothing changed. Something that became another kind of thing is a destroy and a create; links are not followed into directories, and within one difference events come in any order. It does so for any number of changes between two scans, survives entries that vanish or cannot be looked at while being scanned, and stops within one scan interval of close().',
 ['histories','schedules','fault_sequences'],'all sequences of operations between scans up to a depth, all vanishing points during a scan, under a virtual clock',
 'No test is built with the portable adapter on this platform.',
 [WH,SB,WATCH],[('scan into a path to write-time table','devel/include/detail/wtr/watcher/adapter/warthog/watch.hpp'),('destroyed entries found by a second pass',WH)],['callback of wtr::watch built with WATER_WATCHER_USE_WARTHOG'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
