#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P=[]
FA='devel/include/detail/wtr/watcher/adapter/linux/fanotify/watch.hpp'
IN='devel/include/detail/wtr/watcher/adapter/linux/inotify/watch.hpp'
LX='devel/include/detail/wtr/watcher/adapter/linux/watch.hpp'
SY='devel/include/detail/wtr/watcher/adapter/linux/sysres.hpp'
SB='devel/include/detail/wtr/watcher/semabin.hpp'
WA='devel/include/wtr/watcher-/watch.hpp'
EV='devel/include/wtr/watcher-/event.hpp'
AM='include/wtr/watcher.hpp'
CC='watcher-c/src/watcher-c.cpp'; CH='watcher-c/include/wtr/watcher-c.h'
NA='watcher-nodejs/lib/watcher-napi.cpp'; TS='watcher-nodejs/lib/watcher.ts'
PY='watcher-py/watcher/watcher.py'; RS='watcher-rs/src/lib.rs'
CLI='src/wtr/watcher/main.cpp'
def p(id,title,stmt,over,q,why,files,mech,observe=None,state=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Every watcher's event stream is bracketed by one live and one die event",
 "For every watcher that is constructed, the callback's first event is a `create` on a `watcher` whose message is the live message, its last is a `destroy` on a `watcher` whose message is the die message, each is delivered exactly once and both name the absolute watched path whenever it can be determined. This holds for every path argument (existing or not), every kernel failure while setting up or running, and every moment at which the watcher is closed. Nothing is ever delivered before the first or after the last.",
 ["schedules","inputs","fault_sequences"],"every path argument x every outcome of each system call made by the worker x every close moment",
 "Tests open existing directories and close after the work is done; they never reach failing setup calls, close-before-start, or an error in the middle of watching.",
 [WA,LX,AM],[("worker task started by the constructor",WA),("adapter watch function",LX)],["the user's callback"])
p("C02","Success and error messages, and close()'s result, tell the truth",
 "The live message is prefixed `s/` exactly when the path is an existing directory and the watcher had not been closed beforehand, otherwise `e/`; the die message is `s/` exactly when the live one was and watching ended because it was asked to stop, otherwise `e/`. close() returns true exactly when the die message was `s/` and the stop request itself succeeded, and false otherwise (also on every later call). When watching ends for any other reason, an `e/...` message on a `watcher` event naming the reason and the watched path is delivered before the die message.",
 ["schedules","inputs","fault_sequences"],"every path argument, system-call outcome and close moment",
 "Tests only see the success prefix; no test makes a kernel call fail.",
 [WA,LX,SY,AM],[("pre/post conditions of the worker",WA),("result ordering pending<warnings<complete<errors",SY),("send_msg on errors",LX)],["callback messages","close()'s return value"])
p("C03","close() and destruction are barriers; the watcher owns what the worker uses",
 "Once close() has returned, or a watcher's destructor has finished, its worker has ended: the callback is not running and will never run again. The callback is only ever called from that one worker, one call at a time, and the worker works on its own copies of the path and the callback, so neither constructor argument has to outlive the constructor. Nothing the worker uses is created after it starts or destroyed before it ends.",
 ["schedules"],"every interleaving of the worker with construction, close() and destruction",
 "An unsynchronised close is benign in nearly all schedules; tests sample a few.",
 [WA,SB,AM],[("std::async future joined in close()/destructor",WA),("by-value captures",WA),("member order",WA)],["callback","close()","destructor"])
p("C04","A stop request always wakes and ends the worker, at any moment",
 "Whenever close() is called - before the worker has started watching, while it is blocked waiting for events, while it is delivering a batch, or together with arriving filesystem events - the worker observes the request, stops promptly and never goes back to waiting for events afterwards. The request cannot be lost, overwritten by a later event of the same batch or consumed without effect, and repeating it is harmless.",
 ["schedules","histories"],"every position of the stop request relative to the worker's steps and to the contents of each wake-up batch",
 "Missed-wakeup windows need a particular interleaving; tests close once after a sleep.",
 [SB,LX,SY,AM],[("eventfd-backed binary semaphore",SB),("epoll registration of both descriptors",SY),("epoll loop",LX)],["close() returns"])
p("C05","Fatal kernel failures end the watcher with an error; transient ones never do",
 "A failure of a kernel interface the watcher cannot work without - creating the event queue, the poller or its registrations, waiting, or reading events - ends watching and is reported as an error. A transient outcome (a wait or read interrupted by a signal, a read that would block) never ends the watcher, is never reported as an error, and watching continues. Once watching, nothing else ends it but a request to stop and a kernel whose records are of another version: no event and no batch of events, however long and whatever it says (an overflow of the queue, a record which can't be understood), does.",
 ["fault_sequences"],"every failing/transient result and errno of each wait/read/setup call, at every point of the run",
 "No test injects a system-call failure or a signal.",
 [FA,IN,LX,SY,AM],[("errno tests after read/epoll_wait",FA),("result values >= e end the loop",LX)],["callback messages","loop exit"])
p("C06","Every descriptor and directory stream is released exactly once, on every path",
 "Every file descriptor and directory stream the library acquires - event queue, poller, stop-request descriptor, directory handles, directory streams - is released exactly once by the time the watcher is gone, on every success and failure path, and never used after release nor closed when it was not acquired by the watcher.",
 ["fault_sequences","histories"],"every combination of outcomes of acquiring calls along every path of set-up, running and tear-down",
 "Leaks on failure paths and double closes need fault injection; tests do not count descriptors.",
 [FA,IN,LX,SY,SB,AM],[("close of queue and poller at loop exit",LX),("cleanup in make_ep/make_sysres",SY),("close in pathof",FA),("closedir in walkdir_do",SY)],["the process's descriptor table"])
p("C07","No descriptor leaks into programs the process executes",
 "Every file descriptor the library opens is close-on-exec from the moment it exists, so a program started by the host application (at any time, from any thread) never inherits one.",
 ["schedules","histories"],"every descriptor-creating call, and every moment at which another thread forks and executes",
 "No test starts a program while watching.",
 [FA,IN,SY,SB,AM],[("EPOLL_CLOEXEC, EFD_CLOEXEC, O_CLOEXEC, FAN_CLOEXEC, IN_CLOEXEC",SY)],["/proc/<child>/fd"])
p("C08","The watcher subscribes to creates, modifies, moves and deletes, never to reads",
 "Every directory that is marked is marked for creation, modification, move (both ends) and deletion of its entries, directories included, and never for opening, reading or closing-without-write, so that a program that only reads inside the tree produces no event at all.",
 ["inputs","programs"],"every operation any program performs in the tree; every marking call in the code",
 "Tests drive a handful of operations and cannot show the absence of access events for all programs.",
 [FA,IN,AM],[("recv_flags",FA),("recv_mask",IN)],["inotify_add_watch/fanotify_mark masks"])
p("C09","Effect and path type reported for an event are those of the kernel record",
 "For every record delivered to the user, the effect is create for a creation, destroy for a deletion, modify for a content change and rename for a move, and the path type is dir exactly when the record says it concerns a directory, otherwise file. Bookkeeping records about a watched directory itself (removed, moved, watch dropped) are never delivered as filesystem events.",
 ["inputs"],"every combination of mask bits the kernel can put in a record for the subscribed events",
 "Tests exercise a few operations; mask combinations are an input space they do not enumerate.",
 [FA,IN,AM],[("mask classification in parse_ev",IN),("is_real_event",IN)],["the user's callback"])
p("C10","The path of an event is the watched directory's path plus the entry's name",
 "The path name delivered for a record is built from the directory that record refers to and the entry name in that same record (just the directory when the record is about the directory itself), and nothing else; when the directory cannot be determined no made-up or empty path is delivered as a filesystem event.",
 ["inputs","histories"],"every record, position in a batch, directory and name",
 "Tests check a few names in one directory, not directory/name mix-ups between records.",
 [FA,IN,AM],[("pathof",FA),("dm lookup and pathof",IN)],["event.path_name"])
p("C11","Rename halves are associated only with their own other half",
 "A rename event carries an associated path exactly when both halves of the same move (matching kernel cookie) are adjacent in the batch; then the event's own path is the moved-from path and the associated path the moved-to path, both with effect rename and the record's path type, and the pair yields one event. A half without its partner is delivered alone, with no associated path.",
 ["inputs","schedules"],"every order and interleaving of move records in a batch",
 "Needs interleaved moves from several programs; tests rename one file at a time.",
 [FA,IN,AM],[("isassoc/isfromto/assoc",IN)],["event.associated"])
p("C12","Every record of a batch is processed exactly once, in order",
 "Each record the kernel returns in a read is examined exactly once and in order: every record that describes a change in the tree yields exactly one delivery (a rename pair one for both), none is skipped or delivered twice, delivery happens in kernel order, and the scan always advances to the next record and stops at the end of what was read.",
 ["inputs","histories"],"every batch length and content, every record size",
 "Batches with particular contents are up to kernel timing; tests cannot force them.",
 [FA,IN,AM],[("peek and the batch loops",IN)],["sequence of callbacks"])
p("C13","Trouble is reported to the user and watching goes on",
 "When something was or may have been missed - the kernel's queue overflowed, a directory could not be watched, or a record could not be attributed to a known directory - the user receives a `w/...` message on a `watcher` event of the corresponding kind, the remaining records of the batch are still processed and watching continues.",
 ["fault_sequences","histories"],"every position of an overflow or unattributable record in a batch; every failing mark",
 "Tests cannot provoke an overflow or a vanished directory deterministically.",
 [FA,IN,LX,AM],[("send_msg of warnings",IN)],["callback messages"])
p("C14","The whole tree is watched: existing, new and moved-in directories",
 "When watching starts, the base directory and every directory reachable below it has been marked; symbolic links are not followed. When a directory appears in the tree, by creation or by being moved in, it and everything below it is marked before the event for its appearance is delivered.",
 ["inputs","histories"],"every tree shape and every sequence of creates and moves of directories",
 "Tests cover shallow trees and single new directories.",
 [SY,FA,IN,AM],[("walkdir_do",SY),("do_mark",IN),("do_mark_if_newdir",FA)],["which directories produce events"])
p("C15","No input makes the library write or read outside its buffers",
 "Every access the library makes to a fixed-size buffer - the batch buffers, path buffers, the poll-result array, the deferred-removal list - stays inside it, for every batch length and content the kernel can return, every path length and every failure of the call that was to fill it.",
 ["inputs","fault_sequences"],"every return value (including -1) and length of each filling call",
 "Overruns need extreme lengths or failing calls; the tests are not run on those.",
 [FA,IN,LX,SY,AM],[("bounded loops",IN),("path_buf handling in pathof",FA)],["memory safety"])
p("C16","Every effect and path type has its own name, the same in every string form",
 "Each effect and path type converts to its own documented name (rename, modify, create, destroy, owner, other; dir, file, hard_link, sym_link, watcher, other), no two share one, out-of-range values convert to `other`, and every string form - narrow, wide, view, stream, Python, Node.js, Rust - gives the same name (Node.js spells names of several words in camel case).",
 ["inputs"],"all enumerators x all conversions",
 "Only the narrow forms of a few values are exercised by tests.",
 [EV,AM,PY,TS,RS],[("to<> specialisations",EV)],["to<string>, operator<<, bindings"])
p("C17","Serialised events are well-formed JSON that carries the event faithfully",
 "For every event, the JSON produced by streaming or converting it (a member `\"time\":{...}` of an object), by the command-line program (one object or member to a line) and by the Python binding is well-formed whatever quotes, backslashes and control characters its paths contain, all other bytes of a path passing unchanged, and every field holds that event's own effect type, path type, path and time; the associated event appears exactly when there is one, with its own fields.",
 ["inputs"],"every path byte string, every field value, with and without an associated event",
 "Tests never serialise a path with a quote, backslash or control character.",
 [EV,AM,CLI,PY],[("wtr_event_to_str_cls_as_json",EV),("json()",CLI),("to_json",PY)],["stdout, operator<<"])
p("C18","Event times convert to their exact decimal digits",
 "For every 64-bit time value, its conversion to any string type is exactly the shortest decimal rendering of that number: no truncation, padding or trailing characters.",
 ["inputs"],"all 2^64 values, narrow and wide",
 "Only current-time values (19 digits) are ever converted in tests.",
 [EV,AM],[("num_to_str",EV)],["to<string>(effect_time)"])
p("C19","Copies of an event are equal and independent; equality compares every field",
 "Copying an event copies path, effect, path type, time and (deeply) the associated event, so that a copy compares equal to its original and shares no state with it; an event built from its parts holds exactly those parts. Two events compare equal exactly when all five of these agree, and != is the negation of ==.",
 ["inputs"],"all pairs of events",
 "Tests compare few events and never vary a single field.",
 [EV,AM],[("copy constructor, constructors, operator==",EV)],["event copies and comparisons"])
p("C20","The C event view mirrors the C++ event and is valid during the callback",
 "Each event delivered through the C interface carries exactly the path, effect type, path type and time of the underlying event, its associated path when there is one and a null pointer otherwise, with strings that stay valid for the whole of the callback; it is delivered once, to the callback and context given to open.",
 ["inputs","histories"],"every event",
 "The C test never looks at associated paths, times or the context.",
 [CC,CH],[("wrapped_callback",CC)],["wtr_watcher_callback arguments"])
p("C21","The C handle is safe: null is refused, and a closed handle is fully released",
 "Opening returns a handle that owns a running watcher; closing a null handle returns false and touches nothing; closing a handle stops the watcher, reports whether it stopped successfully and releases everything it owned exactly once, whether or not it had failed.",
 ["inputs","fault_sequences"],"every path, every outcome of the underlying close",
 "Tests only close healthy watchers.",
 [CC,CH],[("wtr_watcher_open/wtr_watcher_close",CC)],["return values; heap"])
p("C22","The numeric codes of effects and path types agree across all languages",
 "A given effect or path type has the same numeric code in the C++ enumerations, the C constants, and the Python, Node.js and Rust bindings, and each binding maps every code to the like-named value.",
 ["configurations","inputs"],"all codes x all bindings",
 "No test crosses the language boundary with every code.",
 [EV,CH,PY,TS,RS,AM],[("enum declarations and mappings",CH)],["bindings"])
p("C23","Foreign declarations match the C interface",
 "The Python binding's declaration of the C event structure and functions (field order, types, offsets, argument and result types, callback signature) matches the C header, so that no field is misread and no handle truncated.",
 ["configurations","inputs"],"all fields and functions; LP64",
 "A wrong declaration can pass by luck on one ABI.",
 [PY,CH],[("_CEvent, _CCallback, argtypes/restype",PY)],["ctypes calls"])
p("C24","The Node.js binding neither leaks, loses nor double-frees events or its watcher",
 "In the Node.js binding every event copied for delivery is handed over to the JavaScript side or freed, exactly once on every path, carries copies of all fields of the event it came from, and is not read after being freed; the native watcher state is initialised before the watcher can deliver into it, and is released exactly once, after the watcher has stopped, however often close is called. What is watched is the path which was given, and every field of the event reaches the user unaltered.",
 ["schedules","fault_sequences"],"every result of each Node-API call; close at any time and any number of times",
 "No test makes a Node-API call fail or fills the queue.",
 [NA],[("callback_bridge / callback_js_receiver ownership",NA),("watch / close",NA)],["heap; JavaScript callback"])
p("C25","The Python binding keeps its callback alive and closes its watcher exactly once",
 "While the native watcher exists, the Python binding holds references to everything native code may call or read, and it closes the native watcher exactly once - by close(), context exit or destruction, in any combination - also when construction failed part-way. What is watched is the path which was given, a watcher which could not be opened is reported, and every event reaches the user's callback with its own fields; path strings that are not valid text never make an event disappear.",
 ["histories","inputs"],"every order of close/exit/del, failed construction, every path byte string",
 "There is no Python test here.",
 [PY],[("Watch.__init__/close/__del__",PY)],["ctypes calls"])
p("C26","The Rust binding delivers faithful events and closes its watcher exactly once",
 "The Rust binding converts every field of each event faithfully (an absent associated path stays absent; bytes that are not UTF-8 do not turn a path into an empty one), keeps the channel the native callback uses alive and in place until the native watcher is closed, and closes the native watcher exactly once whatever combination of close and drop happens.",
 ["histories","inputs"],"every order of close and drop; every path byte string",
 "There is no Rust test here.",
 [RS],[("Watch, Drop, ev_from_c",RS)],["wtr_watcher_close calls"])
p("C27","The command line's arguments, units and exit status mean what the help says",
 "For every argument vector, the command-line program prints help on standard output and exits 0 when asked to, prints help on standard error and exits non-zero for a path that does not exist, otherwise watches the given path (by default the current directory) for TIME x the documented length of UNIT, or until input ends when no positive time is given, and exits 0 exactly when the watcher closed successfully. Every documented unit spelling is accepted.",
 ["inputs"],"all argument vectors",
 "Tests never run the program.",
 [CLI],[("Args::try_parse, main",CLI)],["exit status, stdout, stderr, watch duration"])
p("C28","The worker and the closing thread never race on unsynchronised data",
 "Every object that can be accessed by the worker and, at the same time, by a thread that closes or destroys the watcher is accessed atomically, is immutable, or is handed over through thread creation or joining; and the workers of two watchers share no mutable static storage.",
 ["schedules"],"all interleavings of worker and closer",
 "Data races rarely change a test's outcome.",
 [WA,SB,AM],[("std::atomic state in the semaphore",SB),("future",WA)],["memory model"])
p("C29","The path recorded for a watch is always the current one for its directory",
 "Where paths are remembered per watched directory, a watch that is established stores the path it was established on, replacing whatever an earlier use of the same watch had stored; no entry is dropped while its watch lives, nor before the records already read have been attributed.",
 ["histories"],"every sequence of create, delete, rename and re-create of directories",
 "Stale entries need a reuse or a rename of a watched directory.",
 [IN,AM],[("dm map; defer_dm_rm_wd",IN)],["event.path_name"])
p("C30","The watcher falls back to the unprivileged event source and never runs deaf",
 "When the privileged kernel event source may not be used - not privileged, unavailable, or refused - the unprivileged one is tried before giving up, without any error being reported for the attempt; whichever is used, watching only starts if at least the base directory could be marked, and otherwise ends with an error.",
 ["configurations","fault_sequences"],"every outcome of the set-up calls; privileged and not",
 "Tests run under one privilege level with every set-up call succeeding.",
 [LX,FA,IN,AM],[("try_fanotify and the inotify retry",LX)],["callback messages"])
p("C31","Events arrive promptly and in the order in which operations happened",
 "Every operation performed in the tree while it is watched results in an event, delivered promptly and in the order in which the operations happened.",
 ["schedules","histories"],"all workloads and loads",
 "Timing and the kernel's own coalescing are sampled only.",
 [FA,IN,LX],[("event loop",LX)])
p("C32","effect_time is the time at which the event was observed",
 "The effect_time of every event lies between the moment the kernel recorded the change and the moment the callback runs, and never decreases from one delivery to the next.",
 ["schedules","configurations"],"all schedules and clock adjustments",
 "Depends on the run-time clock.",
 [EV],[("effect_time default initialiser",EV)])
p("C33","macOS and Windows back ends give the same guarantees",
 "Watching through FSEvents or ReadDirectoryChangesW gives the same bracketing, barrier, attribution and loss-reporting guarantees as on Linux.",
 ["configurations","schedules"],"all platforms",
 "Not built or run here.",
 ["devel/include/detail/wtr/watcher/adapter/darwin/watch.hpp","devel/include/detail/wtr/watcher/adapter/windows/watch.hpp"],[("platform adapters","devel/include/detail/wtr/watcher/adapter")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
