FN = 'path-sensitive abstract interpretation of single functions over LLVM IR, calls to the outside recorded by models'
FNT = FN + '; abstract interpretation of the bindings\' syntax trees'
TR = 'abstract interpretation of the binding\'s syntax tree over all sequences of operations and failures up to a bound'
TECH = {p: FN for p in ('C18', 'C19', 'C20', 'C21', 'C27')}
TECH.update({p: FNT for p in ('C16', 'C17', 'C22', 'C24')})
TECH['C23'] = 'comparison of the declarations in the syntax tree with the layout and prototypes in clang\'s debug information'
TECH['C25'] = TR
NF = ('Decided for all arguments the abstract domain holds, on all paths of the functions (failures of the calls they make included). What the analysis cannot settle is listed as undecided in the evidence and raises no alarm.')
NOTES = {p: NF for p in ('C16', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23')}
NOTES['C17'] = NF + ' Restricted to quotes, backslashes and control characters.'
NOTES['C24'] = 'All paths of the native functions with up to 2 failing Node-API calls (thorough: 4), and of the TypeScript around them. Events one after another and a second watcher in the same process included. Allocation failure is not judged.'
NOTES['C25'] = 'All sequences of up to 3 (thorough: 5) of construction, callback, close, context exit and destruction, with every outcome of the library calls; events one after another and a second Watch at the same time.'
TECH['C26'] = 'evaluation of the binding\'s MIR (ownership, moves and drops followed) over histories of construction, events, close and destruction, with models of the C library and of the channel'
NOTES['C26'] = 'Every constructor, 0 to 2 closes (thorough: 4) with each result of the native close, destruction, an event in each state; every effect and path type, paths which are UTF-8 or not. Rust panics end a path. bindgen is not installed: the declarations it makes are made from clang\'s tree of the C header.'
NOTES['C27'] = NF + ' Unknown units and overflow of TIME x UNIT are not judged.'
NA = {
 'C31': 'Promptness and the order of events across separate reads quantify over kernel queueing and wall-clock time, which no static argument over this source bounds; the part the source decides (each record once, in queue order) is C12, not getting stuck is C04.',
 'C32': 'Relates clock readings of the kernel and of the process at run time; the source only shows that the clock is read when an event is made, the order of the readings is not decidable from it (system_clock may step backwards).',
 'C33': 'The Darwin and Windows adapters can not be translated here: the SDK headers they include (CoreServices, windows.h) are not installed, so neither an IR nor a type-checked tree of them can be had.',
}
