"""Writes MANIFEST.json from the registry and the table below."""
import sys, json
sys.path.insert(0, '/verif/engine')
import registry
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
AI = 'path-sensitive abstract interpretation (dataflow to a fixpoint) over LLVM IR with a typestate monitor'
NOTE = ('Decided for all paths, schedules of poll results and batches of kernel records the models admit; rests on the models of kernel and library calls and on clang\'s IR. '
        'A rule the analysis cannot settle at some place is listed as undecided in the evidence and raises no alarm.')
TECH, NOTES = {}, {}
NA = {
 'C31': 'Promptness and the order of events across separate reads quantify over kernel queueing and wall-clock time, which no static argument over this source bounds; the part the source decides (each record once, in queue order) is C12, not getting stuck is C04.',
 'C32': 'Relates clock readings of the kernel and of the process at run time; the source only shows that the clock is read when an event is made, the order of the readings is not decidable from it (system_clock may step backwards).',
 'C33': 'The Darwin and Windows adapters can not be translated here: the SDK headers they include (CoreServices, windows.h) are not installed, so neither an IR nor a type-checked tree of them can be had.',
}
try:
    from manifest_table import *
except ImportError: pass
claimed = [p for p in props if p in registry.SESSION or p in registry.OTHER]
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=p, quick_cmd='./check ' + p, thorough_cmd='./check %s --thorough' % p, technique=TECH.get(p, AI), level='other', level_note=NOTES.get(p, NOTE)) for p in claimed],
         not_applicable=[dict(property=p, reason=NA.get(p, 'No check yet.')) for p in props if p not in claimed])
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
