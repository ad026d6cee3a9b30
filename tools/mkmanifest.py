import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
'C01': ('online reference-model monitor (UTS 35 evaluator over CLDR data) on the real select', 'Every locale x directed, exhaustive-small and random numbers x all carriers; the oracle is an evaluator and parser of our own over our own copy of the CLDR 37 data. Known defective relations are recognised per locale and relation; any other deviation is reported.'),
'C02': ('online reference-model monitor (UTS 35 evaluator over CLDR data) on the real select', 'As C01, for ordinals.'),
'C03': ('monitor of create/get_locales against the CLDR locale sets', 'All CLDR locales in many spellings, all two- and three-letter languages, and neighbours of each locale with other scripts, regions and variants.'),
'C04': ('online oracle on operand conversion (exact decimal arithmetic)', 'Exhaustive short texts plus boundary and random decimal texts; the oracle works on the digits of the text.'),
'C05': ('online oracle on operand conversion of native numbers', 'Exhaustive 8- and 16-bit types, boundary and random values of the others, floats by bit pattern.'),
'C06': ('hostile-input monitor with consistency assertions, panic capture and CPU watchdog', 'Mutated, random and exhaustively enumerated short texts; what counts as a decimal number is decided by a recogniser of our own.'),
'C07': ('differential monitor over carriers of one number', 'All locales x numbers x carriers; caller-made operand tuples are compared with the reference evaluation of exactly these operands.'),
'C08': ('generator-printer oracle on parser executions', 'Random ASTs printed in random spellings must parse back to exactly that AST; all single-relation shapes are enumerated.'),
'C09': ('generator-printer oracle on parser executions', 'Random sample lists printed in random spellings, alone and after conditions.'),
'C10': ('hostile-input monitor: round-trip accounting, reference recogniser, panic capture, CPU watchdog', 'Near-misses of valid rules, token soups and enumerated short texts.'),
'C11': ('differential execution of compiled generator output against the reference evaluator', 'Random rule sets through the real tool, compiled into copies of the library and called; directed numbers per relation.'),
'C12': ('monitor of generated tables and metamorphic runs of the tool', 'Random locale sets and arrangements; tables observed through the compiled library.'),
'C13': ('fault injection into generator inputs with acceptance monitor', 'One fault per input at random positions; library call and tool process observed.'),
'C14': ('differential execution: regenerated rules against shipped rules', 'All locales, directed and random numbers, through two compiled libraries.'),
'C15': ('process and file-system monitor of the tool under injected faults', 'Exit status and file effects observed for combinations of inputs, flags and faults, in scratch directories.'),
'C16': ('history and schedule monitor against isolated executions; ThreadSanitizer; Miri', 'Forked pristine histories, long histories, thread rounds on shared and cloned instances, ThreadSanitizer and Miri race detection. Held on the schedules seen.'),
'C17': ('Miri, AddressSanitizer and LeakSanitizer, unsafe-precondition checks', 'Undefined behaviour, memory errors and leaks in the calls made; table identifiers compared with parsed ones.'),
'C18': ('offline comparison of event logs: native against Miri for 32-bit and big-endian targets', 'The same calls on x86-64, i686 and s390x (thorough: powerpc too), compared event by event.'),
'C19': ('online monitor of category membership on arbitrary operand tuples, panic capture', 'All locales x arbitrary tuples (NaN, infinities, inconsistent), samples, random numbers; category sets from our own copy of CLDR 37.'),
'C20': ('instruction-count monitor (callgrind) and allocation monitor over growing inputs', 'Growth ratio between two sizes of one input family, confirmed by a third; families cover every repeatable piece of texts, rules and generator inputs plus random pumping; memory kept after many different calls.'),
'C21': ('system call trace monitor (strace) and process state monitor around the calls', 'Half a million calls in batches between trace markers; only memory, futex, random seed and clock calls may appear; standard streams, environment, C locale and panic hook observed.'),
'C22': ('online monitor comparing ==, !=, Clone and Debug with an encoding read from the public fields', 'Random ASTs and operands, each with copies changed in one place (every kind of place), the enums in full.'),
}
m = {'version': 1, 'setup_cmd': './check setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: every property is observed at the public API, in the compiled output or at the process boundary. See DESIGN.md.'}
for k, (t, n) in T.items():
    m['checks'].append({'property': k, 'quick_cmd': f'VERIF_TIER=quick ./check {k}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {k}', 'evidence_file': f'evidence/{k}.json', 'technique': 'runtime monitoring: ' + t, 'level': 'exploration', 'level_note': n})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
