"""Writes ../MANIFEST.json from the checks that exist (mc/checks/*.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

LOCKSTEP = ('explicit-state model checking: breadth-first search of all operation sequences to a depth, '
            'model and real code in lockstep')
NOTE = ('Exhaustive within the stated operation alphabet, set-ups and depth; every transition of the model is executed '
        'on the real library and the full observable state compared. Trusts the hand-written model as the meaning of '
        'the property, SQLite, and CPython.')
ENUM = 'bounded-exhaustive enumeration of inputs on the real code against an independent oracle'
ENUM_NOTE = ('Exhaustive within the stated small scope; every case runs the real library and is judged by an '
             'independently written oracle. Says nothing beyond the scope.')
CHECKS = {
    'C01': (ENUM, ENUM_NOTE),
    'C02': (ENUM, ENUM_NOTE),
    'C03': (ENUM, ENUM_NOTE),
    'C04': ('systematic fault injection: every statement, callback and input position of every operation fails once',
            'Exhaustive over fault points of the listed operations; every faulted run is compared by full dump with the '
            'state before, and retried.'),
    'C05': ('exhaustive crash-point and fault enumeration of the save protocol under an LD_PRELOAD shim, plus lost-write states',
            'Every system call of a save is a crash point and a fault point; power-loss states are derived from the '
            'logged calls under a stated file-system model.'),
    'C06': ('explicit-state exploration of operation sequences with storage mode and reload points as nondeterminism',
            'Exhaustive over the listed sequences, modes and reload points; compares full dumps and answers.'),
    'C14': (ENUM, ENUM_NOTE),
    'C15': (ENUM, ENUM_NOTE),
    'C17': (ENUM, ENUM_NOTE),
    'C18': ('exhaustive enumeration of crash points, fault points and old-format inputs of the upgrade on the real code',
            'Exhaustive over the listed files and points.'),
    'C19': ('exhaustive enumeration of operations and modes on the real code with byte-level monitoring', ENUM_NOTE),
    'C20': ('stateless model checking: all interleavings of two clients at SQL-statement granularity, serialisability oracle',
            'Exhaustive over the schedules of the listed operation pairs up to the stated preemption bound.'),
    'C21': (ENUM, ENUM_NOTE),
    'C22': (ENUM, ENUM_NOTE),
    'C23': (ENUM, ENUM_NOTE),
    'C25': (ENUM, ENUM_NOTE),
    'C26': (ENUM, ENUM_NOTE),
}

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    i = p['id']
    path = os.path.join(ROOT, 'mc', 'checks', i.lower() + '.py')
    if not os.path.exists(path):
        missing.append({'property': i, 'reason': 'check not built yet'})
        continue
    level = next(l.split("'")[1] for l in open(path) if l.startswith('LEVEL'))
    tech, note = CHECKS.get(i, (LOCKSTEP, NOTE))
    checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                   'technique': tech, 'level': level, 'level_note': note})
doc = {'version': 1,
       'setup_cmd': './setup.sh',
       'checks': checks, 'not_applicable': missing,
       'notes': 'No hooks in /repo: all control is taken from outside (patched sqlite3 module attributes, LD_PRELOAD shim).'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', 'missing', [m['property'] for m in missing])
