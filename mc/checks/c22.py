"""C22: index codes identify a record of one particular file."""
from . import c17
from .c17 import CODE_TAILS, run_case   # noqa: F401
import itertools

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: files with three records and two label columns',
    'an altered code that still carries the same number and checksum (for example in lower case) may be accepted',
    'codes differ in a 32 bit checksum: the altered and foreign codes listed here do not collide by chance',
]


def explore(ctx):
    thorough = ctx.thorough
    edits = "0123456789ABCDEFXabcdefx +-_.,'é\n\0" if thorough else "0159AFXx +-_"
    c17.walk(ctx, [
        ('code', [['code', 'index', row, 0, edits, t] for row in range(1, 5) for t in range(3)] +
                 [['code', 'mapping', row, col, edits, t] for row in range(1, 6) for col in (0, 4) for t in range(2)]),
        ('foreign', [['foreign', kind, col, list(rows), pad, t]
                     for kind, col, n in (('index', 0, 5), ('mapping', 0, 6), ('mapping', 4, 6))
                     for k in range(1, n) for rows in itertools.combinations(range(1, n), k)
                     for pad in ((0, 12) if kind == 'index' else (0,)) for t in range(len(CODE_TAILS[kind]))]),
        ('foreign256', [['foreign', 'mapping', col, rows, pad, 1]
                        for col in (0, 4) for rows in ([1], [2], [1, 2, 3, 4, 5])
                        for pad in ((7, 8, 247, 254, 260) if not thorough else range(240, 262))]),
        ('late', [['late', pad, wrong] for pad in (range(0, 40) if thorough else (0, 1, 7, 8, 9, 10, 11, 12, 30))
                  for wrong in (False, True)]),
    ], 'every single edit of every code of an export, every set of rows with codes of another file, codes at every '
       'listed position, imported with every listed option')
