"""C23: commands back up what they change, and refused commands change nothing."""
from . import c17
from .c17 import CHANGING, COMMANDS, PLACES, run_case   # noqa: F401

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the listed commands and file layouts; linear pairs of files (the same file is not given twice)',
    'commands that change both files do so one after the other: a storage error at the second leaves the first changed',
    'a malformed selector is not refused by the tool (outside this property)',
]


def explore(ctx):
    c17.walk(ctx, [
        ('backup', [['backup', n, place, mode, form] for n in range(len(COMMANDS)) for place in PLACES
                    for mode in ('plain', 'stale', 'none', 'blocked') for form in ('absolute', 'relative', 'here')]),
        ('clash', [['clash', args, stdin, swap] for args, stdin in (
            (['mapping', '@', 'k', '--allow-incomplete'], 'A,B,k,A,B\na1,b1,1,a1,b1\n'),
            (['add', 'link', '@', 'n'], None), (['remove', 'link', '@', 'm'], None)) for swap in (False, True)]),
        ('half', [['half', what, holders, mode] for what in ('mapping', 'link')
                  for holders in ('', '1', '2', '12') for mode in ('plain', 'none')]),
        ('init', [['init', situation, domain, mode]
                  for situation in ('new', 'taken', 'foreign', 'directory', 'nowhere', 'blank', 'odd')
                  for domain in (None, 'dom') for mode in ('absolute', 'relative')]),
        ('fault', [['fault', n, kind] for n, command in enumerate(COMMANDS)
                   for kind in (('error', 'full', 'abort', 'interrupt') if ctx.thorough else ('error',))
                   if ctx.thorough or command[0] in CHANGING]),
    ], 'every modifying command x backup situation x file layout x form of the paths')
