"""C07: index records keep a unique, stable identity."""
import itertools
from .. import core, lockstep, real, rows
from ..real import op, L, S
from ..scenes import AB, RECS, WEIGHTS, LINKS, PARTS, QUANTS, HOLES

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: two label columns over two or three labels, at most a handful of records, '
    'sequences up to the stated depth; S1 has three records',
    'the fingerprint of a set of ids is compared with the one the library gives another space '
    'that reached the same set of ids by another history',
]

INDEX_OPS = {'insert_index', 'update_index', 'delete_index', 'insert_index_OLD'}


def relevant(name, area):
    return area in ('index', 'fingerprint', 'observe') or \
        (name in INDEX_OPS and area in ('outcome', 'orphans'))


H = ['A', 'B']
HI = ['index_id', 'A', 'B']
ALPHABET = [
    op('insert_index', [H, ['a1', 'b1'], ['a3', 'b3']]),
    op('insert_index', [H, ['a1', 'b2']]),
    op('insert_index', [H, ['a4', 'b4'], ['a2', 'b2'], ['a4', 'b4']]),
    op('insert_index', [H, ['a5', ''], ['a5', 'b5']]),
    op('insert_index', [H, ['a5', 'b5'], ['a5', '']]),
    op('insert_index', [H, ['-', '-'], ['-', 'b1']]),
    op('insert_index', [HI, [1, 'a1', 'b1'], ['', 'a6', 'b6']]),
    op('insert_index', [HI, [1, 'a3', 'b3']], on_label_conflict='replace'),
    op('insert_index', [HI, [1, 'a2', 'b1']], on_label_conflict='replace'),
    op('insert_index', [HI, [3, 'a9', 'b9']], on_label_conflict='ignore'),
    op('insert_index', [HI, [3, 'a9', 'b9']]),
    op('insert_index', [HI, [0, 'a9', 'b9']], on_label_conflict='replace'),
    op('insert_index', [HI, [99, 'a9', 'b9']], on_label_conflict='replace'),
    op('update_index', [HI, [1, 'a3', 'b3']]),
    op('update_index', [HI, [1, 'a2', 'b1']]),
    op('update_index', [HI, [1, 'a2', 'b1']], merge_on_conflict=True),
    op('update_index', [HI, [3, 'a1', 'b1'], [3, 'a1', 'b2']], merge_on_conflict=True),
    op('update_index', [HI, [1, '-', '-']], merge_on_conflict=True),
    op('update_index', [HI, [0, 'a7', 'b7']], merge_on_conflict=True),
    op('update_index', [HI, [1, '', 'b1'], [2, 'a7', 'b7'], [50, 'a1', 'b1']]),
    op('delete_index', A='a1'),
    op('delete_index', A='a1', B='b1'),
    op('delete_index', A='a3'),
    op('delete_index', B='b1'),
    op('delete_index', A='-'),
    op('delete_index', [HI, [2, 'a1', 'b2'], [1, 'a1', 'b2']]),
    op('delete_index', [HI, [4, 'a3', 'b3'], [5, 'a3', 'b3'], [77, 'a1', 'b1']]),
    op('delete_index', [HI, [0, '-', '-']]),
    op('delete_index', index_id=3),
    op('delete_index', [HI, [2, 'a1', 'b2']], A='a1'),
    op('delete_index', [['A', 'B'], ['a1', 'b2']]),
    op('delete_index', [['index_id', 'A'], [2, 'a1']]),
]
COLUMN_OPS = [
    op('add_index_columns', 'C'),
    op('rename_index_columns', {'A': 'Z'}),
    op('drop_index_columns', 'B'),
    op('rename_label_column', 'A', 'Z'),
]
SETUPS = [
    AB + RECS,
    HOLES,
    AB + RECS + WEIGHTS + PARTS + LINKS + QUANTS,
]

# Labels that differ only in ways a storage layer might blur.
TRICKY = ['1', '01', '1.0', 'a', 'A', ' a', "it's", '"q"', '%', '_', '\u00e9', 'e\u0301', '--', 'NULL', 'a\x1fb']
TRICKY_OPS = (
    [op('insert_index', [['A', 'B'], [t, t]]) for t in TRICKY]
    + [op('delete_index', A=t) for t in TRICKY]
    + [op('update_index', [HI, [1, t, t]]) for t in TRICKY[:9]]
    + [op('insert_index', [HI, [1, t, t]], on_label_conflict='replace') for t in TRICKY[:9]]
)

# Label pairs that coincide when joined, swapped or looked up without their column.
PAIRS = [('a', 'bc'), ('ab', 'c'), ('bc', 'a'), ('a', 'a'), ('a,b', 'c'), ('a', 'b,c'), ('-', 'a'), ('a', '-'), ('0', '1'),
         ('1', '0')]
PAIR_OPS = (
    [op('insert_index', [H, list(a), list(b)]) for a, b in itertools.combinations(PAIRS, 2)]
    + [op('insert_index', [H] + [list(a) for a in PAIRS[n:n + 6]]) for n in range(5)]
    + [op('delete_index', A=a, B=b) for a, b in PAIRS]
    + [op('delete_index', A=a) for a in sorted({a for a, b in PAIRS})]
    + [op('delete_index', [HI, [1] + list(a), [2] + list(b)]) for a, b in itertools.permutations(PAIRS[:5], 2)]
    + [op('update_index', [HI, [1] + list(a), [2] + list(b)], merge_on_conflict=m)
       for a, b in itertools.permutations(PAIRS[:6], 2) for m in (False, True)]
)

# Column names that need quoting.
ODD = ['A "x"', "o'b", 'select', 'c;--', 'x y', '[z]', 'index', 'label_index']


def odd_names():
    for name in ODD:
        setup = [op('add_index_columns', name, 'B'),
                 op('insert_index', [[name, 'B'], ['a1', 'b1'], ['a2', 'b2']])]
        hi = ['index_id', name, 'B']
        ops = [
            op('insert_index', [[name, 'B'], ['a3', 'b3']]),
            op('insert_index', [hi, [1, 'a3', 'b1']], on_label_conflict='replace'),
            op('update_index', [hi, [1, 'a2', 'b2']], merge_on_conflict=True),
            op('update_index', [hi, [2, 'a9', 'b1']]),
            op('delete_index', **{name: 'a1'}),
            op('delete_index', [hi, [2, 'a2', 'b2']]),
            op('add_index_columns', 'A'),
            op('rename_index_columns', {name: 'A'}),
            op('drop_index_columns', name),
            op('change_label_order', 'B', -1),
        ]
        yield name, setup, ops


UNIVERSE = 12


def subset_case(case):
    """Reach one set of ids by different histories; return its fingerprint."""
    res = core.Result()
    keep = case['ids']
    n = case['n']
    hashes = {}
    orders = {'ascending': range(1, n + 1), 'descending': range(n, 0, -1)}
    for how, order in orders.items():
        sp = real.DataSpace()
        sp.add_index_columns('A', 'B')
        sp.insert_index([['A', 'B']] + [[f'a{i}', f'b{i}'] for i in range(1, n + 1)])
        for i in order:
            if i not in keep:
                if how == 'ascending':
                    sp.delete_index(A=f'a{i}')
                else:
                    sp.delete_index([['index_id', 'A', 'B'], [i, f'a{i}', f'b{i}']])
        if how == 'descending':   # labels must not matter
            for i in keep:
                sp.update_index([['index_id', 'A', 'B'], [i, f'z{i}', 'b']])
        hashes[how] = sp.select_weights('none').index_hash
        res.count('transitions', n)
        ids = sorted(r[0] for r in sp.select_index() if r[0] != 'index_id')
        if ids != sorted([0] + keep):
            res.fail(f'ids:{core.digest(case)}', f'{case}: {how} history left ids {ids}', case)
    if len(set(hashes.values())) != 1:
        res.fail(f'history:{core.digest(case)}',
                 f'fingerprint of ids {keep} depends on the history: {hashes}', case)
    res.data = hashes['ascending']
    res.outcome(res.data)
    return res


def subsets(n, thorough):
    for bits in range(2 ** n):
        ids = [i for i in range(1, n + 1) if bits >> (i - 1) & 1]
        yield {'kind': 'subset', 'n': n, 'ids': ids}


def run_case(case):
    if case.get('kind') == 'subset':
        return subset_case(case)
    if case.get('kind') == 'collision':
        a, b = case['a'], case['b']
        res = core.Result()
        ha, hb = subset_case(a).data, subset_case(b).data
        if ha == hb:
            res.fail('collision', f'ids {a["ids"]} and {b["ids"]} share the fingerprint {ha}', case)
        return res
    return lockstep.run_path(case, relevant)


def explore(ctx):
    deep = 4 if ctx.thorough else 3
    lockstep.explore_machine(ctx, 'index', SETUPS, ALPHABET, deep, relevant)
    lockstep.explore_machine(ctx, 'index and columns', SETUPS[2:],
                             ALPHABET[::2] + COLUMN_OPS, deep, relevant)
    lockstep.explore_machine(ctx, 'similar labels',
                             [AB + [op('insert_index', [H, ['x', 'y']])]],
                             TRICKY_OPS, 3 if ctx.thorough else 2, relevant)
    lockstep.explore_machine(ctx, 'label pairs', [AB, AB + [PAIR_OPS[0], PAIR_OPS[-1]]], PAIR_OPS,
                             2 if ctx.thorough else 1, relevant)
    lockstep.explore_machine(ctx, 'two label pairs', [AB + [op('insert_index', [H] + [list(a) for a in PAIRS[:5]])]],
                             PAIR_OPS[45:], 2, relevant)
    for name, setup, ops in odd_names():
        lockstep.explore_machine(ctx, f'column {name}', [setup], ops,
                                 3 if ctx.thorough else 2, relevant)
    seen = {}
    n = 0
    for size in ([UNIVERSE] if ctx.thorough else [11]):
        for case, fp in ctx.map(subset_case, subsets(size, ctx.thorough), label='id sets'):
            n += 1
            if fp in seen and seen[fp]['ids'] != case['ids']:
                res = core.Result()
                res.fail('collision', f'ids {seen[fp]["ids"]} and {case["ids"]} share the '
                         f'fingerprint {fp}', {'kind': 'collision', 'a': seen[fp], 'b': case})
                ctx.absorb(res.violations, res.counts, res.outcomes)
                break
            seen[fp] = case
    ctx.counts['states'] = ctx.counts.get('states', 0) + len(seen)
    ctx.cov['id_sets'] = n
    for setup, steps in rows.mixed(ctx, 'insert_index', 'update_index', 'delete_index'):
        lockstep.explore_machine(ctx, 'mixed rows', [setup], steps, 1, relevant)
