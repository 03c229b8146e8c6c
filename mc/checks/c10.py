"""C10: the partition structure is the closure of its definitions and current."""
import itertools
import math
from .. import core, lockstep, real, rows
from ..model import closure, irreducible, SpaceModel
from ..real import op, L, S, SET
from ..scenes import AB, RECS, LINKS, PARTS, WEIGHTS, QUANTS, ABC, HOLES, widen

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: families of definitions over at most four columns, index subsets of a 2x2x2 cube, '
    'sequences up to the stated depth',
]

AREAS = {'pdefs', 'structure', 'granularity', 'observe'}
PART_OPS = {'add_partition_definitions', 'add_partition_definition', 'drop_partition_definitions'}


def relevant(name, area):
    if area in AREAS:
        return True
    if name == 'insert_quantities2':
        return area in ('outcome', 'quantities', 'unmatched')
    return name in PART_OPS and area == 'outcome'


H = ['A', 'B', 'C']
HI = ['index_id', 'A', 'B', 'C']
SETUP = ABC + [op('insert_index', [H, ['a1', 'b1', 'c1'], ['a1', 'b1', 'c2'], ['a1', 'b2', 'c1'],
                                   ['a2', 'b1', 'c1']]),
               op('set_registered_attributes', ['cat'])]


def Q(*rows, **kw):
    return op('insert_quantities2', value_column='v',
              data=[['A', 'B', 'C', 'cat', 'v']] + [list(r) for r in rows], **kw)


DEF_OPS = [
    op('add_partition_definition', SET('A')),
    op('add_partition_definition', SET('B', 'C')),
    op('add_partition_definition', SET('A', 'B')),
    op('add_partition_definition', SET('A', 'B', 'C')),
    op('add_partition_definition', SET('X')),
    op('add_partition_definitions', SET('A'), SET('B')),
    op('add_partition_definitions', SET('A', 'B'), SET('A'), SET('A', 'C')),
    op('add_partition_definitions', SET('C'), SET('Z')),
    op('drop_partition_definitions', SET('A')),
    op('drop_partition_definitions', SET('A', 'B'), SET('B')),
    op('drop_partition_definitions', SET('A', 'B', 'C')),
    op('drop_partition_definitions', SET('B', 'C')),
]
HW = HI + ['w1']
LOAD_OPS = [
    op('insert_index', [HW, [1, 'a9', 'b1', 'c1', 2.0]], on_label_conflict='replace'),
    op('insert_index', [HW, [2, 'a2', 'b2', 'c2', 2.0], [3, 'a1', 'b2', 'c1', 3.0]], on_label_conflict='replace',
       on_weight_conflict='replace'),
    op('insert_index', [HW, [2, 'a2', 'b2', 'c2', 2.0], [3, 'a7', 'b2', 'c1', '']], on_label_conflict='replace',
       on_weight_conflict='ignore'),
    op('insert_index', [HW, [2, 'a2', 'b2', 'c2', 2.0], ['', 'a7', 'b7', 'c7', 1.0]], on_label_conflict='ignore',
       on_weight_conflict='ignore'),
    op('insert_index', [HW, [1, 'a3', 'b1', 'c1', ''], ['', 'a8', 'b1', 'c1', '']], on_label_conflict='replace'),
    op('insert_index', [H + ['w1'], ['a4', 'b1', 'c1', 5.0], ['a1', 'b1', 'c1', 1.0], ['', 'b1', 'c1', 1.0]],
       on_weight_conflict='ignore'),
    op('insert_index', [['index_id', 'w1'], [1, 4.0], [2, 0.0]], on_weight_conflict='replace'),
    op('update_index', [HI, [1, 'a2', 'b1', 'c1'], [9, 'a2', 'b1', 'c1'], [2, 'a5', '', 'c1']], merge_on_conflict=True),
    op('update_index', [HI, [1, 'a2', 'b1', 'c1'], [2, 'a2', 'b3', 'c1']], merge_on_conflict=True),
    op('update_index', [HI, [1, 'a6', 'b1', 'c1'], [9, 'a2', 'b1', 'c1']]),
    op('delete_index', [HI, [3, 'a1', 'b2', 'c1'], [9, 'a1', 'b1', 'c1'], [1, 'zz', 'b1', 'c1']]),
    op('delete_weights', 'w1', A='a1'),
]
INDEX_OPS = [
    op('insert_index', [H, ['a3', 'b1', 'c2'], ['a1', 'b2', 'c2']]),
    op('insert_index', [HI, [1, 'a9', 'b1', 'c1']], on_label_conflict='replace'),
    op('update_index', [HI, [2, 'a2', 'b2', 'c2']]),
    op('update_index', [HI, [1, 'a2', 'b1', 'c1']], merge_on_conflict=True),
    op('update_index', [HI, [4, 'a1', 'b2', 'c1']], merge_on_conflict=True),
    op('delete_index', A='a1', B='b1'),
    op('delete_index', A='a2'),
    op('delete_index', A='a1'),
    op('delete_index', [HI, [3, 'a1', 'b2', 'c1']]),
]
COLUMN_OPS = [
    op('add_index_columns', 'D'),
    op('rename_index_columns', {'A': 'Z'}),
    op('rename_label_column', 'B', 'Y'),
    op('drop_index_columns', 'C'),
    op('drop_index_columns', 'A', 'B'),
]
QUANTITY_OPS = [
    Q(['a1', 'b1', 'c1', 'x', 1.0]),
    Q(['a1', '', '', 'x', 1.0]),
    Q(['a1', 'b1', '', 'x', 1.0]),
    Q(['', '', '', 'x', 1.0]),
    Q(['', 'b1', 'c1', 'x', 1.0], ['', '', 'c1', 'y', 1.0]),
    Q(['', 'b1', '', 'x', 1.0], allow_invalid_partition=True),
]


# -- families of definitions ----------------------------------------------
def powerset(names):
    return [frozenset(c) for n in range(1, len(names) + 1) for c in itertools.combinations(names, n)]


def family_case(case):
    """One family of definitions through the public API, from scratch."""
    res = core.Result()
    cols = case['cols']
    sp = real.DataSpace()
    model = SpaceModel()
    steps = [op('add_index_columns', *cols),
             op('insert_index', [cols] + [[f'{c}{1 + (n >> i & 1)}' for i, c in enumerate(cols)]
                                          for n in range(5)])]
    if case['family']:
        steps.append(op('add_partition_definitions', *[SET(*d) for d in case['family']]))
    if case.get('drop'):
        steps.append(op('drop_partition_definitions', *[SET(*d) for d in case['drop']]))
    for step in steps:
        err = real.call(sp, step)
        try:
            model = real.model_call(model, step)
            refused = False
        except lockstep.Refused:
            refused = True
        res.count('transitions')
        if (err is not None) != refused:
            res.fail(f'family:outcome:{core.digest(case)}', f'{step!r}: {err!r}', case)
            return res
    bad = [d for d in real.compare(model, real.observe(sp)) if d[0] in AREAS]
    if bad:
        res.fail(f'family:{core.digest(case)}', f'{case}: ' + '\n'.join(map(str, bad)), case)
    res.outcome(sorted(map(sorted, model.pdefs)))
    return res


def families(thorough):
    for cols, sizes in ((['A', 'B', 'C'], range(8)), (['A', 'B', 'C', 'D'], range(5 if thorough else 4))):
        sets = [sorted(s) for s in powerset(cols)]
        for n in sizes:
            for fam in itertools.combinations(sets, n):
                yield {'kind': 'family', 'cols': cols, 'family': fam}
                if n and len(cols) == 3:
                    yield {'kind': 'family', 'cols': cols, 'family': list(reversed(fam))}
                    for d in range(1, n + 1) if thorough else (1,):
                        for drop in itertools.combinations(fam, d):
                            yield {'kind': 'family', 'cols': cols, 'family': fam, 'drop': drop}


# -- the pure functions ----------------------------------------------------
def pure_case(case):
    """All families containing one given prefix, through the partition functions."""
    from toron.partitions import make_structure, find_minimal_partition_generating_set
    res = core.Result()
    sets = powerset('ABCD')
    lo, hi = case['range']
    for bits in range(lo, hi):
        fam = [set(s) for i, s in enumerate(sets) if bits >> i & 1]
        res.count('transitions')
        got = make_structure(fam) if len(fam) <= case['max'] else None
        want = None
        if got is not None:
            want = closure(fam) if len(fam) < 9 else None
            gset = {frozenset(x) for x in got}
            if want is not None and (gset != want or len(got) != len(gset)):
                res.fail(f'structure:{bits}', f'make_structure({fam}) = {got}', dict(case, range=(bits, bits + 1)))
        gen = find_minimal_partition_generating_set(fam)
        gens = {frozenset(x) for x in gen}
        if gens != set(irreducible(fam)) or len(gen) != len(gens):
            res.fail(f'minimal:{bits}', f'find_minimal_partition_generating_set({fam}) = {gen}',
                     dict(case, range=(bits, bits + 1)))
        res.outcome(sorted(map(sorted, gens)))
    return res


# -- granularity of every index over a cube --------------------------------
def granularity_case(case):
    res = core.Result()
    cols = ['A', 'B', 'C']
    cube = list(itertools.product(['1', '2'], repeat=3))
    for bits in range(*case['range']):
        rows = [list(r) for i, r in enumerate(cube) if bits >> i & 1]
        rest = [list(r) for i, r in enumerate(cube) if not bits >> i & 1]
        steps = [op('add_index_columns', *cols),
                 op('insert_index', [cols] + rows),
                 op('add_partition_definitions', SET('A'), SET('B'), SET('C'))]
        if case['grow'] and rest:
            steps.append(op('insert_index', [cols] + rest[:2]))
        if case['grow'] and rows:
            steps.append(op('delete_index', **dict(zip(cols, rows[0]))))
        sp, model = lockstep.build(steps)
        bad = [d for d in real.compare(model, real.observe(sp)) if d[0] in AREAS]
        res.count('transitions', len(steps))
        if bad:
            res.fail(f'granularity:{bits}:{case["grow"]}', f'{steps!r}: ' + '\n'.join(map(str, bad)),
                     dict(case, range=(bits, bits + 1)))
        res.outcome(sorted((sorted(s), model.granularity(s)) for s in model.structure()))
    return res


CASES = {'family': family_case, 'pure': pure_case, 'granularity': granularity_case}


def run_case(case):
    if 'kind' in case:
        return CASES[case['kind']](case)
    return lockstep.run_path(case, relevant)


def explore(ctx):
    deep = 5 if ctx.thorough else 4
    lockstep.explore_machine(ctx, 'definitions', [SETUP], DEF_OPS + INDEX_OPS, deep, relevant)
    lockstep.explore_machine(ctx, 'loads with weights', [SETUP + [
        op('add_partition_definitions', SET('A'), SET('B', 'C')), op('add_weight_group', 'w1'),
        op('insert_weights', 'w1', [H + ['w1'], ['a1', 'b1', 'c1', 1.0], ['a1', 'b2', 'c1', 2.0]])]],
        LOAD_OPS + INDEX_OPS + DEF_OPS[8:10], 3 if ctx.thorough else 2, relevant)
    lockstep.explore_machine(ctx, 'definitions, columns and quantities', [SETUP],
                             DEF_OPS[::2] + INDEX_OPS[:4] + COLUMN_OPS + QUANTITY_OPS, deep, relevant)
    lockstep.explore_machine(ctx, 'populated', [AB + RECS + WEIGHTS + PARTS + LINKS + QUANTS],
                             [op('add_partition_definitions', SET('B')),
                              op('drop_partition_definitions', SET('A')),
                              op('add_index_columns', 'C'), op('drop_index_columns', 'A'),
                              op('drop_index_columns', 'B'), op('rename_index_columns', {'A': 'B', 'B': 'A'}),
                              op('rename_index_columns', {'B': 'Z'}),
                              op('add_partition_definitions', SET('C')),
                              op('delete_index', B='b2'), op('delete_unmatched_quantities'),
                              op('drop_link', S('S1'), 'm1')],
                             deep, relevant)
    # Nine columns (levels of two bytes).
    lockstep.explore_machine(ctx, 'nine columns', [widen(AB + RECS + PARTS + LINKS + QUANTS)],
                             [op('add_partition_definitions', SET('B')), op('add_partition_definitions', SET('A', 'B'), SET('P7', 'B')),
                              op('add_partition_definitions', SET('P1')), op('drop_partition_definitions', SET('A')),
                              op('drop_partition_definitions', SET('A', 'B')), op('drop_partition_definitions', SET('P7', 'B')),
                              op('add_index_columns', 'C'), op('drop_index_columns', 'B'), op('drop_index_columns', 'P1', 'P2'),
                              op('rename_index_columns', {'A': 'B', 'B': 'A'}), op('delete_index', B='b2'),
                              op('delete_unmatched_quantities'), op('drop_link', S('S1'), 'm1')], deep - 1, relevant)
    n = 2 ** 15
    step = 256
    ctx.run(pure_case, [{'kind': 'pure', 'range': (lo, lo + step), 'max': 8 if ctx.thorough else 6}
                        for lo in range(0, n, step)], label='families (functions)')
    ctx.run(family_case, families(ctx.thorough), label='families (spaces)')
    ctx.run(granularity_case, [{'kind': 'granularity', 'range': (lo, lo + 8), 'grow': g}
                               for g in (False, True) for lo in range(1, 256, 8)], label='granularity')
    for setup, steps in rows.mixed(ctx, 'insert_index', 'update_index', 'delete_index'):
        lockstep.explore_machine(ctx, 'mixed rows', [setup], steps, 1, relevant)
