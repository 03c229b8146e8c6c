"""C13: merging index records preserves totals."""
import itertools
import math
from .. import core, lockstep, real, rows
from ..real import op, L, S, SET
from ..scenes import AB, RECS, LINKS, PARTS, WEIGHTS, QUANTS, widen

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: up to five records, two weight groups, three links, up to three relabelling rows '
    'per call, sequences up to the stated depth',
    'totals are compared with a relative tolerance of 1e-9',
]


def relevant(name, area):
    return name == 'update_index'


HI = ['index_id', 'A', 'B']
F_, A_ = L([1, 1]), L([1, 0])
RECS5 = [op('insert_index', [['A', 'B'], ['a1', 'b1'], ['a1', 'b2'], ['a2', 'b1'], ['a2', 'b2']])]
AWKWARD = 0.1
SETUP = AB + RECS5 + [
    op('add_weight_group', 'w1'),
    op('add_weight_group', 'w2', selectors='[cat="y"]'),
    op('insert_weights', 'w1', [['A', 'B', 'w1'], ['a1', 'b1', AWKWARD], ['a1', 'b2', 0.2],
                                ['a2', 'b1', 0.7], ['a2', 'b2', 0.0]]),
    op('insert_weights', 'w2', [['A', 'B', 'w2'], ['a1', 'b1', 3.0], ['a2', 'b2', 1e16]]),
    op('add_partition_definitions', SET('A')),
    op('add_link', S('S1'), 'm1'),
    op('add_link', S('S1'), 'm2'),
    op('add_link', S('S2'), 'm1'),
    op('insert_mappings2', S('S1'), 'm1',
       [['other_index_id', 'index_id', 'mapping_level', 'm1'],
        [1, 1, F_, AWKWARD], [1, 2, F_, 0.2], [1, 3, F_, 0.7], [2, 4, F_, 1.0], [2, 1, F_, 0.0],
        [3, 2, F_, 5.0], [0, 3, F_, 2.0], [0, 1, F_, 1.0]]),
    op('insert_mappings2', S('S1'), 'm2',
       [['other_index_id', 'index_id', 'mapping_level', 'm2'],
        [1, 1, A_, 2.0], [1, 2, A_, 3.0], [1, 1, F_, 4.0], [2, 3, A_, 1.0], [2, 4, F_, 1.0]]),
    op('insert_mappings2', S('S2'), 'm1',
       [['other_index_id', 'index_id', 'mapping_level', 'm1'],
        [1, 4, F_, 0.0], [1, 2, F_, 0.0], [2, 3, F_, 1.0]]),
    op('set_registered_attributes', ['cat']),
    op('insert_quantities2', value_column='v', data=[
        ['A', 'B', 'cat', 'v'], ['a1', 'b1', 'x', 10.0], ['a1', '', 'x', 7.0], ['a2', '', 'y', 3.0]]),
]
TARGETS = [['a1', 'b1'], ['a1', 'b2'], ['a2', 'b1'], ['a2', 'b2'], ['a3', 'b3'], ['-', 'b1'], ['a1', '-']]


def alphabet(rows_per_call):
    rows = [[i] + t for i in (1, 2, 3, 4) for t in TARGETS]
    for row in rows:
        yield op('update_index', [HI, row], merge_on_conflict=True)
        yield op('update_index', [HI, row])
    if rows_per_call > 1:
        short = [[i] + t for i in (1, 2, 3, 4) for t in TARGETS[:5]]
        for batch in itertools.product(short, repeat=2):
            yield op('update_index', [HI] + [list(r) for r in batch], merge_on_conflict=True)
    if rows_per_call > 2:
        short = [[i] + t for i in (1, 2, 3, 4) for t in TARGETS[:4]]
        for batch in itertools.product(short, repeat=3):
            yield op('update_index', [HI] + [list(r) for r in batch], merge_on_conflict=True)


def rest(thorough):
    return [
        op('delete_index', [HI, [4, 'a2', 'b2']]),
        op('drop_link', S('S1'), 'm2'),
        op('drop_weight_group', 'w2'),
        op('insert_index', [['A', 'B'], ['a3', 'b3']]),
        op('insert_weights', 'w2', [['A', 'B', 'w2'], ['a1', 'b2', 2.0]], on_conflict='ignore'),
        op('reify_mappings', S('S1'), 'm2'),
    ]


def totals(space, model, obs, res, case):
    """Disaggregated and translated totals are those of the stored data."""
    if case['ops'][-1][0] != 'update_index':
        return
    default = [g for g in model.groups if g['key'] == model.default]
    if default and model.group_complete(default[0]) and not model.unmatched():
        want = {}
        for (lab, attrs), v in model.q.items():
            want.setdefault(attrs, []).append(v)
        want = {a: math.fsum(v) for a, v in want.items()}
        got = {}
        reader = space()
        keys = reader.columns[len(model.cols):-1]
        for row in reader:
            attrs = frozenset((k, v) for k, v in zip(keys, row[len(model.cols):-1]) if v is not None)
            got.setdefault(attrs, []).append(row[-1])
        got = {a: math.fsum(v) for a, v in got.items()}
        reader.close()
        res.count('disaggregations')
        if set(got) != set(want) or any(not real.close(got[a], want[a]) for a in want):
            res.fail(f'totals:{core.digest(case)}', f'disaggregated totals {got} differ from the stored '
                     f'{want} after {case["ops"]}', case)


def run_case(case):
    return lockstep.run_path(case, relevant, [totals])


def explore(ctx):
    single = list(alphabet(1))
    lockstep.explore_machine(ctx, 'merge chains', [SETUP], single + rest(ctx.thorough),
                             3 if ctx.thorough else 2, relevant, [totals])
    merges = [o for o in single if o[2]]
    lockstep.explore_machine(ctx, 'merge chains (deep)', [SETUP], merges[:5] + merges[7:12] + merges[14:19]
                             + rest(ctx.thorough)[:2], 4 if ctx.thorough else 3, relevant, [totals])
    lockstep.explore_machine(ctx, 'several rows per call', [SETUP],
                             list(alphabet(3 if ctx.thorough else 2)), 1, relevant, [totals])
    lockstep.explore_machine(ctx, 'three rows per call', [AB + RECS5 + SETUP[2:6]],
                             list(alphabet(3)), 1, relevant)
    lockstep.explore_machine(ctx, 'nine columns', [widen(SETUP)], widen(single[::3] + rest(ctx.thorough)),
                             2 if ctx.thorough else 1, relevant, [totals])
    for setup, steps in rows.mixed(ctx, 'update_index', most=3):
        lockstep.explore_machine(ctx, 'mixed rows', [setup], steps, 1, relevant)
