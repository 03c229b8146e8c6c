"""C12: removal is complete, exact and final."""
from .. import core, lockstep, real, rows
from ..real import op, L, S, SET
from ..scenes import AB, RECS, LINKS, PARTS, WEIGHTS, QUANTS, COARSE

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: three index records, two weight groups, three links, six quantities, sequences up '
    'to the stated depth, in each storage mode',
    'a record that takes part in a mapping of coarser level cannot be deleted (documented refusal)',
]

REMOVALS = {'delete_index', 'drop_weight_group', 'drop_link', 'delete_weights', 'delete_mappings',
            'delete_quantities_without_index', 'delete_unmatched_quantities'}


def relevant(name, area):
    """Everything after a removal; and what a creation starts with."""
    if name in REMOVALS:
        return True
    if name in ('add_weight_group', 'add_link', 'insert_index'):
        return area not in ('outcome', 'complete', 'link_complete', 'granularity', 'structure', 'pdefs')
    return area == 'orphans'


H = ['A', 'B']
HI = ['index_id', 'A', 'B']
F_ = L([1, 1])
REMOVE = [
    op('delete_index', A='a1', B='b1'),
    op('delete_index', A='a1'),
    op('delete_index', B='b1'),
    op('delete_index', A='a2'),
    op('delete_index', Z='a1'),
    op('delete_index', A='a1', Z='q'),
    op('delete_index', A=''),
    op('delete_index', [HI, [1, 'a1', 'b1'], [2, 'zz', 'b2'], [3, 'a2', 'b1']]),
    op('drop_weight_group', 'w1'),
    op('drop_weight_group', 'w2'),
    op('drop_weight_group', 'nope'),
    op('drop_link', S('S1'), 'm1'),
    op('drop_link', S('S1'), 'm2'),
    op('drop_link', S('S2'), 'm1'),
    op('delete_weights', 'w1', A='a1'),
    op('delete_weights', 'w2', Z='a1'),
    op('delete_weights', 'w1', A='a1', Z='a1'),
    op('delete_weights', 'w1', [HI, [3, 'a2', 'b1']]),
    op('delete_mappings', S('S1'), 'm1', A='a1', B='b2'),
    op('delete_mappings', S('S1'), 'm1', A='a1', B='b1', Z='q'),
    op('delete_mappings', S('S1'), 'm1',
       [['other_index_id', 'm1', 'index_id', 'A', 'B', 'mapping_level'], [1, 3.0, 2, 'a1', 'b2', F_]]),
    op('delete_quantities_without_index'),
    op('delete_unmatched_quantities'),
]
CREATE = [
    op('add_weight_group', 'w1'),
    op('add_weight_group', 'w5'),
    op('add_link', S('S1'), 'm1'),
    op('add_link', S('S1'), 'm5'),
    op('add_link', S('S2'), 'm1'),
    op('insert_index', [H, ['a1', 'b1']]),
    op('insert_index', [H, ['a8', 'b8'], ['a9', 'b9']]),
    op('insert_weights', 'w1', [['A', 'B', 'w1'], ['a2', 'b1', 6.0]], on_conflict='replace'),
    op('insert_mappings2', S('S2'), 'm1', [['other_index_id', 'index_id', 'mapping_level', 'm1'],
                                           [2, 3, F_, 1.5]]),
    op('drop_partition_definitions', SET('A')),
]
S_FULL = AB + RECS + WEIGHTS + PARTS + LINKS + QUANTS + [
    op('add_link', S('S2'), 'm1'),
    op('insert_mappings2', S('S2'), 'm1', [['other_index_id', 'index_id', 'mapping_level', 'm1'],
                                           [1, 1, F_, 1.0], [2, 1, F_, 1.0], [0, 2, F_, 1.0]]),
]
# The same name and file name hint for links of different sources.
def hinted(src, name, hint):
    return [op('add_link', S(src), name, other_filename_hint=hint),
            op('insert_mappings2', S(src), name, [['other_index_id', 'index_id', 'mapping_level', name],
                                                  [1, 1, F_, 1.0], [2, 2, F_, 3.0]])]


S_HINT = AB + RECS + PARTS + hinted('S1', 'm1', 'f') + hinted('S2', 'm1', 'f') + hinted('S1', 'm2', 'f.toron') \
    + hinted('S2', 'm2', 'g.toron')
REFS = ['f', 'f.toron', 'g', 'g.toron', 'h', {'$prefix': ['S1', 7]}, {'$prefix': ['S2', 20]}, {'$prefix': ['S1', 6]}]
HINT = [op('drop_link', S(src), name) for src in ('S1', 'S2') for name in ('m1', 'm2')] \
    + [op('delete_mappings', S(src), name, A='a1', B='b1') for src in ('S1', 'S2') for name in ('m1', 'm2')] \
    + [op('drop_link', ref, name) for ref in REFS for name in ('m1', 'm2', None)] \
    + [op('delete_mappings', ref, None, A='a1', B='b1') for ref in REFS[2:7]] \
    + [op('add_link', S('S1'), 'm1', other_filename_hint='f'), op('delete_index', A='a1', B='b1')]
# Values of zero are values.
S_ZERO = AB + RECS + PARTS + [
    op('add_weight_group', 'w1'), op('add_weight_group', 'w2'),
    op('insert_weights', 'w1', [['A', 'B', 'w1'], ['a1', 'b1', 0.0], ['a1', 'b2', 0.0], ['a2', 'b1', 2.0]]),
    op('insert_weights', 'w2', [['A', 'B', 'w2'], ['a1', 'b1', 0.0], ['a2', 'b1', 0.0]]),
    op('add_link', S('S1'), 'm1'), op('add_link', S('S1'), 'm2'),
    op('insert_mappings2', S('S1'), 'm1', [['other_index_id', 'index_id', 'mapping_level', 'm1'],
                                           [1, 1, F_, 0.0], [1, 2, F_, 0.0], [2, 3, F_, 0.0], [3, 2, F_, 1.0]]),
    op('insert_mappings2', S('S1'), 'm2', [['other_index_id', 'index_id', 'mapping_level', 'm2'], [1, 1, F_, 0.0]]),
    op('set_registered_attributes', ['cat', 'sex']),
    op('insert_quantities2', value_column='v', allow_invalid_label=True, allow_invalid_partition=True, data=[
        ['A', 'B', 'cat', 'sex', 'v'], ['a1', 'b1', 'x', 'm', 0.0], ['a2', 'b1', 'y', '', 0.0], ['a1', '', 'y', '', 0.0],
        ['a9', 'b9', 'x', '', 0.0], ['', 'b1', 'z', '', 0.0], ['a9', 'b9', 'x', 'm', 4.0], ['a1', 'b2', 'x', 'f', 0.0],
        ['', 'b2', 'x', 'f', 0.0], ['a9', '', 'z', 'f', 0.0]]),
]
S_COARSE = AB + RECS + PARTS + COARSE


def run_case(case):
    return lockstep.run_path(case, relevant)


def explore(ctx):
    deep = 4 if ctx.thorough else 3
    lockstep.explore_machine(ctx, 'remove (memory)', [S_FULL], REMOVE + CREATE, deep, relevant)
    lockstep.explore_machine(ctx, 'coarse mappings', [S_COARSE],
                             REMOVE[:8] + REMOVE[11:12] + REMOVE[18:21] + CREATE[2:4], deep, relevant)
    lockstep.explore_machine(ctx, 'zero values', [S_ZERO], REMOVE + CREATE[:6], deep - 1, relevant)
    lockstep.explore_machine(ctx, 'alike links', [S_HINT], HINT, deep, relevant)
    for mode in ('drive', 'bound'):
        lockstep.explore_machine(ctx, f'remove ({mode})', [S_FULL], REMOVE + CREATE,
                                 deep - 1, relevant, mode=mode)
    for setup, steps in rows.mixed(ctx, 'delete_index', 'delete_weights', 'delete_mappings', most=3, setups=('full', 'coarse')):
        lockstep.explore_machine(ctx, 'mixed rows', [setup], steps, 1, relevant)
