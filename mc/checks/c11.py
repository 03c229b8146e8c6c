"""C11: changing label columns preserves everything else."""
import os
from .. import core, lockstep, real
from ..real import op, L, S, SET
from ..scenes import AB, RECS, LINKS, PARTS, WEIGHTS, QUANTS, ABC, COARSE, widen

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: two to four label columns, a fully populated space, sequences up to the stated depth',
    'a drop that makes records, quantity locations or mapping levels coincide must be refused; '
    'existing quantities keep their location (blank in a new column)',
    'a partition definition equal to the old whole space is kept when columns are added only if '
    'quantities or mappings use it',
]

COLUMN_OPS = {'add_index_columns', 'rename_index_columns', 'rename_label_column',
              'drop_index_columns', 'change_label_order', 'legacy_rename', 'legacy_drop'}


def relevant(name, area):
    return name in COLUMN_OPS


ALPHABET = [
    op('add_index_columns', 'C'),
    op('add_index_columns', 'C', 'D'),
    op('add_index_columns', 'A'),
    op('add_index_columns', 'a'),
    op('add_index_columns', 'E', 'E'),
    op('add_index_columns', 'value'),
    op('add_index_columns', 'index_id'),
    op('add_index_columns', 'domain'),
    op('add_index_columns', 'cat'),
    op('add_index_columns', 'it\'s "q"'),
    op('rename_index_columns', {'A': 'Z'}),
    op('rename_index_columns', {'A': 'Y', 'B': 'X'}),
    op('rename_index_columns', {'A': 'B'}),
    op('rename_index_columns', {'A': 'B', 'B': 'A'}),
    op('rename_index_columns', {'nope': 'W'}),
    op('rename_index_columns', {'B': 'weight'}),
    op('rename_index_columns', {'B': 'sex'}),
    op('rename_label_column', 'Z', 'A'),
    op('rename_label_column', 'B', 'select'),
    op('rename_label_column', 'nope', 'Q'),
    op('rename_label_column', 'A', 'value'),
    op('change_label_order', 'B', -1),
    op('change_label_order', 'A', 1),
    op('change_label_order', 'C', -9),
    op('drop_index_columns', 'A'),
    op('drop_index_columns', 'B'),
    op('drop_index_columns', 'C'),
    op('drop_index_columns', 'A', 'B'),
    op('drop_index_columns', 'A', 'B', 'C', 'D'),
    op('drop_index_columns', 'nope'),
    op('drop_index_columns', 'value'),
]
MIXED = [
    op('insert_index', [['A', 'B', 'C'], ['a1', 'b1', 'c7']]),
    op('insert_index', [['B'], ['b5']]),
    op('insert_quantities2', value_column='v', data=[['A', 'B', 'C', 'cat', 'v'], ['a1', 'b1', 'c7', 'x', 1.0],
                                                     ['a1', 'b1', '', 'y', 2.0]]),
    op('insert_mappings2', S('S1'), 'm2',
       [['other_index_id', 'index_id', 'mapping_level', 'm2'], [2, 1, L([1, 1, 1]), 1.0], [3, 1, L([1, 0]), 1.0]]),
    op('add_partition_definitions', SET('A', 'C')),
    op('add_partition_definitions', SET('B')),
    op('drop_partition_definitions', SET('A')),
    op('delete_index', A='a2'),
    op('delete_unmatched_quantities'),
    op('delete_quantities_without_index'),
    op('drop_link', S('S1'), 'm1'),
    op('drop_link', S('S1'), 'm2'),
    op('set_registered_attributes', ['E', 'D']),
]
C3 = ABC + [
    op('insert_index', [['A', 'B', 'C'], ['a1', 'b1', 'c1'], ['a1', 'b2', 'c1'], ['a2', 'b1', 'c1'],
                        ['a2', 'b1', 'c2']]),
    op('add_weight_group', 'w1'),
    op('insert_weights', 'w1', [['A', 'B', 'C', 'w1'], ['a1', 'b1', 'c1', 1.0], ['a1', 'b2', 'c1', 2.0],
                                ['a2', 'b1', 'c1', 4.0], ['a2', 'b1', 'c2', 8.0]]),
    op('add_partition_definitions', SET('A'), SET('A', 'B'), SET('C')),
    op('add_link', S('S1'), 'm1'),
    op('insert_mappings2', S('S1'), 'm1',
       [['other_index_id', 'index_id', 'mapping_level', 'm1'],
        [1, 1, L([1, 1, 1]), 1.0], [1, 2, L([1, 0, 0]), 3.0], [1, 2, L([1, 1, 0]), 5.0], [2, 4, L([0, 0, 1]), 2.0]]),
    op('set_registered_attributes', ['cat', 'sex']),
    op('insert_quantities2', value_column='v', data=[
        ['A', 'B', 'C', 'cat', 'v'], ['a1', 'b1', 'c1', 'x', 10.0], ['a1', '', '', 'x', 7.0],
        ['a1', 'b2', '', 'y', 5.0], ['', '', 'c1', 'y', 2.5]]),
    op('change_label_order', 'C', -2),
]
# No quantities: only mappings of one of several links use the whole space, or a level.
IDS = ['other_index_id', 'index_id', 'mapping_level', 'm']
FIRST = AB + RECS + LINKS[:1] + LINKS[2:3] + [op('add_link', S('S2'), 'm'), op('add_link', S('S1'), 'm7')]
LAST = AB + RECS + PARTS + [
    op('add_link', S('S2'), 'm7'), op('add_link', S('S1'), 'm1'), op('add_link', S('S2'), 'm'),
    op('insert_mappings2', S('S1'), 'm1', [IDS[:3] + ['m1'], [1, 3, L([1, 0]), 2.0]]),
    op('insert_mappings2', S('S2'), 'm', [IDS, [1, 1, L([1, 1]), 1.0], [2, 2, L([1, 0]), 1.0]])]
BARE = AB + RECS + PARTS
SETUPS = [AB + RECS + WEIGHTS + PARTS + LINKS + QUANTS, C3]

LEGACY = [
    op('legacy_rename', {'A': 'Z'}),
    op('legacy_rename', {'B': 'o\'b "x"'}),
    op('legacy_rename', {'A': 'Y', 'C': 'X'}),
    op('legacy_rename', {'nope': 'W'}),
    op('legacy_drop', 'A'),
    op('legacy_drop', 'B'),
    op('legacy_drop', 'C'),
    op('legacy_drop', 'A', 'B'),
    op('legacy_drop', 'A', 'B', 'C'),
    op('add_index_columns', 'D'),
    op('rename_index_columns', {'A': 'Z'}),
    op('insert_index', [['A', 'B', 'C'], ['a1', 'b1', 'c7']]),
    op('delete_index', A='a1'),
    op('drop_link', S('S1'), 'm1'),
    op('delete_quantities_without_index'),
]


# What must still hold after the columns changed, tried on the same live space.
def probes(model):
    cols = model.cols
    ids = sorted(model.idx)
    hi = ['index_id'] + cols
    yield op('insert_index', [cols, ['p%d' % n for n in range(len(cols))]])
    if len(ids) > 1:
        yield op('update_index', [hi, [ids[0]] + list(model.idx[ids[1]])])
        yield op('insert_index', [hi, [ids[0]] + list(model.idx[ids[1]])], on_label_conflict='replace')
    yield op('update_index', [hi, [0] + ['u'] * len(cols)])
    yield op('delete_index', **{c: '-' for c in cols})
    yield op('add_partition_definitions', SET(cols[0]))
    for g in model.groups[:1]:
        if ids:
            row = list(model.idx[ids[0]])
            yield op('insert_weights', g['name'], [cols + [g['name']], row + [-1.0]], on_conflict='replace')
            yield op('insert_weights', g['name'], [cols + [g['name']], row + [0.5]], on_conflict='replace')
    if ids:
        yield op('delete_index', **dict(zip(cols, model.idx[ids[0]])))


def probe(space, model, obs, res, case):
    if case['ops'][-1][0] not in COLUMN_OPS:
        return
    done = list(case['ops'])
    for operation in probes(model):
        if operation[0] == 'delete_index' and set(model.cols) - set(operation[2]):
            continue
        done.append(operation)
        out = lockstep.run_op(space, model, operation, res, lambda n, a: True, dict(case, ops=list(done)),
                              tag='(probe after a column change) ')
        if out is None:
            return
        model, obs, path = out
        os.unlink(path)


def run_case(case):
    n = max([i for i, o in enumerate(case['ops']) if o[0] in COLUMN_OPS], default=-1)
    return lockstep.run_path(case, lambda name, area: name in COLUMN_OPS or n >= 0)


def explore(ctx):
    deep = 4 if ctx.thorough else 3
    lockstep.explore_machine(ctx, 'columns', SETUPS, ALPHABET, deep, relevant, [probe])
    lockstep.explore_machine(ctx, 'columns on a changing space', SETUPS,
                             ALPHABET[:2] + ALPHABET[9:11] + ALPHABET[24:28] + MIXED, deep, relevant, [probe])
    lockstep.explore_machine(ctx, 'columns used by mappings only', [FIRST, LAST, BARE],
                             ALPHABET[:2] + ALPHABET[9:11] + ALPHABET[24:26] + MIXED[6:8] + MIXED[10:12] + [
                                 op('drop_link', S('S2'), 'm'), op('drop_link', S('S1'), 'm7')],
                             deep, relevant, [probe])
    wide = [op('add_index_columns', 'C'), op('drop_index_columns', 'P1'), op('drop_index_columns', 'P2', 'P3', 'P4'),
            op('drop_index_columns', 'B'), op('drop_index_columns', 'A'), op('rename_index_columns', {'A': 'Z'}),
            op('rename_index_columns', {'P1': 'A', 'A': 'P1'}), op('change_label_order', 'B', -8),
            op('legacy_rename', {'B': 'Y'}), op('legacy_drop', 'P1'), op('legacy_drop', 'B'), op('legacy_drop', 'A')]
    lockstep.explore_machine(ctx, 'nine columns',
                             [widen(SETUPS[0]), widen(LAST), widen(AB + RECS + PARTS + COARSE), widen(FIRST)],
                             wide + widen(MIXED[6:10]), deep - 1, relevant, [probe])
    lockstep.explore_machine(ctx, 'legacy column changes', SETUPS, LEGACY, deep, relevant, [probe])
