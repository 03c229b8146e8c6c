"""C08: weights load by the stated policy and completeness is truthful."""
import itertools
from .. import core, lockstep, real, rows
from ..real import op, L, S, F
from ..scenes import AB, RECS, WEIGHTS, LINKS, PARTS, QUANTS

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: three or four index records, two or three weight groups, sequences up to the stated depth',
    'completeness is compared while the space holds at least one defined record, for groups whose '
    'is_complete flag was not forced by the caller; infinite weights given through insert_index() '
    'and update_weights() are left open',
]

WEIGHT_OPS = {'insert_weights', 'update_weights', 'delete_weights', 'add_weight_group',
              'edit_weight_group', 'drop_weight_group', 'default'}


def relevant(name, area):
    if area in ('weights', 'complete', 'observe'):
        return True
    if area in ('groups', 'outcome', 'orphans'):
        return name in WEIGHT_OPS or (name == 'insert_index' and area != 'outcome')
    return False


H = ['A', 'B']
HI = ['index_id', 'A', 'B']
W = lambda *rows: [['A', 'B', 'w2']] + [list(r) for r in rows]

ALPHABET = [
    op('insert_weights', 'w2', W(['a1', 'b2', 6.0], ['a2', 'b1', 0])),
    op('insert_weights', 'w2', W(['a2', 'b1', 1.5], ['a1', 'b1', 9.0])),
    op('insert_weights', 'w2', W(['a2', 'b1', 2.0], ['a2', 'b1', 3.0]), on_conflict='ignore'),
    op('insert_weights', 'w2', W(['a2', 'b1', 2.0], ['a2', 'b1', 3.0]), on_conflict='replace'),
    op('insert_weights', 'w2', W(['a2', 'b1', 2.0], ['a2', 'b1', 3.5]), on_conflict='sum'),
    op('insert_weights', 'w2', W(['a1', 'b2', ''], ['a1', 'b2', 'n/a'], ['a1', 'b2', None],
                                 ['zz', 'b2', 4.0], ['-', '-', 4.0]), on_conflict='sum'),
    op('insert_weights', 'w2', W(['a1', 'b2', 5.0], ['a1', 'b1', -1.0]), on_conflict='replace'),
    op('insert_weights', 'w3', [['index_id', 'A', 'B', 'n'], [1, 'a1', 'b1', '7'], [2, 'a1', 'zz', 5.0],
                                [3, 'a2', 'b1', 1.0], [99, 'a1', 'b1', 1.0]], value_column='n'),
    op('insert_weights', 'w2', [['A', 'w2'], ['a1', 5.0]]),
    op('update_weights', 'w1', [['index_id', 'A', 'B', 'w1'], [1, 'a1', 'b1', 0.5], [2, 'a1', 'zz', 9.0]]),
    op('update_weights', 'w2', [['index_id', 'A', 'B', 'w2'], [2, 'a1', 'b2', 8.0]]),
    op('update_weights', 'w2', [['index_id', 'A', 'B', 'w2'], [2, 'a1', 'b2', 8.0], [1, 'a1', 'b1', -8.0]]),
    op('update_weights', 'nope', [['index_id', 'A', 'B', 'nope'], [2, 'a1', 'b2', 8.0]]),
    op('delete_weights', 'w1', [['index_id', 'A', 'B'], [1, 'a1', 'b1'], [2, 'zz', 'b2'], [99, 'a1', 'b1']]),
    op('delete_weights', 'w1', A='a1'),
    op('delete_weights', 'w2', B='b1'),
    op('delete_weights', 'w1', C='b1'),
    op('delete_weights', 'w1'),
    op('insert_index', [H, ['a3', 'b3']]),
    op('insert_index', [H + ['w1'], ['a3', 'b3', 2.0], ['a1', 'b1', '']]),
    op('insert_index', [H + ['w1', 'w2'], ['a1', 'b2', 2.0, 3.0]], on_weight_conflict='ignore'),
    op('insert_index', [H + ['w1', 'w2'], ['a1', 'b2', 2.5, 3.0]], on_weight_conflict='replace'),
    op('insert_index', [H + ['w1', 'w2'], ['a3', 'b3', 1.0, 3.0], ['a1', 'b1', 2.5, '']]),
    op('insert_index', [H + ['w1', 'w2'], ['a3', 'b3', 1.0, 3.0]], weights=['w2']),
    op('insert_index', [H + ['w1', 'w2'], ['a4', 'b3', 2.0, 3.0]], weights='w1'),
    op('insert_index', [H + ['w1', 'w2'], ['a3', 'b3', 0.0, 0]], on_weight_conflict='ignore'),
    op('insert_index', [H + ['w1', 'w2'], ['a1', 'b2', '0', '0.0'], ['a3', 'b3', 0, None]], on_weight_conflict='replace'),
    op('insert_index', [H + ['w1'], ['a4', 'b4', -1.0]]),
    op('insert_index', [H + ['w1'], ['a4', 'b4', 1.0], ['a5', '', 2.0]], on_weight_conflict='replace'),
    op('insert_index', [['index_id', 'w2'], [2, 1.0], [3, 2.0]], on_weight_conflict='replace'),
    op('update_index', [HI, [1, 'a2', 'b1']], merge_on_conflict=True),
    op('update_index', [HI, [2, 'a1', 'b1']], merge_on_conflict=True),
    op('update_index', [HI, [3, 'a5', 'b5']]),
    op('delete_index', A='a1', B='b2'),
    op('delete_index', A='a2'),
    op('delete_index', A='a3'),
    op('delete_index', A='a1'),
    op('delete_index', [HI, [2, 'a1', 'b2'], [3, 'a2', 'b1']]),
    op('add_weight_group', 'w3'),
    op('add_weight_group', 'w4', make_default=True, selectors='[sex]', description='d'),
    op('add_weight_group', 'w1'),
    op('edit_weight_group', 'w1', name='w9'),
    op('edit_weight_group', 'w2', name='w1'),
    op('edit_weight_group', 'w2', description='x', selectors=['[cat]', '[sex="m"]']),
    op('drop_weight_group', 'w1'),
    op('drop_weight_group', 'w2'),
    op('default', 'w2'),
]
COLUMN_OPS = [
    op('add_index_columns', 'C'),
    op('rename_index_columns', {'A': 'Z'}),
    op('drop_index_columns', 'B'),
]
SETUPS = [
    AB + RECS + WEIGHTS,
    AB + RECS + WEIGHTS + [op('insert_weights', 'w2', W(['a1', 'b2', 6.0], ['a2', 'b1', 0])),
                           op('delete_index', A='a1', B='b1')],
]

# Conflict policies against every small batch of rows.
POLICY_SETUP = AB + [op('insert_index', [H, ['a1', 'b1'], ['a2', 'b2']]),
                     op('add_weight_group', 'w2'),
                     op('insert_weights', 'w2', W(['a1', 'b1', 5.0]))]


def policy_ops(thorough):
    rows = [['a1', 'b1', 2.0], ['a2', 'b2', 0], ['a2', 'b2', 0.25], ['a1', 'b1', '0.5'], ['a1', 'b1', -1],
            ['a9', 'b9', 3.0], ['-', '-', 3.0], ['a1', 'b1', ''], ['a2', 'b2', 'x'],
            ['a1', 'b1', F('nan')], ['a2', 'b2', F('inf')], ['a1', '-', 1.0], ['a1', '', 1.0]]
    batches = [[r] for r in rows] + [[a, b] for a in rows for b in rows]
    if thorough:
        short = rows[:6] + rows[9:11]
        batches += [[a, b, c] for a in short for b in short for c in short]
    for batch in batches:
        for policy in ('abort', 'ignore', 'replace', 'sum'):
            yield op('insert_weights', 'w2', W(*batch), on_conflict=policy)


# Rows whose labels are equal texts in different columns, or equal when joined.
SAME_ROWS = [('p', 'q'), ('q', 'p'), ('p', 'p'), ('pq', 'r'), ('p', 'qr'), ('q', 'r')]
SAME_SETUP = AB + [op('insert_index', [H] + [list(r) for r in SAME_ROWS[:5]]), op('add_weight_group', 'w2'),
                   op('insert_weights', 'w2', W(['p', 'q', 5.0]))]


def same_ops():
    for rows in itertools.permutations(SAME_ROWS, 3):
        batch = [list(r) + [float(n + 1)] for n, r in enumerate(rows)]
        yield op('insert_weights', 'w2', W(*batch), on_conflict='replace')
        yield op('insert_index', [H + ['w2']] + batch, on_weight_conflict='replace')
        yield op('delete_weights', 'w2', [['index_id', 'A', 'B']] + [[n + 1] + r[:2] for n, r in enumerate(batch)])
        yield op('update_weights', 'w2', [['index_id', 'A', 'B', 'w2']] + [[n + 1] + r for n, r in enumerate(batch)])


def run_case(case):
    return lockstep.run_path(case, relevant)


def explore(ctx):
    lockstep.explore_machine(ctx, 'weights', SETUPS, ALPHABET, 4 if ctx.thorough else 3, relevant)
    lockstep.explore_machine(ctx, 'weights, columns and links',
                             [AB + RECS + WEIGHTS + PARTS + LINKS],
                             ALPHABET[1::2] + COLUMN_OPS, 4 if ctx.thorough else 3, relevant)
    lockstep.explore_machine(ctx, 'policies', [POLICY_SETUP], list(policy_ops(ctx.thorough)), 1, relevant)
    lockstep.explore_machine(ctx, 'same texts', [SAME_SETUP], list(same_ops()), 1, relevant)
    for setup, steps in rows.mixed(ctx, 'insert_index', 'update_index', 'delete_index', 'insert_weights', 'update_weights', 'delete_weights'):
        lockstep.explore_machine(ctx, 'mixed rows', [setup], steps, 1, relevant)
