"""C09: links stay truthful about their mappings."""
from .. import core, lockstep, real, rows
from ..real import op, L, S, SET
from ..scenes import AB, RECS, LINKS, PARTS, COARSE, WEIGHTS, widen

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: three index records, sources of two and three records, up to three links, '
    'sequences up to the stated depth',
    'completeness is compared while the space holds at least one defined record; the source '
    'fingerprint once the link was loaded',
    'update/delete by row for a pair mapped at several levels at once is left open',
]

LINK_OPS = {'add_link', 'edit_link', 'drop_link', 'insert_mappings2', 'insert_mappings',
            'update_mappings', 'delete_mappings', 'reify_mappings'}
AREAS = {'links', 'mappings', 'proportion', 'link_complete', 'link_hash', 'observe'}


def relevant(name, area):
    if area in AREAS:
        return True
    return name in LINK_OPS and area in ('outcome', 'orphans')


H = ['A', 'B']
HI = ['index_id', 'A', 'B']


def M(name, *rows):
    return [['other_index_id', name, 'index_id', 'A', 'B', 'mapping_level']] + [list(r) for r in rows]


def M2(name, *rows):
    return [['other_index_id', 'index_id', 'mapping_level', name]] + [list(r) for r in rows]


F_, A_, B_, U_ = L([1, 1]), L([1, 0]), L([0, 1]), L([0, 0])

ALPHABET = [
    op('insert_mappings2', S('S1'), 'm1', M2('m1', [3, 1, F_, 4.0], [0, 1, F_, 1.0])),
    op('insert_mappings2', S('S1'), 'm2', M2('m2', [2, 1, F_, 0.0], [2, 3, F_, 0.0])),
    op('insert_mappings2', S('S1'), 'm2', M2('m2', [3, 3, A_, 2.0], [1, 0, F_, 1.0], [0, 0, F_, 5.0])),
    op('insert_mappings2', S('S1'), 'm2', M2('m2', [3, 3, B_, 2.0], [2, 2, F_, 6.0])),
    op('insert_mappings2', S('S1'), 'm1', M2('m1', [2, 3, F_, 1.0], [1, 1, F_, 9.0])),
    op('insert_mappings2', S('S1'), 'm1', M2('m1', [2, 3, F_, 1.0], [3, 2, F_, -1.0])),
    op('insert_mappings2', S('S2'), 'm1', M2('m1', [1, 1, F_, 1.0])),
    op('insert_mappings', S('S1'), 'm2', M('m2', [1, 2.0, 1, 'a1', 'b1', F_], [2, 1.0, 2, 'zz', 'b2', F_])),
    op('insert_mappings', S('S1'), 'm2', M('m2', [2, 1.0, 3, 'a2', 'b1', A_], [3, 4.0, 9, 'a2', 'b1', F_])),
    op('update_mappings', S('S1'), 'm1', M('m1', [1, 6.0, 2, 'a1', 'b2', F_], [3, 2.0, 2, 'a1', 'b2', F_])),
    op('update_mappings', S('S1'), 'm1', M('m1', [1, 6.0, 2, 'a1', 'b2', F_])),
    op('update_mappings', S('S1'), 'm1', M('m1', [3, 5.0, 1, 'a1', 'b1', F_])),
    op('update_mappings', S('S1'), 'm1', M('m1', [2, 0.0, 2, 'a1', 'b2', A_])),
    op('update_mappings', S('S1'), 'm1', M('m1', [1, 6.0, 1, 'a1', 'b1', F_], [1, -2.0, 2, 'a1', 'b2', F_])),
    op('delete_mappings', S('S1'), 'm1', M('m1', [1, 1.0, 1, 'a1', 'b1', F_], [2, 9.0, 2, 'a1', 'b2', F_])),
    op('delete_mappings', S('S1'), 'm1', M('m1', [1, 3.0, 2, 'a1', 'b2', F_])),
    op('delete_mappings', S('S1'), 'm1', A='a1'),
    op('delete_mappings', S('S1'), 'm1', A='a2', B='b1'),
    op('delete_mappings', S('S1'), 'm2', B='b2', A='a1'),
    op('delete_mappings', S('S1'), 'm1', C='q'),
    op('delete_mappings', S('S1'), 'm1'),
    op('reify_mappings', S('S1'), 'm1'),
    op('reify_mappings', S('S1'), 'm2', A='a2'),
    op('reify_mappings', S('S1'), 'm2', B='b1'),
    op('add_link', S('S1'), 'm3', is_default=True),
    op('add_link', S('S1'), 'm3', is_default=False, description='d', selectors='[cat]'),
    op('add_link', S('S1'), 'm1'),
    op('add_link', S('S2'), 'm1', other_filename_hint='f', user_properties={'k': 1}),
    op('edit_link', S('S1'), 'm2', is_default=True),
    op('edit_link', S('S1'), 'm1', is_default=False),
    op('edit_link', S('S1'), 'm1', name='m9', description='x'),
    op('edit_link', S('S1'), 'm2', name='m1'),
    op('edit_link', S('S1'), 'm2', selectors=['[sex]']),
    op('edit_link', S('S1'), 'nope', name='z'),
    op('drop_link', S('S1'), 'm1'),
    op('drop_link', S('S1'), 'm2'),
    op('insert_index', [H, ['a3', 'b3']]),
    op('update_index', [HI, [1, 'a2', 'b1']], merge_on_conflict=True),
    op('update_index', [HI, [3, 'a1', 'b2']], merge_on_conflict=True),
    op('delete_index', A='a1', B='b2'),
    op('delete_index', A='a2'),
    op('delete_index', A='a1'),
]
COLUMN_OPS = [
    op('add_index_columns', 'C'),
    op('rename_index_columns', {'A': 'Z'}),
    op('drop_index_columns', 'B'),
    op('drop_partition_definitions', SET('A')),
]
SETUPS = [AB + RECS + PARTS + LINKS, AB + RECS + PARTS + COARSE + [op('add_link', S('S1'), 'm2')]]


# Every small mapping relation, loaded in one call: proportions and flags.
def relation_ops(thorough):
    pairs = [(o, i) for o in (0, 1, 2) for i in (0, 1, 2) if (o, i) != (0, 0)]
    values = [0.0, 1.0, 3.0]
    out = [[]]
    for o, i in pairs:
        vals = values if (thorough or (o and i)) else [1.0]
        out = [p + q for p in out for q in [[]] + [[[o, i, F_, v]] for v in vals]]
    for rows in out:
        if rows:
            yield op('insert_mappings2', S('S1'), 'm', M2('m', *rows))


RELATION_SETUP = AB + [op('insert_index', [H, ['a1', 'b1'], ['a2', 'b2']]), op('add_link', S('S1'), 'm')]


def run_case(case):
    return lockstep.run_path(case, relevant)


def explore(ctx):
    deep = 4 if ctx.thorough else 3
    lockstep.explore_machine(ctx, 'links', SETUPS, ALPHABET, deep, relevant)
    lockstep.explore_machine(ctx, 'links and columns', [AB + RECS + WEIGHTS + PARTS + LINKS],
                             ALPHABET[::3] + COLUMN_OPS, deep, relevant)
    lockstep.explore_machine(ctx, 'nine columns', [widen(x) for x in SETUPS], widen(ALPHABET), 3 if ctx.thorough else 2,
                             relevant)
    lockstep.explore_machine(ctx, 'relations', [RELATION_SETUP], list(relation_ops(ctx.thorough)), 1, relevant)
    for setup, steps in rows.mixed(ctx, 'update_index', 'delete_index', 'insert_mappings', 'insert_mappings2', 'update_mappings', 'delete_mappings', setups=('full', 'coarse')):
        lockstep.explore_machine(ctx, 'mixed rows', [setup], steps, 1, relevant)
