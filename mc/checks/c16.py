"""C16: quantities load by the stated policy and read back unchanged."""
import itertools
from .. import core, lockstep, real, rows
from ..real import op, L, S, SET
from ..scenes import AB, RECS, LINKS, PARTS, WEIGHTS, QUANTS

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: two label columns, two attributes, at most two or three rows per load, sequences up '
    'to the stated depth',
    'values that are not numbers are refused; a numeric string is stored as the number it spells',
]

AREAS = {'quantities', 'unmatched', 'attrs', 'domain', 'observe'}
QUANTITY_OPS = {'insert_quantities2', 'insert_quantities', 'delete_quantities_without_index',
                'delete_unmatched_quantities', 'set_registered_attributes', 'change_attribute_order',
                'set_domain'}


def relevant(name, area):
    return area in AREAS or (name in QUANTITY_OPS and area in ('outcome', 'orphans'))


H = ['A', 'B', 'cat', 'sex', 'v']
ROWS = [
    ['a1', 'b1', 'x', 'm', 0.1],
    ['a1', 'b1', 'x', '', 2.5],
    ['a1', '', 'y', '', -3],
    ['a1', '', 'y', '', 0],
    ['', '', 'x', 'm', 1e17],
    ['a2', 'b1', '', '', 4.0],       # no attributes
    ['a2', 'b1', 'x', None, 4.0],    # missing attribute
    ['a9', 'b9', 'x', '', 1.0],      # no such record
    ['', 'b1', 'y', '', 2.0],        # no such level
    ['-', '-', 'y', '', 6.0],        # the undefined record
    ['-', 'b7', 'y', '', 6.0],
    ['', 'b9', 'y', '', 2.0],        # neither
    ['a1', 'b1', 'x', 'm', '7.25'],
    ['a1', 'b1', 'x', 'm', 'n/a'],
    ['a1', 'b2', 'x', 'm', ''],
    ['a1', 'b1', "o'x", '"', 3.0],
    ['a1', 'b1', '', 'x', 9.0],      # known values of other attributes
    ['a1', 'b1', 'm', 'x', 11.0],
    ['a1', 'b1', 'X', 'm', 13.0],
    ['b1', 'a1', 'x', 'm', 17.0],    # known labels of other columns
]
POLICIES = ('abort', 'ignore', 'replace', 'sum')


def Q(rows, **kw):
    return op('insert_quantities2', value_column='v', data=[H] + [list(r) for r in rows], **kw)


def loads(thorough):
    for r in ROWS:
        for policy in POLICIES:
            yield Q([r], on_existing=policy)
            yield Q([r], on_existing=policy, allow_invalid_label=True, allow_invalid_partition=True)
    for r in ROWS[7:12]:
        yield Q([r], allow_invalid_label=True)
        yield Q([r], allow_invalid_partition=True)
    pairs = list(itertools.product(ROWS, repeat=2))
    for a, b in pairs:
        for policy in POLICIES if thorough or a[:4] == b[:4] else ('abort', 'sum'):
            yield Q([a, b], on_existing=policy, allow_invalid_label=True, allow_invalid_partition=True)


def dom(*rows, **kw):
    return op('insert_quantities2', value_column='v',
              data=[['domain', 'A', 'B', 'sex', 'extra', 'cat', 'v']] + [list(r) for r in rows], **kw)


OTHER = [
    op('set_domain', 'd1'),
    op('set_domain', ''),
    dom(['d1', 'a1', 'b1', 'm', 'zz', 'x', 1.5]),
    dom(['d2', 'a1', 'b2', 'm', 'zz', 'x', 1.5]),
    dom(['', 'a1', 'b2', 'm', 'zz', 'x', 1.5], on_existing='sum'),
    op('insert_quantities2', value_column='v', data=[['A', 'cat', 'v'], ['a1', 'x', 1.0]]),
    op('insert_quantities2', value_column='nope', data=[H, ['a1', 'b1', 'x', '', 1.0]]),
    op('insert_quantities2', value_column='v', data=[['A', 'B', 'other', 'v'], ['a1', 'b1', 'x', 1.0]]),
    op('set_registered_attributes', ['sex']),
    op('set_registered_attributes', ['sex', 'cat', 'extra']),
    op('set_registered_attributes', ['A']),
    op('set_registered_attributes', ['cat', 'cat']),
    op('set_registered_attributes', []),
    op('change_attribute_order', 'sex', -1),
    op('insert_quantities', value='v', attributes=['cat'],
       data=[H, ['a1', 'b2', 'x', 'm', 2.0], ['a1', 'b2', '', 'm', 2.0], ['a7', '', 'q', '', 1.25]]),
    op('insert_quantities', value='v', attributes='cat', data=[['A', 'B', 'cat', 'v'], ['a1', 'b1', 'x', 2.0],
                                                               ['a1', 'b1', 'x', 3.0]]),
    op('insert_quantities', value='v', attributes=['cat', 'domain'],
       data=[['domain', 'A', 'B', 'cat', 'v'], ['d1', 'a1', 'b1', 'x', 2.0], ['d2', 'a1', 'b2', 'x', 2.0]]),
    op('add_partition_definitions', SET('B')),
    op('drop_partition_definitions', SET('A')),
    op('insert_index', [['A', 'B'], ['a9', 'b9']]),
    op('insert_index', [['A', 'B'], ['-', 'b7']]),
    op('delete_index', A='a1', B='b1'),
    op('delete_index', A='a1'),
    op('update_index', [['index_id', 'A', 'B'], [1, 'a9', 'b9']]),
    op('update_index', [['index_id', 'A', 'B'], [1, 'a2', 'b1']], merge_on_conflict=True),
    op('delete_quantities_without_index'),
    op('delete_unmatched_quantities'),
    Q([ROWS[0], ROWS[2]]),
    Q([ROWS[0], ROWS[1]], on_existing='sum'),
    Q([ROWS[7], ROWS[8], ROWS[9]], allow_invalid_label=True, allow_invalid_partition=True, on_existing='replace'),
    Q([ROWS[3]], on_existing='ignore'),
]
BASE = AB + RECS + [op('set_registered_attributes', ['cat', 'sex'])] + PARTS
SETUPS = [BASE, BASE + [Q([ROWS[0], ROWS[2], ROWS[7], ROWS[8], ROWS[9]], allow_invalid_label=True,
                          allow_invalid_partition=True)]]


# The same label texts in different columns.
TEXTS = ('p', 'q', 'r', '')
SAME = AB + [op('insert_index', [['A', 'B'], ['p', 'q'], ['q', 'r'], ['q', 'q']]),
             op('set_registered_attributes', ['cat', 'sex']), op('add_partition_definitions', SET('A'), SET('B'))]
SAME_A = SAME[:-1] + PARTS


def same_text():
    locs = [loc for loc in itertools.product(TEXTS, repeat=2) if any(loc)]
    for a, b in itertools.product(locs, repeat=2):
        rows = [list(a) + ['x', 'm', 1.0], list(b) + ['x', 'm', 2.0]]
        yield Q(rows, on_existing='sum')
        yield Q(rows, on_existing='sum', allow_invalid_label=True)
        yield Q(rows, on_existing='sum', allow_invalid_partition=True)


def run_case(case):
    return lockstep.run_path(case, relevant)


def explore(ctx):
    deep = 4 if ctx.thorough else 3
    lockstep.explore_machine(ctx, 'loads', SETUPS, list(loads(ctx.thorough)), 1, relevant)
    lockstep.explore_machine(ctx, 'histories', SETUPS[1:], OTHER, deep, relevant)
    lockstep.explore_machine(ctx, 'same texts', [SAME, SAME_A], list(same_text()), 1, relevant)
    some = list(loads(False))[:len(ROWS) * 8 + 10]
    lockstep.explore_machine(ctx, 'two loads', SETUPS[1:], some, 2, relevant)
    if ctx.thorough:
        lockstep.explore_machine(ctx, 'three loads', SETUPS[1:], some[1::2], 3, relevant)
    for setup, steps in rows.mixed(ctx, 'insert_quantities', 'insert_quantities2', setups=('full', 'domain')):
        lockstep.explore_machine(ctx, 'mixed rows', [setup], steps, 1, relevant)
