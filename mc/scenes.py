"""Initial states shared by the operation-sequence checks (plain op lists)."""
from .real import op, S, L, SET

AB = [op('add_index_columns', 'A', 'B')]
ABC = [op('add_index_columns', 'A', 'B', 'C')]

RECS = [op('insert_index', [['A', 'B'], ['a1', 'b1'], ['a1', 'b2'], ['a2', 'b1']])]

# Weights in two groups (one complete, one not), a default.
WEIGHTS = [
    op('add_weight_group', 'w1', selectors=['[cat="x"]']),
    op('add_weight_group', 'w2'),
    op('insert_weights', 'w1', [['A', 'B', 'w1'], ['a1', 'b1', 1.0], ['a1', 'b2', 2.0], ['a2', 'b1', 4.0]]),
    op('insert_weights', 'w2', [['A', 'B', 'w2'], ['a1', 'b1', 3.0]]),
]

# Two links from S1 (one default) and one from S2; overlapping mappings.
LINKS = [
    op('add_link', S('S1'), 'm1'),
    op('add_link', S('S1'), 'm2', selectors=['[cat="x"]']),
    op('insert_mappings2', S('S1'), 'm1',
       [['other_index_id', 'index_id', 'mapping_level', 'm1'],
        [1, 1, L([1, 1]), 1.0], [1, 2, L([1, 1]), 3.0], [2, 2, L([1, 1]), 2.0],
        [3, 3, L([1, 1]), 0.0], [0, 3, L([1, 1]), 5.0]]),
    op('insert_mappings2', S('S1'), 'm2',
       [['other_index_id', 'index_id', 'mapping_level', 'm2'],
        [1, 2, L([1, 1]), 7.0]]),
]

PARTS = [op('add_partition_definitions', SET('A'))]

QUANTS = [
    op('set_registered_attributes', ['cat', 'sex']),
    op('insert_quantities2', value_column='v', data=[
        ['A', 'B', 'cat', 'sex', 'v'],
        ['a1', 'b1', 'x', 'm', 10.0], ['a1', '', 'x', 'm', 7.0],
        ['a1', '', 'y', '', 5.0], ['a2', 'b1', 'x', '', 2.5]]),
    op('insert_quantities2', value_column='v', allow_invalid_label=True,
       allow_invalid_partition=True, data=[
        ['A', 'B', 'cat', 'sex', 'v'],
        ['a9', 'b9', 'x', '', 1.0], ['', 'b1', 'y', '', 3.0]]),
]

# Ids with holes: 2 was deleted, and so was the highest id (4).
HOLES = AB + RECS + [
    op('insert_index', [['A', 'B'], ['a2', 'b2']]),
    op('delete_index', A='a1', B='b2'),
    op('delete_index', A='a2', B='b2'),
]

FULL = AB + RECS + WEIGHTS + PARTS + LINKS + QUANTS

# Mappings at a coarser level (ambiguous) next to exact ones.
COARSE = [
    op('add_link', S('S1'), 'm1'),
    op('insert_mappings2', S('S1'), 'm1',
       [['other_index_id', 'index_id', 'mapping_level', 'm1'],
        [1, 1, L([1, 0]), 1.0], [1, 2, L([1, 0]), 3.0], [2, 3, L([1, 1]), 2.0]]),
]


# --------------------------------------------------------------------------
# The same operations on a space of nine columns (levels of two bytes)
# --------------------------------------------------------------------------
FILL = [f'P{n}' for n in range(1, 8)]


def _widen(x):
    if isinstance(x, dict):
        if '$level' in x:
            a, b = x['$level']
            return {'$level': [a] + [int(a and b)] * len(FILL) + [b]}
        return {k: _widen(v) for k, v in x.items()}
    if isinstance(x, list) and x and isinstance(x[0], list) and x[0] and isinstance(x[0][0], str) \
            and 'A' in x[0] and 'B' in x[0] and not isinstance(x[0][0], dict):
        a, b = x[0].index('A'), x[0].index('B')
        out = [x[0][:a + 1] + FILL + x[0][a + 1:]]
        for row in x[1:]:
            fill = ['p' if row[a] and row[b] else ''] * len(FILL)
            out.append([_widen(v) for v in row[:a + 1]] + fill + [_widen(v) for v in row[a + 1:]])
        return out
    if isinstance(x, list):
        return [_widen(v) for v in x]
    return x


def widen(ops):
    """The operations on columns A, B carried over to A, P1..P7, B."""
    out = []
    for name, args, kwds in ops:
        if name == 'add_index_columns' and args == ['A', 'B']:
            args = ['A'] + FILL + ['B']
        out.append([name, _widen(args), _widen(kwds)])
    return out
