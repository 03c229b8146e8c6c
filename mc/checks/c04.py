"""C04: every change to a space is all-or-nothing."""
import logging
import os
import shutil
import sqlite3
from .. import core, crash, faults, real
from ..real import op, L, S, SET
from ..scenes import AB, RECS, LINKS, PARTS, WEIGHTS, QUANTS

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'one fault per operation: an SQLite error before a storage call, an abort by SQLite inside a '
    'statement (statement or transaction rolled back by SQLite), storage full during a statement, '
    'KeyboardInterrupt at every point of the package\'s code where CPython delivers signals, a bad row or an input iterator that raises',
    'small scope: one populated space (three records, two weight groups, three links, coarse and exact '
    'mappings, quantities) and one empty space; one call of every modifying operation',
    'bound files: the process stops at every file system call (also in the middle of a write), or the '
    'machine stops after it (unsynced data and names lost as in C05); reopening the file must find the '
    'state before or after',
    'after an interrupt the full effect is accepted too (the interrupt may arrive after the commit); '
    'faults inside the recovery itself (a second fault) are not injected',
]

H = ['A', 'B']
F_ = L([1, 1])
A_ = L([1, 0])
POPULATED = AB + RECS + WEIGHTS + PARTS + LINKS + QUANTS + [
    op('set_domain', 'dom'),
    op('add_link', S('S2'), 'm1'),
    op('insert_mappings2', S('S2'), 'm1',
       [['other_index_id', 'index_id', 'mapping_level', 'm1'],
        [1, 1, A_, 1.0], [1, 2, A_, 3.0], [2, 3, F_, 2.0]]),
]
EMPTY = []
COLUMNS = AB + PARTS

SETUPS = {'populated': POPULATED, 'empty': EMPTY, 'columns': COLUMNS}

M1 = ['other_index_id', 'index_id', 'mapping_level', 'm1']
M2 = ['other_index_id', 'index_id', 'mapping_level', 'm2']
QH = ['A', 'B', 'cat', 'sex', 'v']
OPS = [
    ('empty', op('add_index_columns', 'A', 'B')),
    ('empty', op('set_domain', 'd')),
    ('empty', op('add_weight_group', 'w1')),
    ('empty', op('set_registered_attributes', ['cat', 'sex'])),
    ('columns', op('insert_index', [H, ['a1', 'b1'], ['a1', 'b2'], ['a2', 'b1']])),
    ('populated', op('set_domain', 'other')),
    ('populated', op('add_partition_definitions', SET('B'))),
    ('populated', op('add_partition_definition', SET('B'))),
    ('populated', op('drop_partition_definitions', SET('A'))),
    ('populated', op('set_registered_attributes', ['cat', 'sex', 'age'])),
    ('populated', op('change_attribute_order', 'cat', 1)),
    ('populated', op('change_label_order', 'A', 1)),
    ('populated', op('rename_label_column', 'A', 'C')),
    ('populated', op('add_index_columns', 'C')),
    ('populated', op('rename_index_columns', {'A': 'C', 'B': 'D'})),
    ('droppable', op('drop_index_columns', 'B')),
    ('populated', op('legacy_rename', {'A': 'C', 'B': 'D'})),
    ('droppable', op('legacy_drop', 'B')),
    ('populated', op('insert_index', [H, ['a2', 'b2'], ['a3', 'b3']])),
    ('populated', op('insert_index', [H + ['w1', 'w2'], ['a2', 'b2', 1.0, 2.0], ['a1', 'b1', 3.0, 4.0]],
                     weights=['w1', 'w2'], on_label_conflict='ignore', on_weight_conflict='replace')),
    ('populated', op('update_index', [['index_id', 'A', 'B'], [1, 'a5', 'b5'], [2, 'a6', 'b6']])),
    ('populated', op('update_index', [['index_id', 'A', 'B'], [2, 'a1', 'b1'], [3, 'a7', 'b1']],
                     merge_on_conflict=True)),
    ('populated', op('delete_index', [['index_id', 'A', 'B'], [3, 'a2', 'b1']])),
    ('fullmaps', op('delete_index', A='a1')),
    ('populated', op('default', 'w2')),
    ('populated', op('add_weight_group', 'w3', 'text', selectors=['[sex="m"]'], make_default=True)),
    ('populated', op('edit_weight_group', 'w2', name='w9', description='d')),
    ('populated', op('drop_weight_group', 'w1')),
    ('populated', op('insert_weights', 'w2', [H + ['w2'], ['a1', 'b2', 5.0], ['a2', 'b1', 6.0]])),
    ('populated', op('insert_weights', 'w2', [H + ['w2'], ['a1', 'b1', 5.0], ['a2', 'b1', 6.0]],
                     on_conflict='sum')),
    ('populated', op('update_weights', 'w1', [['index_id'] + H + ['w1'], [1, 'a1', 'b1', 5.0], [2, 'a1', 'b2', 6.0]])),
    ('populated', op('delete_weights', 'w1', [['index_id'] + H + ['w1'], [1, 'a1', 'b1', 1.0], [2, 'a1', 'b2', 2.0]])),
    ('populated', op('delete_weights', 'w1', A='a1')),
    ('populated', op('add_link', S('S1'), 'm3', is_default=True, selectors=['[cat="y"]'])),
    ('populated', op('edit_link', S('S1'), 'm2', is_default=True, name='m9')),
    ('populated', op('drop_link', S('S1'), 'm1')),
    ('populated', op('insert_mappings2', S('S1'), 'm2', [M2, [2, 1, F_, 1.0], [3, 3, F_, 2.0]])),
    ('populated', op('insert_mappings', S('S1'), 'm2',
                     [['other_index_id', 'm2', 'index_id', 'A', 'B', 'mapping_level'],
                      [2, 1.0, 1, 'a1', 'b1', F_], [3, 2.0, 3, 'a2', 'b1', F_]])),
    ('populated', op('update_mappings', S('S1'), 'm1',
                     [['other_index_id', 'm1', 'index_id', 'A', 'B', 'mapping_level'],
                      [1, 9.0, 1, 'a1', 'b1', F_], [2, 8.0, 2, 'a1', 'b2', F_]])),
    ('populated', op('delete_mappings', S('S1'), 'm1',
                     [['other_index_id', 'm1', 'index_id', 'A', 'B', 'mapping_level'],
                      [1, 1.0, 1, 'a1', 'b1', F_], [1, 3.0, 2, 'a1', 'b2', F_]])),
    ('populated', op('delete_mappings', S('S1'), 'm1', A='a1')),
    ('populated', op('reify_mappings', S('S2'), 'm1')),
    ('populated', op('insert_quantities2', value_column='v', data=[
        QH, ['a1', 'b2', 'x', 'f', 1.5], ['a2', 'b1', 'z', '', 2.0], ['a1', '', 'z', '', 3.0]])),
    ('populated', op('insert_quantities2', value_column='v', on_existing='sum', data=[
        QH, ['a1', 'b1', 'x', 'm', 1.5], ['a1', '', 'y', '', 2.0]])),
    ('populated', op('insert_quantities', value='v', attributes=['cat', 'sex'], data=[
        ['domain'] + QH, ['dom', 'a1', 'b2', 'x', 'f', 1.5], ['dom', 'a2', 'b1', 'z', '', 2.0]])),
    ('populated', op('delete_quantities_without_index')),
    ('populated', op('delete_unmatched_quantities')),
]
# Other branches of the same operations (faults in SQLite and bad rows only).
UH = ['index_id', 'A', 'B']
MH = ['other_index_id', 'm1', 'index_id', 'A', 'B', 'mapping_level']
VARIANTS = [
    ('populated', op('insert_weights', 'w9', [H + ['w9'], ['a1', 'b1', 5.0], ['a1', 'b2', 6.0], ['a2', 'b1', 0.0]])),
    ('populated', op('insert_weights', 'w2', [H + ['w2'], ['a1', 'b1', 5.0], ['a1', 'b2', 6.0]], on_conflict='replace')),
    ('populated', op('insert_weights', 'w2', [H + ['w2'], ['a1', 'b1', 5.0], ['a1', 'b2', 6.0]], on_conflict='ignore')),
    ('populated', op('insert_weights', 'w2', [UH + ['w2'], [2, 'a1', 'b2', 5.0], [3, 'a2', 'b1', 6.0]])),
    ('populated', op('update_weights', 'w2', [UH + ['w2'], [1, 'a1', 'b1', 5.0], [2, 'a1', 'b2', 6.0], [3, 'a2', 'b1', 6.0]])),
    ('populated', op('insert_index', [H + ['w1', 'w2'], ['a2', 'b2', 1.0, 2.0], ['a3', 'b3', 3.0, '']])),
    ('populated', op('insert_index', [UH, [1, 'a7', 'b7'], [2, 'a8', 'b8']], on_label_conflict='replace')),
    ('populated', op('insert_index', [UH + ['w2'], [1, 'a7', 'b7', 4.0], ['', 'a8', 'b8', 5.0], [2, 'a1', 'b2', 1.0]],
                     on_label_conflict='replace', on_weight_conflict='replace')),
    ('populated', op('insert_index', [UH + ['w2'], [1, 'a1', 'b1', 4.0], [2, 'a1', 'b2', 1.0]], on_weight_conflict='ignore')),
    ('populated', op('update_index', [UH, [2, 'a1', 'b1'], [3, 'a1', 'b1']], merge_on_conflict=True)),
    ('fullmaps', op('update_index', [UH, [1, 'q', 'q'], [3, 'a1', 'b2']], merge_on_conflict=True)),
    ('fullmaps', op('delete_index', [UH, [1, 'a1', 'b1'], [2, 'a1', 'b2']])),
    ('fullmaps', op('delete_index', B='b1')),
    ('populated', op('add_weight_group', 'w3')),
    ('populated', op('edit_weight_group', 'w1', selectors=['[cat="z"]', '[sex]'])),
    ('populated', op('drop_weight_group', 'w2')),
    ('populated', op('delete_weights', 'w2', A='a1')),
    ('populated', op('add_link', S('S2'), 'm3', other_filename_hint='f', description='d', user_properties={'a': 1})),
    ('empty', op('add_link', S('S1'), 'm1')),
    ('populated', op('edit_link', S('S1'), 'm1', is_default=False, other_filename_hint='f')),
    ('populated', op('drop_link', S('S2'), 'm1')),
    ('populated', op('insert_mappings2', S('S1'), 'm2', [M2, [2, 1, A_, 1.0], [2, 2, A_, 2.0], [0, 3, F_, 2.0]])),
    ('populated', op('update_mappings', S('S1'), 'm1', [MH, [1, 9.0, 1, 'a1', 'b1', F_], [3, 8.0, 1, 'a1', 'b1', F_]])),
    ('populated', op('delete_mappings', S('S2'), 'm1', [MH, [1, 1.0, 1, 'a1', 'b1', A_], [2, 2.0, 3, 'a2', 'b1', F_]])),
    ('populated', op('delete_mappings', S('S2'), 'm1', A='a1')),
    ('populated', op('reify_mappings', S('S2'), 'm1', A='a1')),
    ('populated', op('insert_quantities2', value_column='v', on_existing='replace', data=[
        QH, ['a1', 'b1', 'x', 'm', 1.5], ['a1', '', 'y', '', 2.0], ['a2', 'b1', 'new', '', 2.0]])),
    ('populated', op('insert_quantities2', value_column='v', on_existing='ignore', data=[
        QH, ['a1', 'b1', 'x', 'm', 1.5], ['a1', 'b2', 'y', '', 2.0]])),
    ('populated', op('insert_quantities2', value_column='v', allow_invalid_label=True, allow_invalid_partition=True, data=[
        QH, ['a7', 'b7', 'x', 'm', 1.5], ['', 'b2', 'y', '', 2.0]])),
    ('populated', op('add_partition_definitions', SET('B'), SET('A', 'B'))),
    ('populated', op('add_index_columns', 'C', 'D')),
    ('fullmaps', op('add_index_columns', 'C')),
    ('populated', op('set_registered_attributes', ['sex', 'cat'])),
    ('populated', op('change_label_order', 'B', -1)),
    ('populated', op('rename_index_columns', {'B': 'X'})),
    ('columns', op('drop_index_columns', 'A')),
    ('columns', op('insert_index', [H + ['w'], ['a1', 'b1', 1.0]])),
]

# Calls that are refused (or skip rows), many of them by rules that live in the
# connection rather than in the file.
REFUSED = [
    op('add_weight_group', 'bad', selectors=['[cat']),
    op('add_weight_group', 'w1'),
    op('edit_weight_group', 'w2', selectors=['[cat="x"', 'y']),
    op('edit_weight_group', 'w2', name='w1'),
    op('add_link', S('S1'), 'bad', selectors=['no selector!']),
    op('add_link', S('S1'), 'bad', user_properties={'a': [1, {'b': None}]}),
    op('edit_link', S('S1'), 'm1', user_properties={'k': 'v', 'ü': '"'}),
    op('edit_link', S('S1'), 'm1', selectors=[':is([']),
    op('edit_link', S('S1'), 'm1', user_properties='text'),
    op('edit_link', S('S1'), 'm1', user_properties=[1, 2]),
    op('insert_weights', 'w1', [H + ['w1'], ['a1', 'b1', -1.0]], on_conflict='replace'),
    op('insert_weights', 'w1', [H + ['w1'], ['a1', 'b1', 5.0]]),
    op('update_weights', 'w1', [['index_id'] + H + ['w1'], [1, 'a1', 'b1', -5.0]]),
    op('set_registered_attributes', ['A']),
    op('set_registered_attributes', ['']),
    op('set_domain', ''),
    op('insert_index', [H, ['a1', 'b1']]),
    op('insert_index', [H, ['', 'b1'], ['a9', '']]),
    op('insert_index', [['A'], ['a1']]),
    op('add_index_columns', 'A'),
    op('add_index_columns', 'index_id'),
    op('drop_index_columns', 'A', 'B'),
    op('rename_index_columns', {'A': 'B'}),
    op('update_index', [['index_id', 'A', 'B'], [1, 'a2', 'b1']]),
    op('update_index', [['index_id', 'A', 'B'], [0, 'q', 'q']]),
    op('delete_index', [['index_id', 'A', 'B'], [0, '-', '-']]),
    op('delete_index', A='-'),
    op('delete_index', A='a1'),
    op('insert_mappings2', S('S1'), 'm1', [M1, [1, 1, F_, 1.0]]),
    op('insert_mappings2', S('S1'), 'm1', [M1, [9, 77, F_, 1.0]]),
    op('insert_quantities2', value_column='v', data=[H + ['cat', 'v'], ['a1', 'b1', 'x', 'one']]),
    op('insert_quantities2', value_column='v', data=[H + ['cat', 'v'], ['', 'b1', 'x', 1.0]]),
    op('insert_quantities2', value_column='v', data=[['domain'] + H + ['cat', 'v'], ['other', 'a1', 'b1', 'x', 1.0]]),
    op('default', 'nogroup'),
    op('drop_link', S('S2'), 'nolink'),
    op('drop_weight_group', 'w9'),
    op('legacy_drop', 'A', 'B'),
]

# Calls refused late: the last row or the last step is what is wrong.
LATE = [
    op('insert_weights', 'w9', [H + ['w9'], ['a1', 'b1', 5.0], ['a1', 'b2', -6.0]]),
    op('insert_weights', 'w9', [H + ['w9'], ['a1', 'b1', 5.0], ['a1', 'b1', 6.0]]),
    op('insert_weights', 'w9', [['A', 'w9'], ['a1', 5.0]]),
    op('insert_weights', 'w2', [H + ['w2'], ['a1', 'b2', 5.0], ['a1', 'b1', 6.0]]),
    op('insert_weights', 'w2', [H + ['w2'], ['a1', 'b2', 5.0], ['a2', 'b1', -6.0]], on_conflict='sum'),
    op('insert_weights', 'w2', [H + ['w2'], ['a1', 'b2', 5.0]], on_conflict='other'),
    op('update_weights', 'w1', [UH + ['w1'], [1, 'a1', 'b1', 5.0], [2, 'a1', 'b2', -5.0]]),
    op('update_weights', 'w9', [UH + ['w9'], [1, 'a1', 'b1', 5.0]]),
    op('update_weights', 'w2', [UH + ['w2'], [3, 'a2', 'b1', 5.0], [2, 'a1', 'b2', 'text']]),
    op('delete_weights', 'w9', A='a1'),
    op('insert_index', [H + ['w1'], ['a5', 'b5', 1.0], ['a6', 'b6', -1.0]]),
    op('insert_index', [H + ['w1'], ['a5', 'b5', 1.0], ['a1', 'b1', 1.0]]),
    op('insert_index', [H + ['w1'], ['a5', 'b5', 1.0]], weights=['w1', 'w9']),
    op('insert_index', [UH, ['', 'a5', 'b5'], [1, 'a6', 'b6']]),
    op('insert_index', [UH, ['', 'a5', 'b5'], [77, 'a6', 'b6']]),
    op('insert_index', [UH, ['', 'a5', 'b5'], [1, 'a1', 'b2']], on_label_conflict='replace'),
    op('insert_index', [UH, ['', 'a5', 'b5'], [0, 'a6', 'b6']], on_label_conflict='replace'),
    op('update_index', [UH, [1, 'a5', 'b5'], [2, 'a2', 'b1']]),
    op('update_index', [UH, [2, 'a1', 'b1'], [1, 'a5', 'b5']], merge_on_conflict=True),
    op('update_index', [UH, [1, 'a5', 'b5'], [0, 'a6', 'b6']]),
    op('delete_index', [UH, [3, 'a2', 'b1'], [1, 'a1', 'b1']]),
    op('delete_index', [UH, [3, 'a2', 'b1'], [0, '-', '-']]),
    op('edit_weight_group', 'w1', name='w9', selectors=['[cat']),
    op('add_weight_group', 'w9', selectors=['[cat'], make_default=True),
    op('add_weight_group', 'w1', make_default=True),
    op('add_link', S('S1'), 'm1', is_default=True),
    op('add_link', S('S1'), 'm9', is_default=True, selectors=['[cat']),
    op('edit_link', S('S1'), 'm2', is_default=True, name='m1'),
    op('edit_link', S('S1'), 'm2', is_default=True, selectors=['[cat']),
    op('edit_link', S('S1'), 'm2', is_default=True, nosuch=1),
    op('insert_mappings2', S('S1'), 'm2', [M2, [2, 1, F_, 1.0], [3, 77, F_, 2.0]]),
    op('insert_mappings2', S('S1'), 'm2', [M2, [2, 1, F_, 1.0], [2, 1, F_, 2.0]]),
    op('insert_mappings2', S('S1'), 'm2', [M2, [2, 1, F_, 1.0], [3, 1, F_, -2.0]]),
    op('insert_mappings', S('S1'), 'm1', [MH, [3, 1.0, 1, 'a1', 'b1', F_], [1, 1.0, 1, 'a1', 'b1', F_]]),
    op('update_mappings', S('S1'), 'm1', [MH, [1, 9.0, 1, 'a1', 'b1', F_], [3, -8.0, 1, 'a1', 'b1', F_]]),
    op('update_mappings', S('S1'), 'm1', [MH, [1, 9.0, 1, 'a1', 'b1', F_], [1, 'text', 2, 'a1', 'b2', F_]]),
    op('delete_mappings', S('S1'), 'm1', [MH, [1, 1.0, 1, 'a1', 'b1', F_], [1, 'text', 2, 'a1', 'b2', F_]]),
    op('insert_quantities2', value_column='v', data=[QH, ['a1', 'b2', 'n', 'm', 1.5], ['a1', 'b1', 'x', 'm', 2.0]]),
    op('insert_quantities2', value_column='v', data=[QH, ['a1', 'b2', 'n', 'm', 1.5], ['', 'b1', 'x', 'm', 2.0]]),
    op('insert_quantities2', value_column='v', data=[QH, ['a1', 'b2', 'n', 'm', 1.5], ['a8', 'b1', 'x', 'm', 2.0]]),
    op('insert_quantities2', value_column='v', data=[QH, ['a1', 'b2', 'n', 'm', 1.5], ['a1', 'b1', 'n', 'm', 'text']]),
    op('insert_quantities2', value_column='v', data=[['domain'] + QH, ['dom', 'a1', 'b2', 'n', 'm', 1.5],
                                                     ['x', 'a1', 'b1', 'n', 'm', 1.0]]),
    op('insert_quantities2', value_column='v', on_existing='sum', data=[
        QH, ['a1', 'b1', 'x', 'm', 1.5], ['a8', 'b8', 'x', 'm', 2.0]]),
    op('add_partition_definitions', SET('B'), SET('Z')),
    op('add_partition_definitions', SET('B'), SET('A')),
    op('drop_partition_definitions', SET('A'), SET('Z')),
    op('drop_partition_definitions', SET('A'), SET('A', 'B')),
    op('add_index_columns', 'C', 'A'),
    op('add_index_columns', 'C', 'C'),
    op('add_index_columns', 'C', 'cat'),
    op('add_index_columns', 'C', 'index_id'),
    op('rename_index_columns', {'A': 'C', 'B': 'C'}),
    op('rename_index_columns', {'A': 'C', 'Z': 'D'}),
    op('rename_index_columns', {'A': 'C', 'B': 'index_id'}),
    op('drop_index_columns', 'B'),
    op('drop_index_columns', 'A'),
    op('drop_index_columns', 'B', 'domain'),
    op('legacy_rename', {'A': 'C', 'B': 'C'}),
    op('legacy_rename', {'A': 'C', 'B': 'cat'}),
    op('legacy_drop', 'B'),
    op('legacy_drop', 'A'),
    op('set_registered_attributes', ['cat', 'A']),
    op('set_registered_attributes', ['cat', 'cat']),
    op('change_attribute_order', 'nosuch', 1),
    op('change_label_order', 'nosuch', 1),
]

SETUPS['droppable'] = AB + [op('insert_index', [H, ['a1', 'b1'], ['a2', 'b2']])] + PARTS + [
    op('add_weight_group', 'w1'),
    op('insert_weights', 'w1', [H + ['w1'], ['a1', 'b1', 1.0], ['a2', 'b2', 2.0]]),
    op('add_link', S('S1'), 'm1'),
    op('insert_mappings2', S('S1'), 'm1', [M1, [1, 1, F_, 1.0], [2, 2, A_, 3.0]]),
]
SETUPS['fullmaps'] = AB + RECS + WEIGHTS + PARTS + LINKS + QUANTS

# Long inputs (no operation may take effect in instalments).
N = 2600
LABELS = [[f'a{i % 50}', f'b{i}'] for i in range(1, N + 1)]
SETUPS['long'] = AB + PARTS + [
    op('insert_index', [H] + LABELS),
    op('add_weight_group', 'w1'),
    op('add_link', S('S1'), 'm1'),
    op('set_registered_attributes', ['cat', 'sex']),
]
SETUPS['longfull'] = SETUPS['long'] + [
    op('insert_weights', 'w1', [H + ['w1']] + [r + [1.0] for r in LABELS]),
    op('insert_mappings2', S('S1'), 'm1', [M1] + [[1, i, F_, 1.0] for i in range(1, N + 1)]),
    op('insert_quantities2', value_column='v', data=[QH] + [r + ['x', '', 1.0] for r in LABELS]),
]
LONG = [
    ('columns', op('insert_index', [H] + LABELS)),
    ('long', op('insert_weights', 'w1', [H + ['w1']] + [r + [1.0] for r in LABELS])),
    ('long', op('insert_mappings2', S('S1'), 'm1', [M1] + [[1, i, F_, 1.0] for i in range(1, N + 1)])),
    ('long', op('insert_quantities2', value_column='v', data=[QH] + [r + ['x', '', 1.0] for r in LABELS])),
    ('longfull', op('insert_quantities2', value_column='v', on_existing='sum',
                    data=[QH] + [r + ['x', '', 1.0] for r in LABELS])),
    ('longfull', op('update_index', [['index_id'] + H] + [[i, 'z'] + r[1:] for i, r in enumerate(LABELS, 1)])),
    ('long', op('delete_index', [['index_id'] + H] + [[i] + r for i, r in enumerate(LABELS[:1100], 1)])),
    ('longfull', op('update_weights', 'w1', [['index_id'] + H + ['w1']] + [[i] + r + [2.0] for i, r in enumerate(LABELS, 1)])),
    ('longfull', op('delete_weights', 'w1', [['index_id'] + H + ['w1']] + [[i] + r + [1.0] for i, r in enumerate(LABELS[:1100], 1)])),
    ('longfull', op('update_mappings', S('S1'), 'm1',
                    [['other_index_id', 'm1', 'index_id'] + H + ['mapping_level']]
                    + [[1, 2.0, i] + r + [F_] for i, r in enumerate(LABELS, 1)])),
    ('longfull', op('delete_mappings', S('S1'), 'm1',
                    [['other_index_id', 'm1', 'index_id'] + H + ['mapping_level']]
                    + [[1, 1.0, i] + r + [F_] for i, r in enumerate(LABELS, 1)])),
]

# After the repeated operation: do cascades and triggers still work?
PROBES = {
    'populated': [op('drop_link', S('S2'), 'm1'), op('drop_weight_group', 'w2'),
                  op('delete_index', [['index_id']])],
    'fullmaps': [op('drop_link', S('S1'), 'm2'), op('drop_weight_group', 'w2')],
    'droppable': [op('drop_link', S('S1'), 'm1'), op('drop_weight_group', 'w1')],
    'columns': [op('add_weight_group', 'w1')],
    'empty': [op('add_index_columns', 'X')],
    'long': [], 'longfull': [],
}


# After a refused call: does the space do what one does that never saw it?
NEXT = {
    'populated': [op('insert_index', [H + ['w1'], ['a5', 'b5', 1.0]]), op('add_weight_group', 'w9'),
                  op('add_link', S('S1'), 'm9')],
    'droppable': [op('insert_index', [H, ['a5', 'b5']]), op('drop_index_columns', 'B')],
}

# --------------------------------------------------------------------------
# Plumbing
# --------------------------------------------------------------------------
_snaps = {}


def snap(setup):
    if setup not in _snaps:
        space = real.DataSpace()
        for o in SETUPS[setup]:
            err = real.call(space, o)
            if err is not None:
                raise RuntimeError(f'set-up failed: {o!r}: {err!r}')
        path = real.save(space)
        _snaps[setup] = real.snapshot(path)
        os.unlink(path)
    return _snaps[setup]


def dump(space):
    path = real.save(space)
    try:
        return real.raw_dump(path, volatile=True)
    finally:
        os.unlink(path)


def outcome(err):
    return None if err is None else type(err).__name__


_expected = {}


def expected(setup, operation, mode):
    """(before, outcome, after, after the probes) of the unfaulted run."""
    key = core.digest((setup, operation, mode))
    if key not in _expected:
        space = real.restore(snap(setup), mode)
        before = dump(space)
        err = real.call(space, operation)
        after = dump(space)
        probes(space, setup)
        _expected[key] = before, outcome(err), after, dump(space)
        real.forget_bound()
    return _expected[key]


def probes(space, setup):
    for o in PROBES[setup]:
        real.call(space, o)


def difference(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            out.append(f'{k}: {a[k]!r}\n      instead of {b[k]!r}')
    return '\n    '.join(out)[:1500]


class Bad(Exception):
    """Raised by an input iterator."""


class Closed(BaseException):
    """... one that is not an Exception."""


def faulty_rows(data, pos, kind):
    """*data* with something wrong at row *pos* (0 is the header)."""
    data = [list(r) for r in data]
    if kind == 'short':
        return data[:pos] + [data[pos][:-1]] + data[pos + 1:]
    if kind == 'object':
        row = list(data[pos])
        row[-1] = object()
        return data[:pos] + [row] + data[pos + 1:]
    if kind == 'object-first':
        row = list(data[pos])
        row[0] = object()
        return data[:pos] + [row] + data[pos + 1:]
    if kind == 'twice':
        return data[:pos + 1] + [data[pos]] + data[pos + 1:]
    if kind == 'none':
        row = [None] * len(data[pos])
        return data[:pos] + [row] + data[pos + 1:]
    if kind == 'empty-label':
        row = ['' if isinstance(x, str) else x for x in data[pos]]
        return data[:pos] + [row] + data[pos + 1:]
    exc = {'raise': Bad, 'interrupt': KeyboardInterrupt, 'exit': SystemExit, 'closed': Closed}[kind]

    def rows():
        for i, r in enumerate(data):
            if i == pos:
                raise exc()
            yield r
        if pos == len(data):
            raise exc()
    return rows()


ROW_FAULTS = ['short', 'object', 'object-first', 'twice', 'none', 'empty-label', 'raise', 'interrupt', 'exit', 'closed']


def data_of(operation):
    name, args, kwds = operation
    if 'data' in kwds:
        return kwds['data'], ('kwds', 'data')
    for i, a in enumerate(args):
        if isinstance(a, list) and a and isinstance(a[0], list):
            return a, ('args', i)
    return None, None


def faulty_call(space, operation, kind, at, arg):
    """(error or None, fired)"""
    try:
        if kind in ('error', 'abort', 'full'):
            with faults.sql_events(at, kind, arg) as plan:
                err = real.call(space, operation)
            return err, plan.fired
        if kind == 'signal':
            with faults.interrupt_events(at) as tracker:
                err = real.call(space, operation)
            return err, tracker.fired
        data, where = data_of(operation)
        name, args, kwds = operation
        decoded = real.decode(data, 'real')
        rows = faulty_rows(decoded, at, kind)
        args, kwds = list(args), dict(kwds)
        (args if where[0] == 'args' else kwds)[where[1]] = None
        args = real.decode(args, 'real')
        kwds = real.decode(kwds, 'real')
        (args if where[0] == 'args' else kwds)[where[1]] = rows
        try:
            getattr(space, name)(*args, **kwds)
        except Exception as e:
            return e, True
        return None, True
    except (KeyboardInterrupt, SystemExit, Closed) as e:
        return e, True


def run_case(case):
    if case['kind'] in ('kill', 'torn', 'power', 'count'):
        return crash_case(case)
    if case['kind'] == 'refused':
        return refused_case(case)
    res = core.Result()
    operation = LONG[case['long']][1] if 'long' in case else case['op']
    setup, mode = case['setup'], case['mode']
    kind, at, arg = case['kind'], case['at'], case.get('arg', 0)
    before, want_out, after, after_probes = expected(setup, operation, mode)
    faults.install()
    try:
        space = real.restore(snap(setup), mode)
    finally:
        faults.uninstall()
    where = f'{operation[0]} with {kind} fault at event {at}{f" ({arg} steps)" if arg else ""} [{mode}]'
    name = f'{operation[0]}:{kind}:{core.digest(case)}'
    if mode != 'memory':
        faults.install()
    try:
        err, fired = faulty_call(space, operation, kind, at, arg)
    finally:
        faults.uninstall()
    res.count('transitions')
    res.data = (fired, err is not None)
    # Is the space usable, and what does it contain?
    try:
        got = dump(space)
    except Exception as e:
        res.fail(name, f'{where}: the space is unusable afterwards: {e!r}\n  (operation raised {err!r})', case)
        return res
    interrupted = isinstance(err, KeyboardInterrupt) or (kind == 'signal' and fired)
    if err is None:
        rowfault = kind in ROW_FAULTS
        if not rowfault and got != after:
            res.fail(name, f'{where}: reported success but the effect differs:\n    {difference(got, after)}\n'
                           f'  operation: {str(operation)[:1500]}', case)
            return res
        res.count('absorbed')
        if not rowfault:
            return res
        res.count('accepted_rows')
        return res
    res.count('failed')
    res.outcome((operation[0], kind, outcome(err)))
    if got != before:
        if got == after and (interrupted or case.get('autocommit')):
            res.count('interrupted_after_commit')
        else:
            res.fail(name, f'{where}: raised {err!r} but left changes behind:\n    {difference(got, before)}\n'
                           f'  operation: {str(operation)[:1500]}', case)
            return res
    else:
        again = real.call(space, operation)
        if outcome(again) != want_out:
            res.fail(name, f'{where}: raised {err!r}; repeating the operation gives {again!r} '
                           f'instead of {want_out!r}\n  operation: {str(operation)[:1500]}', case)
            return res
    probes(space, setup)
    got = dump(space)
    if got != after_probes:
        res.fail(name, f'{where}: raised {err!r}; after repeating the operation (and probes) the space differs '
                       f'from one without the fault:\n    {difference(got, after_probes)}\n  operation: {str(operation)[:1500]}', case)
    real.forget_bound()
    return res


def refused_case(case):
    """A call that is refused leaves everything as it was."""
    res = core.Result()
    setup, operation, mode = case['setup'], case['op'], case['mode']
    space = real.restore(snap(setup), mode)
    before = dump(space)
    err = real.call(space, operation)
    got = dump(space)
    res.count('transitions')
    res.data = err is not None
    res.outcome((operation[0], outcome(err)))
    if err is not None:
        name = f'{operation[0]}:refused:{core.digest(case)}'
        if got != before:
            res.fail(name, f'{operation[0]} [{mode}] raised {err!r} but left changes behind:\n    '
                           f'{difference(got, before)}\n  operation: {operation!r}', case)
        else:
            again = real.call(space, operation)
            if repr(again) != repr(err) or dump(space) != before:
                res.fail(name, f'{operation[0]} [{mode}] raised {err!r}, and {again!r} when repeated: '
                               f'{difference(dump(space), before)}\n  operation: {operation!r}', case)
            ref = real.restore(snap(setup), mode)
            for o in NEXT[setup]:
                a, b = real.call(space, o), real.call(ref, o)
                if outcome(a) != outcome(b) or dump(space) != dump(ref):
                    res.fail(name, f'{operation[0]} [{mode}] raised {err!r}; {o[0]} afterwards gives {a!r} instead of {b!r}: '
                                   f'{difference(dump(space), dump(ref))}\n  operation: {operation!r}', case)
                    break
    real.forget_bound()
    return res


# --------------------------------------------------------------------------
# The process or the machine stops (bound files)
# --------------------------------------------------------------------------
def bound_run(case, mode, at, log):
    d = core.scratch_dir()
    path = os.path.join(d, 'data.toron')
    os.rename(real.restore_file(snap(case['setup'])), path)
    space = real.bind_file(path, mode='rw')
    with open(path, 'rb') as f:
        raw = f.read()

    def job():
        err = real.call(space, case['op'])
        return {'err': repr(err) if err is not None else None, 'n': crash.disarm()}
    status, data = crash.in_child(job, d, mode, at, 0, log)
    return d, path, raw, status, data


def recovered(path):
    """Contents found by the next one to open the file."""
    try:
        space = real.bind_file(path, mode='rw')
        return dump(space)
    except Exception as e:
        return f'{type(e).__name__}: {e}'


def judge(res, case, got, what):
    before, want, after, _ = expected(case['setup'], case['op'], 'bound')
    if isinstance(got, str):
        res.fail(f'{case["op"][0]}:crash:{core.digest((case, what))}',
                 f'{case["op"][0]} {what}: the file cannot be opened: {got}\n  operation: {case["op"]!r}', case)
        return False
    if got != before and got != after:
        res.fail(f'{case["op"][0]}:crash:{core.digest((case, what))}',
                 f'{case["op"][0]} {what}: neither the state before nor after:\n    {difference(got, before)}\n'
                 f'  operation: {case["op"]!r}', case)
        return False
    res.outcome((case['op'][0], what[:20], got == before))
    return True


def crash_case(case):
    crash.start()
    res = core.Result()
    if case['kind'] in ('kill', 'torn'):
        mode = crash.KILL if case['kind'] == 'kill' else crash.TORN
        d, path, raw, status, data = bound_run(case, mode, case['at'], None)
        res.count('transitions')
        if status not in (0, 77) or (status == 0 and (data is None or 'crash' in data)):
            res.fail(f'{case["op"][0]}:crash:{core.digest(case)}',
                     f'unexpected end of the process (status {status}): {data}', case)
        else:
            judge(res, case, recovered(path), f'stopped at file system call {case["at"]} ({case["kind"]})')
        shutil.rmtree(d, ignore_errors=True)
        return res
    # Power loss after every call of the complete history.
    log = core.scratch_path('.log')
    d, path, raw, status, data = bound_run(case, crash.LOG, 0, log)
    events = crash.read_log(log)
    os.unlink(log)
    shutil.rmtree(d, ignore_errors=True)
    if status != 0 or data is None or 'crash' in data or data['err']:
        res.fail(f'{case["op"][0]}:crash:{core.digest(case)}',
                 f'unexpected end of the process (status {status}): {data}', case)
        return res
    res.data = data['n']
    res.count('transitions')
    if case['kind'] == 'count':
        return res
    fs = crash.FileSystem(d, {'data.toron': raw})
    seen = set()
    for i, e in enumerate(events, 1):
        fs.step(e)
        for names in fs.directories():
            for state in fs.combinations(names, case['depth']):
                key = core.digest(sorted(state.items()))
                if key in seen:
                    continue
                seen.add(key)
                res.count('power_loss_states')
                there = core.scratch_dir()
                for name, data in state.items():
                    with open(os.path.join(there, name), 'wb') as f:
                        f.write(data)
                got = recovered(os.path.join(there, 'data.toron')) if 'data.toron' in state else 'file is missing'
                shutil.rmtree(there, ignore_errors=True)
                if not judge(res, case, got, f'power lost after call {i} of {len(events)} '
                                             f'({e[0]} {os.path.basename(e[1])})'):
                    return res
    return res


# --------------------------------------------------------------------------
# Exploration
# --------------------------------------------------------------------------
def events(case):
    """Count the fault points of one unfaulted run."""
    res = core.Result()
    setup, operation, mode = case['setup'], case['op'], case['mode']
    expected(setup, operation, mode)
    faults.install()
    try:
        space = real.restore(snap(setup), mode)
        sql = []
        with faults.sql_events(log=sql):
            err = real.call(space, operation)
        if err is not None:
            res.fail(f'{operation[0]}:refused', f'operation without a fault raised {err!r}: {operation!r}', case)
    finally:
        faults.uninstall()
    space = real.restore(snap(setup), mode)
    lines = []
    with faults.interrupt_events(log=lines):
        real.call(space, operation)
    real.forget_bound()
    res.data = sql, lines
    return res


def explore(ctx):
    crash.start()
    modes = ['memory', 'drive', 'bound']
    for s in SETUPS:
        snap(s)
    runs = [{'setup': s, 'op': o, 'mode': m} for s, o in OPS for m in modes]
    runs += [{'setup': s, 'op': o, 'mode': m, 'variant': True} for s, o in VARIANTS
             for m in (modes if ctx.thorough else modes[:1])]
    refused = [{'setup': s, 'op': o, 'mode': m, 'kind': 'refused'} for s in ('populated', 'droppable')
               for o in REFUSED + LATE for m in modes]
    accepted = [case['op'] for case, data in ctx.map(run_case, refused, label='refused calls') if not data]
    ctx.cov['refused_calls'] = len(refused) - len(accepted)
    cases = []
    points = 0
    cap = 3 if ctx.thorough else 1       # occurrences of the same call stack
    sqlcap = 6 if ctx.thorough else 2
    for run, data in ctx.map(events, runs, batch=2, label='events'):
        if not data:
            continue
        sql, lines = data
        memory = run['mode'] == 'memory'
        seen = {}
        commits = [i for i, what in enumerate(sql, 1) if what.lstrip().startswith('COMMIT')]
        if not any(what.lstrip().startswith('BEGIN') for what in sql):
            # A single statement: SQLite may report an interrupt that arrives
            # just after the statement took effect.
            run = dict(run, autocommit=True)
        for i, what in enumerate(sql, 1):
            if commits and i > commits[-1] and not what.lstrip().startswith(('INSERT', 'UPDATE', 'DELETE')):
                continue    # the effect is already committed
            seen[what] = seen.get(what, 0) + 1
            if seen[what] > sqlcap:
                continue
            points += 1
            cases.append(dict(run, kind='error', at=i))
            if (not memory or 'variant' in run) and not ctx.thorough:
                continue
            if not what.startswith(('BEGIN', 'COMMIT', 'PRAGMA')):
                for steps in ([0, 3, 10, 30, 100, 300, 1000] if ctx.thorough else [0, 20]):
                    cases.append(dict(run, kind='abort', at=i, arg=steps))
                if not what.startswith(('SELECT', 'next', 'fetch')):
                    cases.append(dict(run, kind='full', at=i))
        seen = {}
        if memory and 'variant' not in run or ctx.thorough:
            for i, stack in enumerate(lines, 1):
                seen[stack] = seen.get(stack, 0) + 1
                if seen[stack] <= cap:
                    points += 1
                    cases.append(dict(run, kind='signal', at=i))
        rows, _ = data_of(run['op'])
        if rows and (memory or ctx.thorough):
            for pos in range(len(rows) + 1):
                for kind in ROW_FAULTS:
                    if kind in ('raise', 'interrupt') or pos < len(rows):
                        points += 1
                        cases.append(dict(run, kind=kind, at=pos))
    longs = []
    for i, (s, o) in enumerate(LONG):
        n = len(data_of(o)[0])
        longs += [{'setup': s, 'long': i, 'mode': 'memory', 'kind': k, 'at': at} for k, at in (
            ('raise', n), ('interrupt', n - 1), ('object', n - 1), ('raise', n // 2 + 1))]
    if not ctx.stopped():
        points += len(longs)
        ctx.run(run_case, longs, batch=4, label='long inputs')
    ctx.cov['operations'] = len(OPS) + len(VARIANTS) + len(LONG)
    ctx.cov['fault_points'] = points
    ctx.cov['states'] = points
    for case, data in ctx.map(run_case, cases, label='faults'):
        ctx.counts['runs'] = ctx.counts.get('runs', 0) + 1
        if ctx.counts['runs'] in (1, 500, 3000, 9000):
            ctx.sample(case)
    crashes = []
    for case, n in ctx.map(crash_case, [{'setup': s, 'op': o, 'kind': 'count', 'mode': 'bound'} for s, o in OPS],
                           batch=1, label='calls'):
        for at in range(1, (n or 0) + 1):
            crashes.append(dict(case, kind='kill', at=at))
            crashes.append(dict(case, kind='torn', at=at))
    ctx.cov['states'] += len(crashes)
    ctx.run(crash_case, crashes, label='crashes')
    ctx.run(crash_case, [{'setup': s, 'op': o, 'kind': 'power', 'mode': 'bound', 'depth': 1 if ctx.thorough else 0}
                         for s, o in OPS], batch=1, label='power loss')
    ctx.cov['states'] += ctx.counts.get('power_loss_states', 0)
    ctx.counts['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
