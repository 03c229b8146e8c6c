"""C24: every command makes exactly the change that it is asked for.

Sequences of commands on a pair of files, in lockstep with a pair of models;
after every command the status, both files and what `info` shows are compared."""
import contextlib
import csv
import io
import os
import pickle
import shutil
import sys
import traceback
from .. import cli, core, real
from ..core import Result
from ..model import SpaceModel, Refused, Unspecified
from ..real import op, bind_file, read_file

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'two files of two or three label columns and up to four records; the listed commands and options',
    'selectors and texts are well-formed; a mapping import in both directions that one of the files refuses is '
    'outside (see the known finding of C23)',
    'an empty --description changes nothing; quantities are not loaded into a file without label columns',
]

A, B = 'L.toron', 'R.toron'      # FILE1 and FILE2
NAMES = ('FILE1', 'FILE2')       # what links call their sources here


# --------------------------------------------------------------------------
# What the commands mean
# --------------------------------------------------------------------------
def on1(*operation, **kwds):
    def meaning(m1, m2):
        return real.model_call(m1, op(*operation, **kwds)), m2
    return meaning


def refuse(m1, m2):
    raise Refused('not possible')


def add_attributes(*names):
    def meaning(m1, m2):
        new = []
        for n in names:
            if n not in m1.attrs and n not in new:
                new.append(n)
        return (m1.apply('set_registered_attributes', [m1.attrs + new], {}) if new else m1), m2
    return meaning


def has(model, src, name):
    return any(l['src'] == src and l['name'] == name for l in model.links)


def add_link(name, direction, default=False, description=None, selectors=None):
    def meaning(m1, m2):
        kwds = dict(description=description, selectors=selectors, is_default=default or None)
        if direction in ('both', 'right'):
            m2 = m2.apply('add_link', [NAMES[0], name], dict(kwds, other_filename_hint=A))
        if direction in ('both', 'left'):
            m1 = m1.apply('add_link', [NAMES[1], name], dict(kwds, other_filename_hint=B))
        return m1, m2
    return meaning


def remove_link(name, direction):
    def meaning(m1, m2):
        one = direction in ('both', 'left') and has(m1, NAMES[1], name)
        two = direction in ('both', 'right') and has(m2, NAMES[0], name)
        if not one and not two:
            raise Refused('no such link')
        if one:
            m1 = m1.apply('drop_link', [NAMES[1], name], {})
        if two:
            m2 = m2.apply('drop_link', [NAMES[0], name], {})
        return m1, m2
    return meaning


def update_weight(name, description=None, add=(), remove=(), default=False):
    def meaning(m1, m2):
        group = m1._group(name)
        changes = {}
        if description:
            changes['description'] = description
        if add or remove:
            have = list(group['sel'] or []) + list(add)
            changes['selectors'] = sorted({s for s in have if s not in remove})
        if changes:
            m1 = m1.apply('edit_weight_group', [name], changes)
        if default:
            m1 = m1.apply('default', [name], {})
        return m1, m2
    return meaning


def table(text):
    return list(csv.reader(io.StringIO(text, newline='')))


def load_index(text, label='abort', weight='abort'):
    """In *text* the code of record 2 is spelled @2 (in a column named code)."""
    rows = table(text)
    head = ['index_id' if x.endswith('index_code') else x for x in rows[0]]
    at = head.index('index_id') if 'index_id' in head else None
    out = [head]
    for r in rows[1:]:
        r = list(r)
        if at is not None and r[at]:
            r[at] = int(r[at][1:])
        out.append(r)

    def meaning(m1, m2):
        return m1.apply('insert_index', [out], dict(on_label_conflict=label, on_weight_conflict=weight)), m2
    return meaning


def load_quantities(text, column='quantity', **kwds):
    def meaning(m1, m2):
        if not m1.cols:
            raise Unspecified('no label columns')
        return m1.apply('insert_quantities2', [], dict(value_column=column, data=table(text), **kwds)), m2
    return meaning


def load_mapping(text, direction='both', limit=1, incomplete=False):
    """Rows with all labels, or with some of them or with codes (@ of
    FILE1, % of FILE2); no overlaps in these data."""
    rows = table(text)
    width = rows[0].index('k')
    parts = (slice(0, width), slice(width + 1, None))   # Left and right of the value.

    def mark(part):
        """'@', '%': has codes of FILE1, FILE2."""
        return next((c[0] for r in rows[1:] for c in r[part] if c[:1] in '@%' and c), None)

    def side(model, header, cells):
        d = dict(zip(header, cells))
        code = next((int(c[1:]) for c in cells if c[:1] in '@%' and c), None)
        if code is not None:
            return [(code, model.full(), 1.0)] if code == 0 or code in model.idx else []
        criteria = {c: d[c] for c in model.cols if d.get(c)}
        level = tuple(int(c in criteria) for c in model.cols)
        if not model._valid_level(level):
            raise Refused('no such partition')
        ids = model.match(criteria)
        if not ids or len(ids) > limit:
            return []
        weights = [model.w.get((model.default, i), 0.0 if i == 0 else None) for i in ids]
        if len(ids) > 1 and None in weights:
            return []
        total = sum(w or 0.0 for w in weights)
        return [(i, level, (w or 0.0) / total if total else 1 / len(ids)) for i, w in zip(ids, weights)]

    def meaning(m1, m2):
        marks = [mark(p) for p in parts]
        p1, p2 = reversed(parts) if marks[0] == '%' or marks[1] == '@' else parts
        h1, h2 = rows[0][p1], rows[0][p2]
        one, two = has(m1, NAMES[1], 'k'), has(m2, NAMES[0], 'k')
        if direction == 'left' and not one or direction == 'right' and not two or not one and not two:
            raise Refused('no link')
        if mark(p1) is None and h1 != m1.cols or mark(p2) is None and h2 != m2.cols:
            raise Refused('columns')
        if m1.default is None or m2.default is None:
            raise Refused('no default weights')
        where = {x for x, y in (('left', one), ('right', two)) if y and direction in ('both', x)}
        sums1, sums2 = {}, {}
        seen1, seen2 = set(), set()
        for r in rows[1:]:
            a, b = side(m1, h1, r[p1]), side(m2, h2, r[p2])
            seen1 |= {i for i, _, _ in a}
            seen2 |= {i for i, _, _ in b}
            for i, l1, p in a:
                for j, l2, q in b:
                    if i == 0 and j == 0:
                        continue
                    v = float(r[width]) * p * q
                    sums1[(j, i, l1)] = sums1.get((j, i, l1), 0.0) + v
                    sums2[(i, j, l2)] = sums2.get((i, j, l2), 0.0) + v
        if not incomplete and (seen1 - {0} != set(m1.idx) or seen2 - {0} != set(m2.idx)):
            raise Refused('incomplete')
        columns = ['other_index_id', 'index_id', 'mapping_level', 'mapping_value']
        both = len(where) == 2
        try:
            if 'right' in where:
                m2 = m2.apply('insert_mappings2', [NAMES[0], 'k', [list(k) + [v] for k, v in sums2.items()], columns], {})
        except Refused:
            if both:
                raise Unspecified('one side refuses')
            raise
        try:
            if 'left' in where:
                m1 = m1.apply('insert_mappings2', [NAMES[1], 'k', [list(k) + [v] for k, v in sums1.items()], columns], {})
        except Refused:
            if both:
                raise Unspecified('one side refuses')
            raise
        return m1, m2
    return meaning


IDX_NEW = 'A,B\na3,b1\na3,b2\n'
IDX_W = 'w1,B,A,w2\n1.5,b9,a9,2\n,b8,a9,\n'
IDX_CODE = 'index_code,A,B,w1\n@1,a1,b1,7\n@2,a1,b2,8\n'
IDX_LABELS = 'dom_index_code,A,B\n@1,a1,b1\n@2,a7,b7\n'
IDX_ONLY = 'index_code,w1\n@2,6\n'
IDX_DUP = 'A,B,w1\na1,b1,3\na4,b1,4\n'
IDX_BAD = 'A,B\na5,b5\n'.replace('B', 'Z')
Q1 = 'A,B,p,quantity\na1,b1,x,5\na1,,x,2.5\n,,y,-3\n'
Q2 = 'domain,B,A,q,p,quantity\ndom,b1,a1,,x,4\n'
Q3 = 'A,B,p,amount,quantity\na1,b1,x,11,1\na2,b1,z,12,1\n'
Q4 = 'A,B,p,quantity\na9,b1,x,5\n'
Q5 = 'A,B,p,quantity\n,b1,x,5\na1,b1,,6\n'
M_FULL = 'A,B,k,X\na1,b1,10,x1\na1,b2,20,x2\na2,b1,30,x2\n'
M_PART = 'A,B,k,X\na1,,10,x1\na2,b1,30,x2\n'
M_SOME = 'A,B,k,X\na1,b1,10,x1\n-,-,4,x2\nnope,b1,5,x2\n'
M_ORDER = 'B,A,k,X\nb1,a1,10,x1\nb2,a1,20,x2\nb1,a2,30,x2\n'
M_CODES = 'index_code,A,k,X,index_code\n@1,a1,10,x1,%1\n@2,a1,20,x2,%2\n@3,a2,30,,%2\n'
M_SWAP = 'X,k,index_code,B,A\nx1,10,@1,b1,a1\nx2,20,@2,b2,a1\nx2,30,@3,b1,a2\n'
M_RIGHT = 'A,B,k,index_code\na1,b1,10,%1\na1,b2,20,%2\na2,b1,30,%2\n'
M_LEFT = 'code,k,X,extra\n%1,10,x1,\n'
M_SWAP2 = 'code,k,A,B\n%1,10,a1,b1\n%2,20,a1,b2\n%2,30,a2,b1\n'
M_BOTH = 'code,k,B,code\n%1,10,b1,@1\n%2,20,b2,@2\n%2,30,,@3\n'
M_TO_UNDEFINED = 'A,B,k,X\na1,b1,10,x1\na1,b2,20,-\na2,b1,30,x1\n'
M_UNDEFINED = 'A,B,k,X\na1,b1,10,x1\na1,b2,20,x2\n-,-,30,x1\n'
M_HALF = 'code,A,B,k,X\n,a1,b1,10,x1\n@2,,,20,x2\n,a2,b1,30,x2\n,a2,b1,3,x1\n'


def commands():
    """(argument list, standard input, meaning)"""
    out = []

    def add(args, meaning, stdin=None):
        out.append((args.split() if isinstance(args, str) else args, stdin, meaning))

    # Labels.
    add('add label C', on1('add_index_columns', 'C'))
    add('add label C,D', on1('add_index_columns', 'C', 'D'))
    add(['add', 'label', 'C, D', 'E'], on1('add_index_columns', 'C', 'D', 'E'))
    add('add label A', on1('add_index_columns', 'A'))
    add('add label C A', on1('add_index_columns', 'C', 'A'))
    add('add label index_id', on1('add_index_columns', 'index_id'))
    for args, offset in (('--move-left', -1), ('--move-left 1', -1), ('--move-right', 1), ('--move-right 2', 2),
                         ('--move-left 9', -9)):
        add('update label B ' + args, on1('change_label_order', 'B', offset))
        add('update label A ' + args, on1('change_label_order', 'A', offset))
        add('update attribute p ' + args, on1('change_attribute_order', 'p', offset))
        add('update attribute q ' + args, on1('change_attribute_order', 'q', offset))
    add('update label Z --move-left', refuse)
    add('update label A --move-left --move-right', refuse)
    add('update label A', refuse)
    add('rename label A N', on1('rename_label_column', 'A', 'N'))
    add('rename label B quantity2', on1('rename_label_column', 'B', 'quantity2'))
    add('rename label A B', on1('rename_label_column', 'A', 'B'))
    add('rename label Z N', on1('rename_label_column', 'Z', 'N'))
    # Domain.
    add('rename domain other', on1('set_domain', 'other'))
    add(['rename', 'domain', 'two words'], on1('set_domain', 'two words'))
    # Weights.
    add('add weight w3', on1('add_weight_group', 'w3'))
    add('add weight w2 --default', on1('add_weight_group', 'w2', make_default=True))
    add(['add', 'weight', 'w3', '--description', 'some text', '--selectors', '[p="x"]', '[q]'],
        on1('add_weight_group', 'w3', description='some text', selectors=['[p="x"]', '[q]']))
    add(['add', 'weight', 'w 4', '--selectors', '[q]', '--default'],
        on1('add_weight_group', 'w 4', selectors=['[q]'], make_default=True))
    add(['add', 'weight', 'w2', '--selectors', '[q]', '[q]'], on1('add_weight_group', 'w2', selectors=['[q]', '[q]']))
    add(['update', 'weight', 'w2', '--remove-selector', '[q]'], update_weight('w2', remove=['[q]']))
    add(['update', 'weight', 'w1', '--description', 'new text'], update_weight('w1', 'new text'))
    add(['update', 'weight', 'w1', '--add-selector', '[q]', '[p="x"]'], update_weight('w1', add=['[q]', '[p="x"]']))
    add(['update', 'weight', 'w1', '--remove-selector', '[q]', '[nope]'], update_weight('w1', remove=['[q]']))
    add(['update', 'weight', 'w2', '--add-selector', '[q]', '--remove-selector', '[p="x"]'],
        update_weight('w2', add=['[q]'], remove=['[p="x"]']))
    add(['update', 'weight', 'w2', '--remove-selector', '[p="x"]'], update_weight('w2', remove=['[p="x"]']))
    add(['update', 'weight', 'w2', '--add-selector', '[q]', '--remove-selector', '[q]', '--description', 'both'],
        update_weight('w2', 'both', add=['[q]'], remove=['[q]']))
    add(['update', 'weight', 'w1', '--default', '--add-selector', '[q]', '--description', 'all'],
        update_weight('w1', 'all', add=['[q]'], default=True))
    add(['update', 'weight', 'w2', '--default', '--description', 'main'], update_weight('w2', 'main', default=True))
    add('update weight w2 --default', update_weight('w2', default=True))
    add('update weight w2', update_weight('w2'))
    add('update weight none --default', refuse)
    # Partitions and attributes.
    add('add partition A', on1('add_partition_definition', real.SET('A')))
    add('add partition A,B', on1('add_partition_definition', real.SET('A', 'B')))
    add('add partition B A', on1('add_partition_definition', real.SET('A', 'B')))
    add('add partition B', on1('add_partition_definition', real.SET('B')))
    add('add partition Z', refuse)
    add('add attribute p', add_attributes('p'))
    add('add attribute q,p', add_attributes('q', 'p'))
    add('add attribute r p s', add_attributes('r', 'p', 's'))
    add('add attribute P pp', add_attributes('P', 'pp'))
    add('add attribute A', add_attributes('A'))
    add('add attribute t B', add_attributes('t', 'B'))
    # Links.
    for flag, direction in ((None, 'both'), ('--left', 'left'), ('--right', 'right')):
        extra = [flag] if flag else []
        for name in ('k', 'm'):
            add(['add', 'link', '@', name] + extra, add_link(name, direction))
            add(['remove', 'link', '@', name] + extra, remove_link(name, direction))
        add(['add', 'link', '@', 'n', *extra, '--default'], add_link('n', direction, True))
        add(['add', 'link', '@', 'n', *extra, '--description', 'd', '--selectors', '[q]', '[p="x"]'],
            add_link('n', direction, description='d', selectors=['[q]', '[p="x"]']))
        for text in (M_FULL, M_PART, M_SOME, M_ORDER, M_CODES, M_SWAP, M_RIGHT, M_LEFT, M_SWAP2, M_BOTH, M_HALF,
                     M_TO_UNDEFINED, M_UNDEFINED):
            for limit in (1, 2):
                for inc in (False, True):
                    if limit == 2 and text is not M_PART or text not in (M_FULL, M_PART, M_SOME) and inc:
                        continue
                    add(['mapping', '@', 'k', *extra] + (['--match-limit', str(limit)] if limit > 1 else [])
                        + (['--allow-incomplete'] if inc else []),
                        load_mapping(text, direction, limit, inc), text)
    add('add link @ k --left --right', refuse)
    # Index data.
    for text in (IDX_NEW, IDX_W, IDX_CODE, IDX_LABELS, IDX_ONLY, IDX_DUP, IDX_BAD):
        for flag in ('label', 'weight'):
            for policy in ('abort', 'ignore', 'replace'):
                if policy == 'abort' and flag == 'weight':
                    continue
                args = ['index'] + ([f'--on-{flag}-conflict', policy] if policy != 'abort' else [])
                add(args, load_index(text, **{flag: policy}), text)
    # Quantities.
    for text in (Q1, Q2, Q4, Q5):
        for policy in ('abort', 'ignore', 'replace', 'sum'):
            if policy != 'abort' and text in (Q4, Q5):
                continue
            add(['quantity'] + (['--on-existing', policy] if policy != 'abort' else []),
                load_quantities(text, on_existing=policy), text)
    add('quantity --column amount', load_quantities(Q3, 'amount'), Q3)
    add('quantity', load_quantities(Q3), Q3)
    for text in (Q4, Q5):
        add('quantity --allow-invalid-label', load_quantities(text, allow_invalid_label=True), text)
        add('quantity --allow-invalid-partition', load_quantities(text, allow_invalid_partition=True), text)
    # What is no command.
    add('remove weight w1', refuse)
    add('add', refuse)
    add('index --on-label-conflict never', refuse)
    return out


COMMANDS = commands()

# Links from two other spaces, both once saved by the name of a file here.
def third(hint):
    return [op('add_link', s, n, other_filename_hint=hint) for s, n in (('S1', 'k'), ('S2', 'k'), ('S1', 'n'))]


RECORDS = [['A', 'B'], ['a1', 'b1'], ['a1', 'b2'], ['a2', 'b1']]
SETUPS = [
    ([], []),
    ([op('add_index_columns', 'A', 'B')], [op('add_index_columns', 'X')]),
    ([op('add_index_columns', 'A', 'B'), op('set_domain', 'dom'), op('add_partition_definition', real.SET('A')),
      op('insert_index', RECORDS), op('set_registered_attributes', ['p', 'q']),
      op('add_weight_group', 'w1'), op('add_weight_group', 'w2', selectors=['[p="x"]']),
      op('insert_weights', 'w1', [['A', 'B', 'w1'], ['a1', 'b1', 1.0], ['a1', 'b2', 3.0], ['a2', 'b1', 4.0]]),
      op('insert_weights', 'w2', [['A', 'B', 'w2'], ['a1', 'b1', 1.0]]),
      op('insert_quantities2', value_column='quantity', data=[['A', 'B', 'p', 'quantity'], ['a1', 'b1', 'x', 2.0]]),
      op('add_link', NAMES[1], 'k', other_filename_hint=B)],
     [op('add_index_columns', 'X'), op('insert_index', [['X'], ['x1'], ['x2']]), op('add_weight_group', 'v'),
      op('insert_weights', 'v', [['X', 'v'], ['x1', 1.0], ['x2', 2.0]]),
      op('add_link', NAMES[0], 'k', other_filename_hint=A)]),
    # As before with a link in one direction only and mappings.
    ([op('add_index_columns', 'A', 'B'), op('insert_index', RECORDS), op('add_weight_group', 'w1'),
      op('insert_weights', 'w1', [['A', 'B', 'w1'], ['a1', 'b1', 1.0], ['a1', 'b2', 3.0], ['a2', 'b1', 4.0]]),
      op('set_registered_attributes', ['q', 'p', 'r'])] + third(B),
     third(A) + [op('add_index_columns', 'X'), op('insert_index', [['X'], ['x1'], ['x2']]), op('add_weight_group', 'v'),
      op('add_link', NAMES[0], 'm', other_filename_hint=A), op('add_link', NAMES[0], 'k', other_filename_hint=A),
      op('insert_mappings2', NAMES[0], 'm', [[1, 1, real.L((1,)), 5.0], [2, 2, real.L((1,)), 6.0]],
         columns=['other_index_id', 'index_id', 'mapping_level', 'mapping_value'])]),
]


def build(n):
    """(bytes, bytes, model, model, ids) of set-up *n*."""
    spaces = [real.DataSpace(), real.DataSpace()]
    for name, sp in zip(NAMES, spaces):
        real.SOURCES[name] = sp
        real.SOURCE_IDS[sp.unique_id] = name
    models = [SpaceModel(), SpaceModel()]
    for i in range(2):
        for operation in SETUPS[n][i]:
            name, args, kwds = operation
            if name in ('add_link', 'insert_mappings2'):
                args = [real.S(args[0])] + list(args[1:])
                operation = [name, args, kwds]
            err = real.call(spaces[i], operation)
            if err is not None:
                raise RuntimeError(f'set-up failed: {operation!r}: {err!r}')
            models[i] = real.model_call(models[i], operation)
    blobs = []
    for sp in spaces:
        path = real.save(sp)
        blobs.append(open(path, 'rb').read())
        os.unlink(path)
    return {'files': blobs, 'models': pickle.dumps(models), 'ids': [sp.unique_id for sp in spaces]}


def look(path):
    space = read_file(path)
    o = real.observe(space, path)
    for link in o['links'].values():
        link['hint'] = link['hint'] and os.path.basename(link['hint'])
    return o


def info(path):
    """Sections of what `toron FILE` prints."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        status, _, problem = cli.run([path])
    if status:
        return {'status': (status, repr(problem))}
    sections, name = {}, None
    for line in out.getvalue().splitlines():
        if line.endswith(':') and not line.startswith(' '):
            name = line[:-1]
            sections[name] = []
        elif name:
            sections[name].append(line.strip())
    return sections


def info_problem(path, model, o):
    got = info(path)
    note = lambda default, complete: {(1, 1): ' (default)', (1, 0): ' (default, %s)', (0, 1): '', (0, 0): ' (%s)'}[
        int(bool(default)), int(bool(complete))]
    weights = ', '.join(g['name'] + note(g['key'] == model.default, o['complete'][g['name']]).replace('%s', 'incomplete')
                        for g in sorted(model.groups, key=lambda g: g['name'])) or 'None'
    links = []
    hints = {}
    for l in model.links:
        hints.setdefault((l['src'], l['hint']), []).append(
            l['name'] + note(l['default'], o['link_complete'][(l['src'], l['name'])]).replace('%s', 'locally incomplete'))
    for (_, h), names in hints.items():
        links.append(f'{h}: {", ".join(sorted(names))}')
    links.sort()
    display = model.display()
    want = {'domain': [model.domain or 'None'], 'weights': [weights],
            'attributes': [', '.join(model.attrs) or 'None'], 'incoming links': links or ['None']}
    shown = dict(got)
    shown['incoming links'] = sorted(os.path.basename(x) for x in got.get('incoming links', []))
    for k, v in want.items():
        if shown.get(k) != v:
            return f'{k}: shows {shown.get(k)!r} instead of {v!r}'
    parts = [x.split('  ')[-1].strip() for x in got.get('partitions', [])]
    text = lambda p: ', '.join(c for c in display if c in p)
    want = {text(p) for p in model.pdefs} or {'None'}
    if len(set(parts)) != len(parts) or not want <= set(parts) <= want | {text(model.cols)}:
        return f'partitions: shows {got.get("partitions")!r} instead of {sorted(want)!r}'
    return None


_CODES = {}


def codes(text, ids, paths):
    """Replace @N (%N) by the code of record N of FILE1 (FILE2), as an export spells it."""
    if '@' not in (text or '') and '%' not in (text or ''):
        return text
    for uid, path in zip(ids, paths):
        if any((uid, n) not in _CODES for n in '12'):
            for row in table(cli.run([path, 'index'])[1].decode('utf-8')):
                _CODES[(uid, row[0].split('X')[0])] = row[0]

    def code(cell):
        return _CODES.get((ids['@%'.index(cell[0])], cell[1:]), cell) if cell[:1] in '@%' and cell else cell

    buf = io.StringIO(newline='')
    csv.writer(buf, lineterminator='\n').writerows([[code(c) for c in r] for r in table(text)])
    return buf.getvalue()


def step(state, n, case, r, d):
    """Run command *n* on the files of *state* in directory *d*; the new state or None."""
    args, stdin, meaning = COMMANDS[n]
    paths = [os.path.join(d, A), os.path.join(d, B)]
    for name in os.listdir(d):
        os.unlink(os.path.join(d, name))
    for p, blob in zip(paths, state['files']):
        with open(p, 'wb') as f:
            f.write(blob)
    models = pickle.loads(state['models'])
    try:
        new, refused = list(meaning(*models)), None
    except Refused as err:
        new, refused = pickle.loads(state['models']), err
    except Unspecified:
        r.count('unspecified')
        return None
    argv = [paths[0]] + [paths[1] if a == '@' else a for a in args]
    if args[-1:] != ['add']:
        argv.append('--no-backup')
    with contextlib.redirect_stderr(io.StringIO()):
        status, _, problem = cli.run(argv, codes(stdin, state['ids'], paths))
    r.count('transitions')
    r.count('refused' if refused else 'accepted')
    said = ' '.join(args) + (f' < {stdin!r}' if stdin else '')
    if (status != 0) != (refused is not None):
        r.fail(f'status:{args[0]}:{core.digest(case)}',
               f'`{said}` ends with status {status} {problem!r}, ' + (
                   f'but must be refused: {refused}' if refused else f'but must succeed ({cli.MESSAGES[0][-300:]})'), case)
        return None
    keys = []
    blobs = [open(p, 'rb').read() if os.path.exists(p) else b'' for p in paths]
    for i, (p, model, which) in enumerate(zip(paths, new, NAMES)):
        if blobs[i] == state['files'][i] and vars(model) == vars(models[i]) and 'keys' in state:
            keys.append(state['keys'][i])   # Seen before, no change asked for.
            continue
        try:
            o = look(p)
            diffs = real.compare(model, o)
            note = info_problem(p, model, o)
        except Exception:
            r.fail(f'read:{args[0]}:{core.digest(case)}',
                   f'{which} cannot be read after `{said}`:\n{traceback.format_exc(limit=-4)}', case)
            return None
        if diffs:
            r.fail(f'{args[0]}:{diffs[0][0]}:{core.digest(case)}',
                   f'after `{said}` {which} differs from what was asked for:\n'
                   + '\n'.join(f'[{a}] {m}' for a, m in diffs), case)
            return None
        if note:
            r.fail(f'info:{args[0]}:{core.digest(case)}', f'after `{said}` the information shown of {which} is wrong: '
                   f'{note}', case)
            return None
        keys.append(real.state_key(o['dump']))
    left = sorted(os.listdir(d))
    if left != [A, B]:
        r.fail(f'left:{args[0]}:{core.digest(case)}', f'`{said} --no-backup` leaves {left}', case)
    return {'files': blobs, 'models': pickle.dumps(new), 'ids': state['ids'], 'keys': keys, 'key': core.digest((case['setup'], keys))}


def names_of(state):
    for name, i in zip(NAMES, state['ids']):
        real.SOURCE_IDS[i] = name


def expand(job):
    r = Result()
    d = core.scratch_dir()
    state = job['state']
    names_of(state)
    r.data = []
    sys.unraisablehook = lambda unraisable: None   # Generators dropped after their database is closed.
    try:
        for n in job['picks']:
            case = {'setup': job['setup'], 'path': job['path'] + [n]}
            after = step(state, n, case, r, d)
            if after is None:
                continue
            r.outcome(after['key'])
            r.data.append((after['key'], case['path'], None if job['leaf'] else after))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        real.forget_bound()
    return r


def run_case(case):
    """Replay one sequence."""
    r = Result()
    state = build(case['setup'])
    names_of(state)
    d = core.scratch_dir()
    try:
        for i, n in enumerate(case['path']):
            state = step(state, n, {'setup': case['setup'], 'path': case['path'][:i + 1]}, r, d)
            if state is None:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r


def explore(ctx):
    depth = 3 if ctx.thorough else 2
    seen, frontier = set(), []
    _CODES.clear()
    for n in range(len(SETUPS)):
        frontier.append({'setup': n, 'path': [], 'state': build(n)})
    states = len(frontier)
    everything = list(range(len(COMMANDS)))
    for level in range(1, depth + 1):
        leaf = level == depth
        jobs = [dict(f, leaf=leaf, picks=everything[i::4]) for f in frontier for i in range(4)]
        frontier = []
        for job, data in ctx.map(expand, jobs, batch=1, label=f'depth {level}'):
            for key, path, state in data or ():
                if key in seen:
                    continue
                seen.add(key)
                states += 1
                if states in (2, 50, 500):
                    ctx.sample({'setup': job['setup'], 'commands': [COMMANDS[n][0] for n in path]})
                if not leaf:
                    frontier.append({'setup': job['setup'], 'path': path, 'state': state})
        if ctx.stopped() or ctx.out_of_time():
            break
    ctx.cov['states'] = states
    ctx.cov['commands'] = len(COMMANDS)
    ctx.cov['depth'] = depth
