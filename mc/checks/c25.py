"""C25: rows mean the same in every accepted form."""
import collections
import csv
import io
import itertools
import types
import warnings

from .. import core, lockstep, real
from ..real import op, L, S, SET, decode
from ..scenes import AB, RECS, LINKS, PARTS, WEIGHTS, QUANTS

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: two label columns, tables of up to three rows, up to two extra columns',
    'insert_mappings2 takes its four columns by position (the code says so), so their order is not varied there; '
    'the first three columns of the other mapping operations have a fixed order as well',
]

SETUP = AB + RECS + WEIGHTS + PARTS + LINKS + QUANTS
SETUP_D = SETUP + [op('set_domain', 'd1')]
F_ = L([1, 1])
BY = 'text'


# --------------------------------------------------------------------------
# Tables: method, arguments before the rows, keywords, header, rows, number
# of leading columns whose order is fixed, extra columns
# --------------------------------------------------------------------------
def tables():
    out = []

    def t(method, args, kwds, header, rows, fixed=0, extras=('zzz', 'w9'), setup=0, text=True):
        out.append(dict(method=method, args=list(args), kwds=kwds, header=list(header),
                        rows=[list(r) for r in rows], fixed=fixed, extras=extras, setup=setup, text=text))

    H = ['A', 'B']
    t('insert_index', [], {}, H, [['a5', 'b5'], ['a6', 'b6']])
    t('insert_index', [], {}, H, [['b5', 'a5'], ['a1', 'b1'], ['a6', 'b6']], text=False)
    t('insert_index', [], {'on_label_conflict': 'ignore'}, H, [['a1', 'b1'], ['', 'b6'], ['a6', 'b6']])
    t('insert_index', [], {'on_label_conflict': 'ignore', 'on_weight_conflict': 'replace'}, H + ['w1', 'w2'],
      [['a1', 'b1', 7.0, 8.0], ['a5', 'b5', 3.0, 0.5]])
    t('insert_index', [], {'on_label_conflict': 'ignore', 'weights': 'w2'}, H + ['w2', 'w1'],
      [['a1', 'b2', 7.0, 'junk'], ['a5', 'b5', 3.0, 0.5]])
    t('insert_index', [], {'on_label_conflict': 'replace', 'on_weight_conflict': 'ignore'}, ['index_id'] + H + ['w1'],
      [[1, 'a7', 'b7', 3.0], [3, 'a2', 'b1', 4.0]])
    t('insert_index', [], {}, ['A'], [['a5']])
    t('insert_index', [], {}, H + ['domain'], [['a5', 'b5', 'd1']], setup=1)
    t('update_index', [], {}, ['index_id'] + H, [[1, 'a7', 'b7'], [3, 'a2', 'b9']])
    t('update_index', [], {}, ['index_id', 'B'], [[1, 'b7'], [9, 'b9']])
    t('update_index', [], {'merge_on_conflict': True}, ['index_id'] + H, [[1, 'a1', 'b2'], [3, 'a2', 'b9']])
    t('update_index', [], {}, ['index_id'] + H, [[3, 'a2', 'b9'], [1, 'a1', 'b2']])
    t('delete_index', [], {}, ['index_id'] + H, [[1, 'a1', 'b1'], [2, 'a1', 'b9'], [9, 'a1', 'b1']])
    t('delete_index', [], {}, H, [['a1', 'b1']])
    t('insert_weights', ['w2'], {}, H + ['w2'], [['a1', 'b2', 5.0], ['a9', 'b2', 1.0], ['a2', 'b1', 2.0]],
      extras=('w1', 'value'))
    t('insert_weights', ['w2'], {'on_conflict': 'sum', 'value_column': 'v'}, H + ['v'], [['a1', 'b1', 5.0],
                                                                                      ['a2', 'b1', 2.0]],
      extras=('w2', 'w1'))
    t('insert_weights', ['w2'], {}, H + ['w2'], [['a1', 'b2', 5.0], ['a1', 'b1', 2.0]])
    t('update_weights', ['w1'], {}, ['index_id'] + H + ['w1'], [[1, 'a1', 'b1', 9.0], [2, 'a1', 'b1', 5.0]],
      extras=('w2', 'value'))
    t('update_weights', ['w1'], {'value_column': 'v'}, ['index_id'] + H + ['v'], [[3, 'a2', 'b1', 9.0]],
      extras=('w1', 'value'))
    t('delete_weights', ['w1'], {}, ['index_id'] + H, [[1, 'a1', 'b1'], [2, 'a1', 'b1']])
    M = ['other_index_id', 'm1', 'index_id']
    t('insert_mappings', [S('S1'), 'm1'], {}, M + H + ['mapping_level'],
      [[2, 8.0, 1, 'a1', 'b1', F_], [3, 1.0, 2, 'a2', 'b1', F_]], fixed=3, text=False)
    t('insert_mappings', [S('S1'), 'm2'], {}, ['other_index_id', 'm2', 'index_id'] + H + ['mapping_level'],
      [[1, 8.0, 1, 'a1', 'b1', F_], [1, 1.0, 3, 'a2', 'b1', L([1, 0])]], fixed=3, extras=('m1', 'value'), text=False)
    t('update_mappings', [S('S1'), 'm1'], {}, M + H + ['mapping_level'],
      [[1, 8.0, 1, 'a1', 'b1', F_], [2, 1.0, 2, 'a1', 'b1', F_]], fixed=3, text=False)
    t('delete_mappings', [S('S1'), 'm1'], {}, M + H, [[1, 1.0, 1, 'a1', 'b1'], [2, 2.0, 2, 'a1', 'b1']], fixed=3)
    t('insert_mappings2', [S('S1'), 'm2'], {}, ['other_index_id', 'index_id', 'mapping_level', 'm2'],
      [[2, 1, F_, 8.0], [2, 3, F_, 8.0]], fixed=4, extras=('zzz',), text=False)
    Q = H + ['cat', 'sex', 'v']
    t('insert_quantities2', [], {'value_column': 'v'}, Q, [['a1', 'b2', 'x', 'm', 1.5], ['a2', '', 'y', '', 2.0]],
      extras=('index_id', 'other'))
    t('insert_quantities2', [], {'value_column': 'v', 'on_existing': 'sum'}, Q,
      [['a1', 'b1', 'x', 'm', 1.5], ['a1', '', 'y', '', 2.0], ['a1', '', '', '', 5.0]])
    t('insert_quantities2', [], {'value_column': 'v', 'on_existing': 'replace', 'allow_invalid_label': True}, Q,
      [['a1', 'b1', 'x', 'm', 1.5], ['a8', 'b1', 'y', 'm', 2.0]])
    t('insert_quantities2', [], {'value_column': 'v'}, Q, [['a1', 'b2', 'x', 'm', 1.5], ['a8', 'b1', 'y', 'm', 2.0]])
    t('insert_quantities2', [], {'value_column': 'v'}, H + ['sex', 'v'], [['a1', 'b2', 'm', 1.5]],
      extras=('value', 'other'))
    t('insert_quantities2', [], {'value_column': 'v'}, ['domain'] + H + ['cat', 'v'], [['d1', 'a1', 'b2', 'm', 1.5]],
      setup=1)
    t('insert_quantities2', [], {'value_column': 'v'}, ['domain'] + H + ['cat', 'v'], [['d2', 'a1', 'b2', 'm', 1.5]],
      setup=1)
    t('insert_quantities', [], {'value': 'v', 'attributes': ['cat', 'sex']}, Q,
      [['a1', 'b2', 'x', 'm', 1.5], ['a7', '', 'y', '', 2.0]])
    t('insert_quantities', [], {'value': 'v', 'attributes': 'sex'}, ['domain'] + H + ['sex', 'v'],
      [['d1', 'a1', 'b2', 'm', 1.5], ['d2', 'a7', '', 'y', 2.0]], setup=1)
    # No rows at all change nothing.
    for n in (3, 6, 8, 14, 17, 20, 22, 25, 32):
        x = out[n]
        out.append(dict(x, rows=[]))
    return out


TABLES = tables()


# --------------------------------------------------------------------------
# Forms
# --------------------------------------------------------------------------
class Row(collections.abc.Mapping):
    """A mapping that is not a dict."""
    def __init__(self, pairs):
        self._d = dict(pairs)

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


def as_text(v):
    return '' if v is None else str(v)


def csv_text(header, rows):
    f = io.StringIO()
    w = csv.writer(f)
    w.writerow(header)
    w.writerows([[as_text(v) for v in r] for r in rows])
    return io.StringIO(f.getvalue(), newline='')


FORMS = {
    'lists': lambda h, r: ([list(h)] + [list(x) for x in r], None),
    'tuples': lambda h, r: (tuple([tuple(h)] + [tuple(x) for x in r]), None),
    'lazy': lambda h, r: ((list(x) for x in [h] + r), None),
    'columns': lambda h, r: ([list(x) for x in r], list(h)),
    'columns tuple': lambda h, r: ([tuple(x) for x in r], tuple(h)),
    'columns lazy': lambda h, r: (iter([tuple(x) for x in r]), list(h)),
    'userlists': lambda h, r: ([collections.UserList(x) for x in [h] + r], None),
    'dicts': lambda h, r: ([dict(zip(h, x)) for x in r], None),
    'dicts lazy': lambda h, r: ((dict(zip(h, x)) for x in r), None),
    'mappings': lambda h, r: ([Row(zip(h, x)) for x in r], None),
    'proxies': lambda h, r: ([types.MappingProxyType(dict(zip(h, x))) for x in r], None),
    # Later rows list their keys in another order.
    'dicts shuffled': lambda h, r: ([dict(list(zip(h, x))[::(1 if n % 2 == 0 else -1)])
                                     for n, x in enumerate(r)], None),
    # The given columns say which of the keys are used, and their order.
    'dicts columns': lambda h, r: ([dict(list(zip(h, x))[::-1] + [('zzz2', 'junk')]) for x in r], list(h)),
}
TEXT_FORMS = {
    'csv reader': lambda h, r: (csv.reader(csv_text(h, r)), None),
    'csv dictreader': lambda h, r: (csv.DictReader(csv_text(h, r)), None),
    'text dicts': lambda h, r: ([{k: as_text(v) for k, v in zip(h, x)} for x in r], None),
}

JUNK = ['', None, 0, -1.5, 'a1', 'a2', 'b1', 'b2', '-']    # what unused cells hold
_blobs = {}


def blob(n):
    if n not in _blobs:
        space, _ = lockstep.build([SETUP, SETUP_D][n])
        path = real.save(space)
        _blobs[n] = real.snapshot(path)
        core.os.unlink(path)
    return _blobs[n]


def dump_of(space):
    path = real.save(space)
    d = real.raw_dump(path)
    core.os.unlink(path)
    for table in real.OWN_ID:
        names, rows = d[table]
        d[table] = (names, sorted(rows, key=repr))
    d.pop('sqlite_sequence')     # follows from the others, except after refused rows
    return d


def run_rows(table, data, columns):
    space = real.restore(blob(table['setup']))
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            func = getattr(space, table['method'])
            args = decode(table['args'], 'real')
            kwds = decode(table['kwds'], 'real')
            if columns is not None:
                kwds['columns'] = columns
            if 'quantities' in table['method']:
                func(data=data, **kwds)
            else:
                func(*args, data, **kwds)
    except Exception as e:
        err = type(e).__name__
    return err, dump_of(space)


_canon = {}


def canonical(n, text):
    if (n, text) not in _canon:
        t = TABLES[n]
        rows = [decode(r, 'real') for r in t['rows']]
        if text:
            rows = [[as_text(v) for v in r] for r in rows]
        _canon[n, text] = run_rows(t, *FORMS['lists'](t['header'], rows))
    return _canon[n, text]


def columns_known(form):
    """Whether a table of this form has columns when it has no rows."""
    return form in ('csv reader',) or not ('dict' in form or form in ('mappings', 'proxies'))


def rows_case(case):
    res = core.Result()
    t = TABLES[case['table']]
    order = case['order']
    header = [t['header'][i] for i in order]
    rows = [decode(r, 'real') for r in t['rows']]
    rows = [[r[i] for i in order] for r in rows]
    for name, pos, *junk in case.get('extra', ()):
        header.insert(pos, name)
        rows = [r[:pos] + (junk or [f'junk{n}']) + r[pos:] for n, r in enumerate(rows)]
    text = case['form'] in TEXT_FORMS
    form = (TEXT_FORMS if text else FORMS)[case['form']]
    if text:
        rows = [[as_text(v) for v in r] for r in rows]
    want_err, want = canonical(case['table'], text)
    err, got = run_rows(t, *form(header, rows))
    res.count('transitions')
    what = f'{t["method"]}{tuple(t["args"])!r} with {t["kwds"]!r} of {header!r}, {rows!r} as {case["form"]!r}'
    if (err is None) != (want_err is None) and (rows or columns_known(case['form'])):
        res.fail(f'outcome:{t["method"]}:{case["form"]}', f'{what}: {err or "accepted"}, but {want_err or "accepted"} '
                 f'when given as lists with the columns {t["header"]!r}', case)
    else:
        for area in want:
            if got[area] != want[area]:
                res.fail(f'{area}:{t["method"]}:{case["form"]}', f'{what}: {area} holds {got[area]!r}, but '
                         f'{want[area]!r} when given as lists with the columns {t["header"]!r}', case)
                break
    res.outcome([err, core.digest(got)])
    return res


def rows_cases(thorough):
    for n, t in enumerate(TABLES):
        ident = list(range(len(t['header'])))
        fixed = ident[:t['fixed']]
        orders = [fixed + list(p) for p in itertools.permutations(ident[t['fixed']:])]
        forms = list(FORMS) + (list(TEXT_FORMS) if t['text'] else [])
        for form in forms:
            for order in orders:
                yield {'kind': 'rows', 'table': n, 'form': form, 'order': order}
        for form in forms:
            for order in (orders if thorough else orders[:1] + orders[-1:]):
                spots = range(t['fixed'], len(ident) + 1)
                for name in t['extras']:
                    for pos in spots:
                        yield {'kind': 'rows', 'table': n, 'form': form, 'order': order, 'extra': [[name, pos]]}
                for junk, pos in itertools.product(JUNK, spots if thorough else (spots[0], spots[-1])):
                    yield {'kind': 'rows', 'table': n, 'form': form, 'order': order,
                           'extra': [[t['extras'][0], pos, junk]]}
                if len(t['extras']) > 1:
                    for p1, p2 in itertools.product(spots, repeat=2) if thorough else [(t['fixed'], len(ident))]:
                        yield {'kind': 'rows', 'table': n, 'form': form, 'order': order,
                               'extra': [[t['extras'][0], p1], [t['extras'][1], p2]]}


# --------------------------------------------------------------------------
# load_mapping
# --------------------------------------------------------------------------
LEFT, RIGHT = ['X', 'Y'], ['A', 'B']
MAPS = [
    [['x1', 'y1', 5.0, 'a1', 'b1'], ['x1', 'y2', 2.0, 'a1', 'b2'], ['x2', 'y1', 1.0, 'a2', 'b1']],
    [['x1', 'y1', 5.0, 'a1', 'b1'], ['x9', 'y2', 2.0, 'a1', 'b2'], ['x2', 'y1', 1.0, 'a9', 'b1']],
    [['x1', '', 5.0, 'a1', ''], ['x2', 'y1', 1.0, 'a2', 'b1']],
]


def pair():
    left, right = real.DataSpace(), real.DataSpace()
    left.add_index_columns(*LEFT)
    left.insert_index([LEFT, ['x1', 'y1'], ['x1', 'y2'], ['x2', 'y1']])
    left.add_partition_definitions({'X'})
    right.add_index_columns(*RIGHT)
    right.insert_index([RIGHT, ['a1', 'b1'], ['a1', 'b2'], ['a2', 'b1']])
    right.add_partition_definitions({'A'})
    return left, right


def run_map(direction, data, columns):
    from toron.graph import load_mapping
    left, right = pair()
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            load_mapping(left, direction, right, 'm', data, columns, match_limit=5)
    except Exception as e:
        err = type(e).__name__
    out = []
    for mine, other in ((left, right), (right, left)):
        d = dump_of(mine)
        names, rows = d['link']
        at = names.index('other_unique_id')
        d['link'] = (names, [[v if i != at else v == other.unique_id for i, v in enumerate(r)] for r in rows])
        out.append(d)
    return err, out


_canon_map = {}


def map_case(case):
    res = core.Result()
    direction = case['direction']
    key = (case['map'], direction)
    base = LEFT + ['m'] + RIGHT
    rows = MAPS[case['map']]
    if key not in _canon_map:
        _canon_map[key] = run_map(direction, *FORMS['lists'](base, rows))
    header = [base[i] for i in case['order']]
    rows = [[r[i] for i in case['order']] for r in rows]
    err, got = run_map(direction, *FORMS[case['form']](header, rows))
    want_err, want = _canon_map[key]
    res.count('transitions')
    if err != want_err or got != want:
        side = next((i for i in (0, 1) if got[i] != want[i]), None)
        diff = '' if side is None else next(f'{k}: {got[side][k]!r} instead of {want[side][k]!r}'
                                            for k in want[side] if got[side][k] != want[side][k])
        res.fail(f'load_mapping:{case["form"]}:{direction}', f'load_mapping {direction} of {header!r}, {rows!r} as '
                 f'{case["form"]!r}: {err or "accepted"} {diff}; as lists in the order {base!r}: '
                 f'{want_err or "accepted"}', case)
    res.outcome([err, core.digest(got)])
    return res


def map_cases():
    for m in range(len(MAPS)):
        for direction in ('->', '<-', '<->'):
            for a, b in itertools.product(itertools.permutations((0, 1)), itertools.permutations((3, 4))):
                for form in FORMS:
                    yield {'kind': 'map', 'map': m, 'direction': direction, 'form': form,
                           'order': list(a) + [2] + list(b)}


# --------------------------------------------------------------------------
# Wide to long
# --------------------------------------------------------------------------
WIDE = ['k', 'p', 'q', 'r']
VALUES = [[['k1', 1, 2, 3], ['k2', 4, 5, 6]], [['k1', 1, None, 0]], [['k1', '1', '', '0'], ['k1', '1', '', '0']], []]
W_FORMS = ('lists', 'tuples', 'lazy', 'userlists', 'dicts', 'dicts lazy', 'mappings', 'dicts shuffled', 'csv reader',
           'csv dictreader')


def wide_case(case):
    import toron
    res = core.Result()
    order = case['order']
    header = [WIDE[i] for i in order]
    rows = [[r[i] for i in order] for r in VALUES[case['values']]]
    text = case['form'] in TEXT_FORMS
    if text:
        rows = [[as_text(v) for v in r] for r in rows]
    data, _ = (TEXT_FORMS if text else FORMS)[case['form']](header, rows)
    stack = case['stack']
    names = [stack] if isinstance(stack, str) else list(stack)
    if case['lazy'] and not isinstance(stack, str):
        stack = tuple(stack)
    keep = [c for c in header if c not in names]
    var, val = case['names']
    kw = {} if case['names'] == ['variable', 'value'] else None
    is_dicts = 'dict' in case['form'] or 'mapping' in case['form']
    func = getattr(toron, case['func'])
    long = []
    for r in rows:
        d = dict(zip(header, r))
        for c in names:
            long.append(dict([(k, d[k]) for k in keep] + [(var, c), (val, d.get(c))]))
    bad = [c for c in names if c not in header]
    want = long
    if case['func'] == 'wide_to_long' and not is_dicts:
        want = [tuple(keep) + (var, val)] + [tuple(x.values()) for x in long]
    try:
        it = func(data, stack) if kw is not None else func(data, stack, var, val)
        got = list(it)
        err = None
        if is_dicts or case['func'] == 'wide_to_narrow':
            got = [dict(x) for x in got]
        else:
            got = [tuple(x) for x in got]
    except Exception as e:
        got, err = None, type(e).__name__
    res.count('transitions')
    what = f'{case["func"]}({header!r} {rows!r} as {case["form"]!r}, {stack!r}, {var!r}, {val!r})'
    clash = var in header or val in header   # wide_to_narrow refuses these names
    if bad or clash:
        if rows and bad and err is None:
            res.fail(f'unknown:{case["func"]}', f'{what} accepts the unknown column {bad}', case)
    elif not rows and is_dicts:
        pass     # nothing to tell the columns from
    elif err or got != want:
        res.fail(f'wide:{case["func"]}:{case["form"]}', f'{what} gives {err or got!r}, expected {want!r}', case)
    res.outcome([case['func'], err, core.digest(got)])
    return res


def wide_cases():
    stacks = [list(p) for n in (1, 2, 3) for p in itertools.permutations(['p', 'q', 'r'], n)] + ['p', 'q'] \
        + [['p', 'zz'], 'zz', ['k', 'p', 'q', 'r']]
    for func in ('wide_to_long', 'wide_to_narrow'):
        for form in W_FORMS:
            for order in itertools.permutations(range(4)):
                for stack in stacks:
                    if func == 'wide_to_narrow' and isinstance(stack, str):
                        continue     # takes a sequence of names
                    for v in range(len(VALUES)):
                        for names in (['variable', 'value'], ['race', 'pop']):
                            if order[0] == 0 or (names[0] == 'race' and v == 0):
                                yield {'kind': 'wide', 'func': func, 'form': form, 'order': list(order),
                                       'stack': stack, 'values': v, 'names': names, 'lazy': order[1] == 1}


RUN = {'rows': rows_case, 'map': map_case, 'wide': wide_case}


def run_case(case):
    return RUN[case['kind']](case)


def explore(ctx):
    for label, cases in (('rows', list(rows_cases(ctx.thorough))), ('load_mapping', list(map_cases())),
                         ('wide', list(wide_cases()))):
        n = ctx.run(run_case, cases, label=label)
        ctx.cov[f'{label}_cases'] = n
    ctx.counts['states'] = sum(ctx.cov[k] for k in ('rows_cases', 'load_mapping_cases', 'wide_cases'))
    ctx.cov['tables'] = len(TABLES)
    ctx.cov['forms'] = len(FORMS) + len(TEXT_FORMS)
