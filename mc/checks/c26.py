"""C26: rows are taken one by one, and reported as they were taken."""
import contextlib
import csv
import io
import itertools
import logging
import re
import warnings

from .. import cli, core, lockstep, real
from ..real import op, L, S, SET, decode
from ..scenes import AB, RECS, LINKS, PARTS, WEIGHTS, QUANTS, COARSE

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: two label columns, three index records, up to six rows of a kind, sequences of up to three rows',
    'reports are what a caller can see: messages of the app-toron logger and ToronWarning; a deletion, update or '
    'mapping insertion which reports nothing has taken up every row',
    'rows passed over without being reported (known: insert_index for labels which are present already and rows '
    'without cells, insert_quantities for rows without attributes, insert_mappings2 for undefined-to-undefined) must '
    'leave everything as it was',
]

BASE = AB + RECS + WEIGHTS + PARTS + LINKS + QUANTS
SETUPS = {
    'full': BASE,
    'domain': BASE + [op('set_domain', 'd1')],
    'coarse': AB + RECS + PARTS + COARSE,
}
F_ = L([1, 1])
A_ = L([1, 0])
B_ = L([0, 1])


# --------------------------------------------------------------------------
# Operations: method, arguments, keywords, header, kinds of rows
# --------------------------------------------------------------------------
def operations():
    out = []

    def o(method, args, kwds, header, rows, setup='full', counted=True, table=None):
        out.append(dict(method=method, args=list(args), kwds=kwds, header=list(header), rows=[list(r) for r in rows],
                        setup=setup, counted=counted, table=table))

    H = ['A', 'B']
    new = [['a5', 'b5'], ['a6', 'b6'], ['a1', 'b1'], ['a1', ''], ['', ''], ['b1', 'a1'], ['-', '-']]
    o('insert_index', [], {}, H, new, counted=False, table='label_index')
    for lc in ('abort', 'ignore', 'replace'):
        for wc in ('abort', 'ignore', 'replace'):
            rows = [['', 'a5', 'b5', 3.0, ''], ['', 'a1', 'b1', 7.0, 8.0], ['1', 'a1', 'b1', '', 9.0],
                    ['2', 'a7', 'b7', 5.0, 6.0], ['3', 'a2', 'b1', '', ''], ['', 'a6', '', 1.0, 1.0], ['3', 'a2', 'b1', 0.0, '0'],
                    ['0', '-', '-', 0.0, ''], ['0', '-', '-', 5.0, ''], ['', 'a1', 'b2', '', 4.0], ['3', 'a5', 'b5', '', 2.0], ['9', 'a9', 'b9', '', '']]
            o('insert_index', [], {'on_label_conflict': lc, 'on_weight_conflict': wc}, ['index_id'] + H + ['w1', 'w2'],
              rows, counted=False, table='label_index')
    o('insert_index', [], {'on_weight_conflict': 'replace'}, ['index_id', 'w2'],
      [['1', 5.0], ['2', 6.0], ['3', ''], ['0', 0.0], ['0', 4.0], ['2', 7.0]], counted=False, table='label_index')
    for merge in (False, True):
        o('update_index', [], {'merge_on_conflict': merge}, ['index_id'] + H,
          [[1, 'a7', 'b7'], [1, 'a1', 'b1'], [2, 'a1', 'b1'], [3, 'a2', 'b9'], [9, 'a9', 'b9'], [2, '', 'b9'],
           ['', 'a9', 'b9'], [3, 'a1', 'b2']], table='label_index')
    o('delete_index', [], {}, ['index_id'] + H,
      [[1, 'a1', 'b1'], [2, 'a1', 'b2'], [3, 'a2', 'b1'], [9, 'a9', 'b9'], [2, 'a1', 'b1'], [3, 'b1', 'a2']],
      table='label_index')
    W = [['a1', 'b1', 5.0], ['a1', 'b2', 2.5], ['a2', 'b1', '4'], ['a9', 'b1', 1.0], ['a2', 'b1', 'nope'],
         ['a1', 'b2', None], ['a1', 'b2', float('inf')], ['-', '-', 1.0], ['', 'b1', 1.0]]
    for policy in ('abort', 'ignore', 'replace', 'sum'):
        o('insert_weights', ['w2'], {'on_conflict': policy, 'value_column': 'v'}, H + ['v'], W, table='weight')
        o('insert_weights', ['w2'], {'on_conflict': policy, 'value_column': 'v'}, ['index_id'] + H + ['v'],
          [[1, 'a1', 'b1', 5.0], [2, 'a1', 'b2', 2.5], [3, 'a2', 'b1', ''], [2, 'a1', 'b1', 5.0], [9, 'a1', 'b1', 5.0],
           [0, '-', '-', 1.0], [3, 'a2', 'b1', '0']], table='weight')
    o('insert_weights', ['w7'], {'value_column': 'v'}, H + ['v'], W[:6], table='weight')
    o('update_weights', ['w2'], {'value_column': 'v'}, ['index_id'] + H + ['v'],
      [[1, 'a1', 'b1', 5.0], [2, 'a1', 'b2', 2.5], [3, 'a2', 'b1', 0.0], [2, 'a1', 'b1', 5.0], [9, 'a1', 'b1', 5.0],
       [1, 'a1', 'b1', 8.0]], table='weight')
    for g in ('w1', 'w2'):
        o('delete_weights', [g], {}, ['index_id'] + H,
          [[1, 'a1', 'b1'], [2, 'a1', 'b2'], [3, 'a2', 'b1'], [2, 'a1', 'b1'], [9, 'a1', 'b1'], [0, '-', '-']],
          table='weight')
    for link in ('m1', 'm2'):
        M = ['other_index_id', link, 'index_id'] + H
        rows = [[4, 8.0, 1, 'a1', 'b1', F_], [4, 1.0, 3, 'a2', 'b1', A_], [1, 1.5, 2, 'a1', 'b2', F_],
                [2, 2.0, 2, 'a1', 'b1', F_], [2, 2.0, 9, 'a1', 'b1', F_], [2, 2.0, 3, 'a2', 'b1', B_],
                [0, 2.0, 1, 'a1', 'b1', F_], [3, 6.0, 0, '-', '-', F_]]
        o('insert_mappings', [S('S1'), link], {}, M + ['mapping_level'], rows, table='mapping')
        o('update_mappings', [S('S1'), link], {}, M + ['mapping_level'], rows, table='mapping')
        o('delete_mappings', [S('S1'), link], {}, M,
          [[1, 1.0, 1, 'a1', 'b1'], [1, 7.0, 2, 'a1', 'b2'], [2, 2.0, 2, 'a1', 'b2'], [2, 9.0, 2, 'a1', 'b2'],
           [1, 1.0, 1, 'a1', 'b2'], [1, 1.0, 9, 'a1', 'b1'], [4, 1.0, 1, 'a1', 'b1'], [1, '3', 2, 'a1', 'b2']],
          table='mapping')
        o('insert_mappings2', [S('S1'), link], {}, ['other_index_id', 'index_id', 'mapping_level', link],
          [[4, 1, F_, 8.0], [4, 3, A_, 1.0], [1, 2, F_, 1.5], [2, 3, B_, 2.0], [0, 1, F_, 2.0], [0, 0, None, 0.0],
           [3, 0, F_, 6.0]], table='mapping', counted=False)
    o('delete_mappings', [S('S1'), 'm1'], {}, ['other_index_id', 'm1', 'index_id'] + H,
      [[1, 1.0, 1, 'a1', 'b1'], [1, 3.0, 2, 'a1', 'b2'], [2, 2.0, 3, 'a2', 'b1'], [2, 9.0, 3, 'a2', 'b1'],
       [3, 2.0, 3, 'a2', 'b1']], setup='coarse', table='mapping')
    Q = H + ['cat', 'sex', 'v']
    qrows = [['a1', 'b2', 'x', 'm', 1.5], ['a1', 'b1', 'x', 'm', 4.0], ['a2', '', 'y', '', 2.0], ['a1', '', '', '', 5.0],
             ['a8', 'b1', 'y', 'm', 2.0], ['', 'b1', 'x', '', 3.0], ['a1', '', 'y', '', 2.5], ['', '', '', 'f', 1.0]]
    for policy in ('abort', 'ignore', 'replace', 'sum'):
        for lab, part in ((False, False), (True, False), (False, True), (True, True)):
            o('insert_quantities2', [], {'value_column': 'v', 'on_existing': policy, 'allow_invalid_label': lab,
                                         'allow_invalid_partition': part}, Q, qrows, table='quantity')
    o('insert_quantities', [], {'value': 'v', 'attributes': ['cat', 'sex']}, Q, qrows, table='quantity', counted=False)
    o('insert_quantities', [], {'value': 'v', 'attributes': ['cat', 'sex']}, ['domain'] + Q,
      [['d1', 'a1', 'b2', 'x', 'm', 1.5], ['d2', 'a1', 'b2', 'y', 'm', 1.5], ['d1', 'a1', '', 'x', '', 9.0],
       ['', 'a2', 'b1', 'y', '', 1.0], ['d1', 'a7', 'b7', 'y', 'm', 1.0]], setup='domain', table='quantity', counted=False)
    o('insert_quantities2', [], {'value_column': 'v', 'on_existing': 'sum'}, ['domain'] + Q,
      [['d1', 'a1', 'b2', 'x', 'm', 1.5], ['d2', 'a1', 'b2', 'y', 'm', 1.5], ['d1', 'a1', '', 'x', '', 9.0],
       ['d1', 'a2', 'b1', '', '', 1.0]], setup='domain', table='quantity')
    return out


OPS = operations()
SILENT = {'update_index': 'updated', 'delete_index': 'deleted', 'insert_mappings': 'loaded',
          'update_mappings': 'updated', 'delete_mappings': 'deleted', 'reify_mappings': 'reified'}
# What the words of a report mean for the number of records.
GROW = {'loaded': 1, 'inserted': 1, 'deleted': -1, 'merged': -1, 'updated': 0, 'replaced': 0, 'combined': 0, 'added': 0,
        'reified': 0}
KEEP = ('skipped', 'ignored')
SEGMENT = re.compile(r'^(?:(%s) )(?:sum of )?(\d+) (.*)$' % '|'.join(list(GROW) + list(KEEP)), re.S)
NOTED = re.compile(r'^(\d+) (quantities .*)$', re.S)     # says more about rows counted elsewhere


# --------------------------------------------------------------------------
# Running and listening
# --------------------------------------------------------------------------
class Listener(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.said = []

    def emit(self, record):
        self.said.append(record.getMessage())


@contextlib.contextmanager
def listening():
    """Collect the messages and warnings for the caller."""
    logger = logging.getLogger('app-toron')
    handler = Listener()
    old = logger.level, logging.root.manager.disable
    logger.addHandler(handler)
    logger.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    try:
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter('always')
            yield handler.said
            handler.said.extend(str(w.message) for w in seen if w.category.__name__ == 'ToronWarning')
    finally:
        logger.removeHandler(handler)
        logger.setLevel(old[0])
        logging.disable(old[1])


def parse(method, said, n):
    """Return {(word, about): number}, notes and other statements."""
    report, notes, other = {}, {}, []
    for message in said:
        found = False
        for part in message.split(', '):
            m = SEGMENT.match(part)
            if m:
                found = True
                key = (m.group(1), m.group(3))
                report[key] = report.get(key, 0) + int(m.group(2))
                continue
            m = NOTED.match(part)
            if m:
                found = True
                notes[m.group(2)] = notes.get(m.group(2), 0) + int(m.group(1))
        if not found or 'complete' in message:
            other.append(message)
    report = {k: v for k, v in report.items() if v}
    if not report and method in SILENT and n:
        report = {(SILENT[method], 'rows'): n}
    return report, notes, other


_blobs = {}


def blob(name):
    if name not in _blobs:
        space, _ = lockstep.build(SETUPS[name])
        path = real.save(space)
        _blobs[name] = real.snapshot(path)
        core.os.unlink(path)
    return _blobs[name]


def dump_of(space):
    path = real.save(space)
    d = real.raw_dump(path)
    core.os.unlink(path)
    for table in real.OWN_ID:
        names, rows = d[table]
        d[table] = (names[-len(rows[0]):] if rows else names, sorted(rows, key=repr))     # without own ids
    d.pop('sqlite_sequence')
    return d


def call(space, o, rows):
    data = [o['header']] + [decode(r, 'real') for r in rows]
    args, kwds = decode(o['args'], 'real'), decode(o['kwds'], 'real')
    err = None
    with listening() as said:
        try:
            func = getattr(space, o['method'])
            if 'quantities' in o['method']:
                func(data=data, **kwds)
            else:
                func(*args, data, **kwds)
        except Exception as e:
            err = type(e).__name__
    return err, said


def size(d, table):
    return len(d[table][1])


def complete_said(said):
    return any('weight group is complete' in x for x in said)


def group_complete(d, name):
    """Whether every index record but the undefined one has a weight."""
    names, rows = d['weight_group']
    gid = [r[names.index('weight_group_id')] for r in rows if r[names.index('name')] == name][0]
    names, rows = d['weight']
    have = {r[names.index('index_id')] for r in rows if r[names.index('weight_group_id')] == gid}
    names, rows = d['label_index']
    return {r[names.index('index_id')] for r in rows} - {0} <= have


def judge(res, case, o, rows, before, after, said, what):
    """Compare what was said with what was done."""
    method = o['method']
    report, notes, other = parse(method, said, len(rows))
    about = lambda w: sum(v for k, v in report.items() if k[0] == 'loaded' and w in k[1])
    tables = {o['table']: report}
    if method == 'insert_index':
        tables = {'label_index': {k: v for k, v in report.items() if 'labels' in k[1]},
                  'weight': {k: v for k, v in report.items() if 'weights' in k[1]}}
    for table, part in tables.items():
        want = sum(GROW.get(k[0], 0) * v for k, v in part.items())
        got = size(after, table) - size(before, table)
        if got != want:
            res.fail(f'number:{method}:{table}', f'{what}: {table} went from {size(before, table)} to '
                     f'{size(after, table)} records, but the report is {said!r}', case)
        effects = sum(v for k, v in part.items() if k[0] in GROW)
        if not effects and after[table] != before[table] and not (
                method in ('update_index',) and table != o['table']):
            res.fail(f'unsaid:{method}:{table}', f'{what}: {table} was changed, but the report is {said!r}', case)
    if not any(k[0] in GROW for k in report):
        changed = [t for t in after if after[t] != before[t]]
        if method == 'insert_weights':
            changed = [t for t in changed if t != 'weight_group']     # the group is made for the rows
        if changed:
            res.fail(f'nothing:{method}', f'{what}: {changed} changed, but the report is {said!r}', case)
    if o['counted']:
        total = sum(v for k, v in report.items() if k[0] != 'merged')
        if total != len(rows):
            res.fail(f'account:{method}', f'{what}: the report {said!r} accounts for {total} of {len(rows)} rows', case)
    if method == 'insert_weights':
        name = o['args'][0]
        if complete_said(said) != group_complete(after, name):
            res.fail(f'complete:{method}', f'{what}: the report is {said!r}, but the weight group is '
                     f'{"" if group_complete(after, name) else "not "}complete', case)
    for text, n in notes.items():
        if n > len(rows):
            res.fail(f'notes:{method}', f'{what}: {n} {text} of {len(rows)} rows', case)
    return report, notes


def add(total, part):
    for k, v in part.items():
        total[k] = total.get(k, 0) + v


def plain(report, method):
    """Report without the words for what was taken up when all was."""
    word = SILENT.get(method)
    out = {}
    for (verb, text), n in report.items():
        key = (verb, 'rows') if verb == word else (verb, text)
        out[key] = out.get(key, 0) + n
    return out


def rows_case(case):
    res = core.Result()
    o = OPS[case['op']]
    rows = [o['rows'][i] for i in case['rows']]
    what = f'{o["method"]}({", ".join(repr(a) for a in o["args"])}, {o["header"]!r}, {rows!r}, {o["kwds"]!r}) in {o["setup"]!r}'
    space = real.restore(blob(o['setup']))
    before = dump_of(space)
    err, said = call(space, o, rows)
    after = dump_of(space)
    res.count('transitions')
    if err is None:
        report, notes = judge(res, case, o, rows, before, after, said, what)
    elif after != before:
        res.fail(f'refused:{o["method"]}', f'{what}: refused with {err}, but '
                 f'{[t for t in after if after[t] != before[t]]} changed', case)
    # The same rows, one at a time.
    single = real.restore(blob(o['setup']))
    sum_report, sum_notes = {}, {}
    one_err = None
    state = before
    merged = set()
    for i, row in enumerate(rows):
        one_err, said1 = call(single, o, [row])
        res.count('transitions')
        if one_err:
            break
        d = dump_of(single)
        rep, nts = judge(res, case, o, [row], state, d, said1, f'row {row!r} alone, as row {i} of {what}')
        add(sum_report, plain(rep, o['method']))
        add(sum_notes, nts)
        state = d
    if (err is None) != (one_err is None):
        if not stale_merge(o, rows, err):
            res.fail(f'outcome:{o["method"]}', f'{what}: {err or "accepted"}, but one row at a time: '
                     f'{one_err or "accepted"}', case)
    elif err is None:
        for table in after:
            if after[table] != state[table]:
                res.fail(f'together:{o["method"]}:{table}', f'{what}: {table} holds {after[table]!r}, but '
                         f'{state[table]!r} when the rows are given one at a time', case)
                break
        if plain(report, o['method']) != sum_report or notes != sum_notes:
            res.fail(f'sum:{o["method"]}', f'{what}: reports {report} {notes}, but {sum_report} {sum_notes} over the '
                     f'rows one at a time', case)
    res.outcome([o['method'], err, core.digest(after)])
    return res


def stale_merge(o, rows, err):
    """A row for a record merged by an earlier row: refused together only."""
    return o['method'] == 'update_index' and o['kwds'].get('merge_on_conflict') and err == 'ValueError'


def rows_cases(thorough):
    for n, o in enumerate(OPS):
        kinds = range(len(o['rows']))
        for length in (1, 2, 3):
            seqs = itertools.product(kinds, repeat=length)
            if length == 3 and not thorough:
                if n % 3:
                    continue
                seqs = itertools.permutations(kinds, 3)
            for s in seqs:
                yield {'kind': 'rows', 'op': n, 'rows': list(s)}


# --------------------------------------------------------------------------
# By criteria
# --------------------------------------------------------------------------
CRITERIA = [{}, {'A': 'a1'}, {'A': 'a2'}, {'B': 'b1'}, {'A': 'a1', 'B': 'b1'}, {'A': 'a1', 'B': 'b2'}, {'A': 'zz'},
            {'A': '-'}, {'A': '-', 'B': '-'}]
BY = [('delete_index', [], 'label_index'), ('delete_weights', ['w1'], 'weight'), ('delete_weights', ['w2'], 'weight'),
      ('delete_mappings', [S('S1'), 'm1'], 'mapping'), ('delete_mappings', [S('S1'), 'm2'], 'mapping'),
      ('reify_mappings', [S('S1'), 'm1'], 'mapping')]


def levels(d, link):
    names, rows = d['link']
    lid = [r[names.index('link_id')] for r in rows if r[names.index('name')] == link][0]
    names, rows = d['mapping']
    pos = names.index('mapping_level')
    return [r[pos] for r in rows if r[names.index('link_id')] == lid]


def by_case(case):
    res = core.Result()
    method, args, table = BY[case['by']]
    space = real.restore(blob(case['setup']))
    d = before = dump_of(space)
    for n in case['criteria']:
        crit = CRITERIA[n]
        what = f'{method}({", ".join(repr(a) for a in args)}, {crit!r}) after {case["criteria"]!r} in {case["setup"]!r}'
        before = d
        err = None
        with listening() as said:
            try:
                getattr(space, method)(*decode(args, 'real'), **crit)
            except Exception as e:
                err = type(e).__name__
        d = dump_of(space)
        res.count('transitions')
        if err:
            if d != before:
                res.fail(f'refused:{method}', f'{what}: refused with {err}, but something changed', case)
            continue
        report, notes, _ = parse(method, said, 0)
        gone = size(before, table) - size(d, table)
        if method == 'reify_mappings':
            exact = max([x for x in levels(before, 'm1') + levels(d, 'm1') if x], default=None)
            gone = sum(x == exact for x in levels(d, 'm1')) - sum(x == exact for x in levels(before, 'm1'))
            if size(before, table) != size(d, table):
                res.fail('number:reify', f'{what} changes the number of mappings', case)
        word = {'reify_mappings': 'reified'}.get(method, 'deleted')
        count = sum(v for k, v in report.items() if k[0] == word)
        if said and count != gone:
            res.fail(f'by:{method}', f'{what}: {gone} records {word}, but the report is {said!r}', case)
        if not said and method == 'delete_weights':
            res.fail(f'by:{method}', f'{what}: nothing reported', case)
        left = None
        ids = matching(before, crit)
        if method == 'delete_weights' and ids is not None:
            left = len(ids) - gone
        elif method == 'delete_mappings' and ids is not None:
            left = len(of_link(before, args[1], ids)) - gone
        if left is not None:
            skipped = sum(v for k, v in report.items() if k[0] in KEEP)
            if skipped != left:
                res.fail(f'left:{method}', f'{what}: {left} matching records left alone, but the report is {said!r}', case)
    res.outcome([method, core.digest(d)])
    return res


def matching(d, crit):
    names, rows = d['label_index']
    ids = {r[names.index('index_id')] for r in rows
           if all(r[names.index(k)] == v for k, v in crit.items())}
    return ids


def of_link(d, link, ids):
    names, rows = d['link']
    lid = [r[names.index('link_id')] for r in rows if r[names.index('name')] == link][0]
    names, rows = d['mapping']
    return [r for r in rows if r[names.index('link_id')] == lid and r[names.index('index_id')] in ids]


def by_cases(thorough):
    for n, (method, args, table) in enumerate(BY):
        for setup in ('full', 'coarse'):
            if setup == 'coarse' and (method == 'delete_weights' or args[1:] == ['m2']):
                continue
            for length in (1, 2, 3) if thorough else (1, 2):
                for c in itertools.product(range(len(CRITERIA)), repeat=length):
                    yield {'kind': 'by', 'by': n, 'setup': setup, 'criteria': list(c)}


# --------------------------------------------------------------------------
# Commands
# --------------------------------------------------------------------------
WRITTEN = re.compile(r'written (\d+) records?$', re.M)
CONTAINS = re.compile(r'contains (\d+) (unmatched indexes from FILE[12]|indexes that no longer exist in FILE1)')
COMPLETE = re.compile(r'mapping is (complete|incomplete)$', re.M)
LOADED = re.compile(r'loaded (\d+) mappings|(no mappings loaded)')


@contextlib.contextmanager
def speaking():
    old = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        yield
    finally:
        logging.disable(old)


def spoken(argv, stdin=None):
    with speaking():
        status, out, problem = cli.run(argv, stdin)
    return status, out, cli.MESSAGES[0]


def command_case(case):
    """Exports say how much they wrote, mapping imports whether the link is complete."""
    res = core.Result()
    paths = []
    one = real.DataSpace()
    one.add_index_columns('X')
    one.insert_index([['X'], ['x1'], ['x2']])
    one.add_weight_group('v')
    one.insert_weights('v', [['X', 'v'], ['x1', 1.0], ['x2', 2.0]])
    two = real.DataSpace()
    two.add_index_columns('A', 'B')
    two.insert_index([['A', 'B'], ['a1', 'b1'], ['a1', 'b2'], ['a2', 'b1']][:1 + case['records']])
    two.add_weight_group('w')
    two.insert_weights('w', [['A', 'B', 'w'], ['a1', 'b1', 1.0], ['a1', 'b2', 2.0], ['a2', 'b1', 4.0]])
    two.set_registered_attributes(['cat'])
    if case['records'] > 1:
        two.insert_quantities2(value_column='v', data=[['A', 'B', 'cat', 'v'], ['a1', 'b1', 'x', 1.0],
                                                       ['a1', 'b2', 'y', 2.0]][:case['records']])
    links = {'both': 3, 'right': 1, 'left': 2}[case['links']]
    if links & 1:
        two.add_link(one, 'k')
    if links & 2:
        one.add_link(two, 'k')
    f1, f2 = real.save(one), real.save(two)
    labels = [['x1'], ['x2']], [['a1', 'b1'], ['a1', 'b2'], ['a2', 'b1']]
    buf = io.StringIO(newline='')
    w = csv.writer(buf)
    w.writerow(['X', 'k', 'A', 'B'])
    for n, (i, j) in enumerate(case['pairs']):
        w.writerow(labels[0][i] + [n + 1] + labels[1][j])
    what = f'mapping of {case!r}'
    try:
        before = [real.raw_dump(f) for f in (f1, f2)]
        argv = [f1, 'mapping', f2, 'k', '--no-backup', '--allow-incomplete', *case['flags']]
        status, out, said = spoken(argv, buf.getvalue())
        res.count('transitions')
        after = [real.raw_dump(f) for f in (f1, f2)]
        told = COMPLETE.findall(said)
        counts = [int(a or 0) for a, b in LOADED.findall(said)]
        want, number = [], []
        for mask, n, flag in ((1, 1, '--left'), (2, 0, '--right')):
            if links & mask and flag not in case['flags']:
                names, rows = after[n]['mapping']
                have = {r[names[1:].index('index_id')] for r in rows} | {0}
                names, rows = after[n]['label_index']
                want.append('complete' if {r[0] for r in rows} <= have else 'incomplete')
                number.append(size(after[n], 'mapping') - size(before[n], 'mapping'))
        if status == 0 and (told != want or counts != number):
            res.fail('mapping import', f'{what}: {number} mappings were loaded, the links are {want}, but the messages '
                     f'are {said!r}', case)
        elif status and before != after:
            res.fail('mapping refused', f'{what}: refused, but files changed', case)
        for gone in (None, *case['gone']):
            if gone is not None:
                sp = real.read_file(f1)
                sp.delete_index(X=gone)
                sp.to_file(f1, fsync=False)
            for argv, f in (([f1, 'index'], 0), ([f2, 'index'], 0), ([f2, 'quantity'], 0), ([f1, 'mapping', f2, 'k'], 1),
                            ([f2, 'mapping', f1, 'k'], 1)):
                status, out, said = spoken(argv)
                res.count('transitions')
                if status:
                    continue
                rows = list(csv.reader(io.StringIO(out.decode(), newline='')))
                n = len(rows) - 1
                m = [int(x) for x in WRITTEN.findall(said)]
                if m != [n]:
                    res.fail(f'written:{argv[1]}', f'{argv[1:2]} after {what} and the loss of {gone}: {n} records written, '
                             f'but the messages are {said!r}', case)
                if f:
                    left = 1 if argv[0] == f1 else 2     # label columns of FILE1
                    right = 3 - left
                    none1 = sum(r[0] == '' for r in rows[1:])
                    none2 = sum(r[2 + left] == '' for r in rows[1:])
                    stale = sum(r[0] != '' and not any(r[1:1 + left]) for r in rows[1:])
                    need = {}
                    for key, number in (('unmatched indexes from FILE1', none2), ('unmatched indexes from FILE2', none1)):
                        if number:
                            need[key] = number
                    got = {k: int(v) for v, k in CONTAINS.findall(said)}
                    lost = got.pop('indexes that no longer exist in FILE1', 0)
                    if lost != stale or sorted(got.values()) != sorted(need.values()):
                        res.fail('contains', f'export of the {what}: {none1} rows without a record of FILE1, {none2} '
                                 f'without one of FILE2, {stale} of lost records, but the messages are {said!r}', case)
        res.outcome([told, counts])
    finally:
        for f in (f1, f2):
            core.os.unlink(f)
    return res


def command_cases(thorough):
    pairs = list(itertools.product((0, 1), (0, 1, 2)))
    for k in range(len(pairs) + 1):
        for chosen in itertools.combinations(pairs, k):
            for records in (3, 2, 1) if thorough or k < 3 else (3,):
                for links in ('both', 'right', 'left'):
                    for flags in ([], ['--left'], ['--right']) if links == 'both' or thorough else ([],):
                        yield {'kind': 'command', 'pairs': [list(p) for p in chosen], 'records': records, 'links': links,
                               'flags': flags, 'gone': ['x1', 'x2'] if thorough or not flags else ['x2']}


RUN = {'rows': rows_case, 'by': by_case, 'command': command_case}


def run_case(case):
    return RUN[case['kind']](case)


def explore(ctx):
    for label, cases in (('rows', list(rows_cases(ctx.thorough))), ('by', list(by_cases(ctx.thorough))),
                         ('commands', list(command_cases(ctx.thorough)))):
        ctx.cov[f'{label}_cases'] = ctx.run(run_case, cases, label=label)
    ctx.counts['states'] = ctx.cov['rows_cases'] + ctx.cov['by_cases'] + ctx.cov['commands_cases']
    ctx.cov['operations'] = len(OPS)
