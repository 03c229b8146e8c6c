"""C21: readers give one answer however they are consumed."""
import contextlib
import gc
import itertools
import json
import os
import shutil
import sqlite3
import tempfile
import weakref
from .. import core, faults, real
from toron import DataSpace
from toron.reader import NodeReader, pivot_reader, pivot_reader_to_pandas

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: three linked spaces of three records, contributions from a set of up to 36 in multisets up to the stated '
    'size, programs of up to four calls (thorough: five) on one reader, two readers of one space in all interleavings',
    'a reader is an iterator: it hands out every row once and starts again only after a translation '
    '(or one that failed late); an unfinished pivot may make a translation fail (with no other effect) and a pivot leaves out what has none of its attributes (as documented)',
    'all values are exactly representable, so the order of summation does not show',
    'an interrupt that arrives after a translation was committed is not judged',
    'the spaces a reader refers to do not change while it is used',
]

# --------------------------------------------------------------------------
# The world: A -> B -> C, and D that nothing is linked to
# --------------------------------------------------------------------------
LABELS = {
    'A': (['x', 'y'], {0: ('-', '-'), 1: ('x1', 'y1'), 2: ('x1', 'y2'), 3: ('x2', 'y1')}),
    'B': (['k'], {0: ('-',), 1: ('k1',), 2: ('k2',), 3: ('k3',)}),
    'C': (['p', 'q', 'r'], {0: ('-', '-', '-'), 1: ('p1', 'q1', 'r1'), 2: ('p2', 'q1', 'r1')}),
    'D': (['z'], {0: ('-',), 1: ('z1',)}),
}
# (source, target): [(link, selectors, default, {id: {id: share}})]
EDGES = {
    ('A', 'B'): [
        ('m1', [], True, {1: {1: 0.25, 2: 0.75}, 2: {2: 1.0}, 3: {1: 0.5, 3: 0.5}}),
        ('m2', ['[a="x"]'], False, {1: {1: 1.0}, 2: {2: 0.5, 3: 0.5}, 3: {3: 1.0}}),
    ],
    ('B', 'C'): [('m1', [], True, {1: {1: 1.0}, 2: {1: 0.5, 2: 0.5}, 3: {2: 1.0}})],
}
NEXT = {'A': 'B', 'B': 'C', 'C': 'D', 'D': 'A'}

_WORLDS = {}


def build_space(name):
    sp = DataSpace()
    cols, recs = LABELS[name]
    sp.add_index_columns(*cols)
    sp.insert_index([cols] + [list(v) for k, v in sorted(recs.items()) if k])
    return sp


def build_world():
    spaces = {n: build_space(n) for n in LABELS}
    for (src, trg), links in EDGES.items():
        level = real.pack([1] * len(LABELS[trg][0]))
        for name, selectors, default, table in links:
            spaces[trg].add_link(spaces[src], name, selectors=selectors or None, is_default=default)
            # Absolute values in proportion to the shares.
            spaces[trg].insert_mappings2(spaces[src], name, data=[
                ['other_index_id', 'index_id', 'mapping_level', name]] + [
                [i, j, level, share * 8] for i, row in table.items() for j, share in row.items()])
    return spaces


def world(mode):
    """The spaces, kept in memory or bound to files."""
    if mode not in _WORLDS:
        spaces = build_world()
        if mode == 'bound':
            d = core.scratch_dir()
            for n, sp in spaces.items():
                sp.to_file(os.path.join(d, n + '.toron'), fsync=False)
            from toron import bind_file
            spaces = {n: bind_file(os.path.join(d, n + '.toron'), mode='ro') for n in spaces}
        _WORLDS[mode] = spaces
    return _WORLDS[mode]


# --------------------------------------------------------------------------
# Oracle
# --------------------------------------------------------------------------
class Truth:
    """What the reader holds: {(record, attributes): value}."""

    def __init__(self, data, at='A'):
        self.at = at
        self.keys = sorted({k for _, attrs, _ in data for k in attrs})
        self.sums = {}
        for i, attrs, v in data:
            key = (i, tuple(sorted(attrs.items())))
            self.sums[key] = self.sums.get(key, 0.0) + v

    def moved(self):
        """One translation further; None if there is no link."""
        trg = NEXT[self.at]
        links = EDGES.get((self.at, trg))
        out = Truth([], trg)
        out.keys = self.keys
        if not links:
            return None
        for (i, attrs), v in self.sums.items():
            if i == 0:
                shares = {0: 1.0}
            elif len(links) > 1 and dict(attrs).get('a') == 'x':
                shares = links[1][3][i]
            else:
                shares = links[0][3][i]
            for j, share in shares.items():
                key = (j, attrs)
                out.sums[key] = out.sums.get(key, 0.0) + v * share
        return out

    def columns(self):
        return LABELS[self.at][0] + self.keys + ['value']

    def rows(self):
        recs = LABELS[self.at][1]
        return sorted((recs[i] + tuple(dict(attrs).get(k) for k in self.keys) + (v,)
                       for (i, attrs), v in self.sums.items()), key=repr)

    def pivot(self, cols, func):
        """{labels: {pivoted column: value}}, columns"""
        groups = {}
        for (i, attrs), v in self.sums.items():
            parts = tuple(dict(attrs).get(c, '') for c in cols)
            if any(parts):
                groups.setdefault(i, {}).setdefault(parts, []).append(v)
        names = {p: pivot_name(p) for row in groups.values() for p in row}
        table = {}
        for i, row in groups.items():
            table[LABELS[self.at][1][i]] = {
                names[p]: sum(vs) if func == 'sum' else sum(vs) / len(vs) for p, vs in row.items()}
        return table, sorted(names.values(), key=repr)


def pivot_name(parts):
    parts = list(parts)
    while parts and parts[-1] == '':
        parts.pop()
    return parts[0] if len(parts) == 1 else tuple(parts)


# --------------------------------------------------------------------------
# Observations
# --------------------------------------------------------------------------
def missing(v):
    return v is None or not isinstance(v, (str, int, float)) or v != v


def frame_rows(df):
    out = []
    for row in df.itertuples(index=False, name=None):
        out.append(tuple(None if (v is None or not isinstance(v, (str, float, int)) or v != v) else v for v in row))
    return sorted(out, key=repr)


def check_frame(df, reader_columns, labels, index):
    """[problems], rows"""
    bad = []
    if index:
        if list(df.index.names) != labels:
            bad.append(f'index of the frame: {list(df.index.names)}')
        df = df.reset_index()
    if list(df.columns) != reader_columns:
        bad.append(f'columns of the frame: {list(df.columns)}')
    return bad, frame_rows(df)


def check_pivot(rows, truth, cols, func, whole=True):
    want, names = truth.pivot(cols, func)
    rows = [list(r) for r in rows]
    header, body = rows[0], rows[1:]
    n = len(LABELS[truth.at][0])
    bad = []
    if header[:n] != LABELS[truth.at][0] or sorted(header[n:], key=repr) != names:
        return [f'pivot header {header}, expected {names}']
    got = {}
    for r in body:
        key = tuple(r[:n])
        if key in got:
            bad.append(f'pivot repeats {key}')
        got[key] = {c: v for c, v in zip(header[n:], r[n:]) if not missing(v)}
    if whole and set(got) != set(want):
        bad.append(f'pivot rows for {sorted(got)}, expected {sorted(want)}')
    for key, row in got.items():
        if key in want and row != want[key]:
            bad.append(f'pivot of {key} is {row}, expected {want[key]}')
        if key not in want:
            bad.append(f'pivot has {key}')
    return bad


# --------------------------------------------------------------------------
# Programs on one reader
# --------------------------------------------------------------------------
class Closed(Exception):
    pass


class Play:
    """One reader, its model and the temporary directory."""

    def __init__(self, data, mode, drive):
        self.tmp = core.scratch_dir()
        self.old = tempfile.tempdir
        tempfile.tempdir = self.tmp
        self.truth = Truth(data)
        self.drive, self.mode = drive, mode
        self.spaces = world(mode)
        self.reader = NodeReader([(i, dict(a), v) for i, a, v in data], self.spaces['A'], cache_to_drive=drive)
        self.left = [self.truth.rows()]   # rows not handed out yet (alternatives)
        self.closed = False
        self.kept = []
        self.bad = []

    def say(self, text):
        self.bad.append(text)

    def take(self, rows, every):
        options, self.left = self.left, []
        for option in options:
            rest = list(option)
            for r in rows:
                if tuple(r) not in rest:
                    break
                rest.remove(tuple(r))
            else:
                if not (every and rest):
                    self.left.append(rest)
        if not self.left:
            self.say(f'rows {[tuple(r) for r in rows]}{" and no more" if every else ""}, with '
                     + ' or '.join(map(str, options)) + ' left')
            self.left = options

    def failed(self):
        """A translation failed late: the iteration may start over."""
        if not self.closed and self.truth.rows() not in self.left:
            self.left.append(self.truth.rows())

    def guarded(self, func):
        """Reads of a closed reader may fail or come back empty."""
        try:
            return func()
        except Exception as err:
            if self.closed:
                return None
            self.say(f'unexpected {type(err).__name__}: {err}')
            return None

    def act(self, a):
        r = self.reader
        if a == 'next':
            try:
                row = next(r)
            except StopIteration:
                self.take([], not self.closed)
            except Exception as err:
                if not self.closed:
                    self.say(f'unexpected {type(err).__name__}: {err}')
            else:
                if self.closed:
                    self.say(f'a closed reader gives {row}')
                else:
                    self.take([row], False)
        elif a == 'rest':
            rows = self.guarded(lambda: list(r))
            if self.closed and rows:
                self.say(f'a closed reader gives {rows}')
            elif rows is not None and not self.closed:
                self.take(rows, True)
        elif a in ('frame', 'indexed'):
            out = self.guarded(lambda: check_frame(r.to_pandas(index=a == 'indexed'), self.truth.columns(),
                                                   LABELS[self.truth.at][0], a == 'indexed'))
            if out is not None:
                self.bad += [] if self.closed else out[0]
                if self.closed and out[1]:
                    self.say(f'a closed reader gives {out[1]}')
                elif not self.closed:
                    self.take(out[1], True)
        elif a == 'look':
            if r.columns != self.truth.columns() or r.index_columns != LABELS[self.truth.at][0]:
                self.say(f'columns {r.columns}, {r.index_columns}')
        elif a in ('pivot', 'mean', 'pivot a', 'pivot c'):
            cols = {'pivot a': ['a'], 'pivot c': ['c', 'a']}.get(a, ['a', 'b'])
            func = 'mean' if a == 'mean' else 'sum'
            try:
                rows = list(pivot_reader(r, cols, func))
            except Exception as err:
                if not self.closed and not self.kept:
                    self.say(f'unexpected {type(err).__name__}: {err}')
            else:
                if self.closed:
                    if len(rows) > 1:
                        self.say(f'a closed reader pivots to {rows}')
                else:
                    self.bad += check_pivot(rows, self.truth, cols, func)
        elif a == 'pivot some':
            def some():
                it = pivot_reader(r, ['a', 'b'])
                out = [next(it)] + [x for x in [next(it, None)] if x is not None]
                del it
                return out
            if self.kept:
                with contextlib.suppress(Exception):
                    some()
                return
            rows = self.guarded(some)
            if rows is not None and not self.closed:
                self.bad += check_pivot(rows, self.truth, ['a', 'b'], 'sum', whole=False)
        elif a == 'pivot open':
            def start():
                it = pivot_reader(r, ['a', 'b'])
                return it, next(it)
            try:
                self.kept.append(start() + (self.truth,))
            except Exception as err:
                if not self.closed and not self.kept:
                    self.say(f'unexpected {type(err).__name__}: {err}')
        elif a in ('translate', '>>', 'nowhere'):
            trg = 'D' if a == 'nowhere' else NEXT[self.truth.at]
            want = self.truth.moved() if a != 'nowhere' else None
            if trg == self.truth.at:
                return
            try:
                if a == '>>':
                    same = r >> self.spaces[trg]
                    if same is not r:
                        self.say('>> gave another reader')
                else:
                    r.translate(self.spaces[trg])
            except Exception as err:
                if want is not None and not self.closed and not self.kept:
                    self.say(f'unexpected {type(err).__name__}: {err}')
                if self.kept:
                    self.failed()
                return
            if self.closed:
                self.say('a closed reader was translated')
            elif want is None:
                self.say('translated without a link')
            else:
                self.truth, self.left = want, [want.rows()]
        elif a == 'close':
            r.close()
            self.closed = True
            self.left = [[]]
        else:
            raise ValueError(a)

    def files(self):
        """Temporary files present."""
        return os.listdir(self.tmp)

    def check_files(self):
        n = len(self.files())
        want = 1 if self.drive and not self.closed else 0
        if n != want:
            self.say(f'{n} temporary files, expected {want}')

    def finish(self):
        for it, header, truth in self.kept:
            try:
                rows = list(it)
            except Exception:
                continue
            if truth is self.truth and not self.closed:
                self.bad += check_pivot([header] + rows, truth, ['a', 'b'], 'sum')
        self.kept = []
        ref = weakref.ref(self.reader)
        self.reader = None
        gc.collect(0)
        if ref() is not None or self.files():
            gc.collect()
        if ref() is not None:
            self.say('the reader is never released')
            ref().close()
        if self.files():
            self.say(f'{len(self.files())} temporary files left after the reader is gone')
        tempfile.tempdir = self.old
        shutil.rmtree(self.tmp, ignore_errors=True)


DATA = {
    'plain': [(1, {'a': 'x'}, 8.0), (2, {'a': 'y'}, 4.0), (3, {'a': 'x', 'b': 'u'}, 2.0)],
    'repeats': [(1, {'a': 'x'}, 8.0), (1, {'a': 'x'}, -8.0), (1, {'a': 'x', 'b': 'u'}, 0.5), (1, {}, 1.0), (1, {}, 1.0)],
    'unset': [(0, {'a': 'x'}, 3.0), (0, {'b': 'u'}, 1.0), (3, {'b': 'u'}, 1.0), (3, {'a': 'x'}, 1.5)],
    'blank': [(1, {'a': ''}, 1.0), (1, {'b': 'u'}, 2.0), (2, {'a': '', 'b': 'u'}, 4.0)],
    'one': [(2, {'a': 'x'}, 4.0)],
    'none': [],
}
ACTS = ['next', 'rest', 'frame', 'pivot', 'mean', 'pivot some', 'pivot open', 'translate', '>>', 'nowhere', 'close']


def play(data, mode, drive, acts):
    p = Play(data, mode, drive)
    for n, a in enumerate(acts):
        p.act(a)
        p.check_files()
        if p.bad:
            p.bad[0] = f'at call {n + 1} ({a}): ' + p.bad[0]
            break
    else:
        if acts and acts[-1] != 'look':
            p.act('look')
            p.act('rest')
            if p.bad:
                p.bad[0] = 'afterwards: ' + p.bad[0]
    p.finish()
    return p


def case_program(case):
    """All programs that begin with the given calls."""
    res = core.Result()
    data = DATA[case['data']]
    for tail in itertools.product(case.get('tails') or [()], repeat=case.get('more', 0)):
        acts = list(case['acts']) + list(tail)
        p = play(data, case['mode'], case['drive'], acts)
        res.count('transitions', len(acts) + 1)
        res.count('states')
        res.outcome((case['data'], p.truth.at, len(p.left[0]), p.closed))
        if p.bad:
            one = dict(case, acts=acts, more=0, tails=[])
            res.fail(f'program:{core.digest(one)}', f'reader of {case["data"]} ({"drive" if case["drive"] else "memory"}, '
                     f'spaces {case["mode"]}): {" ; ".join(acts)}: ' + '; '.join(p.bad)[:1500], one)
            if len(res.violations) > 5:
                break
    return res


# --------------------------------------------------------------------------
# Contents
# --------------------------------------------------------------------------
RECORDS = (1, 2, 0)
ATTRS = ({}, {'a': 'x'}, {'a': 'y', 'b': 'x'}, {'b': 'x'})
VALUES = (4.0, -4.0, 0.5)
UNITS = [(i, a, v) for i in RECORDS for a in ATTRS for v in VALUES]
# Attributes that a look-up might confuse: other order, other case, patterns.
ALIKE = ({'a': 'x', 'b': 'u'}, {'b': 'u', 'a': 'x'}, {'a': 'x'}, {'a': 'X'}, {'A': 'x'}, {'a': '%'}, {'a': '_'}, {'a': 'x '},
         {'a': 'u', 'b': 'x'}, {'ab': 'x'}, {'a': '"'}, {'a': "'"}, {'a': '\u00e9'}, {'a': 'e\u0301'}, {'a': '1'}, {'a': '01'},
         {'a': 'x", "b": "u'}, {'a': '*'}, {'a': '?'}, {'a': '[x]'}, {'a': '\\'})
SETS = {'units': UNITS, 'alike': [(1, a, 4.0) for a in ALIKE] + [(2, ALIKE[1], 2.0), (2, ALIKE[3], 0.5)]}
PIVOTS = (['a'], ['b'], ['a', 'b'], ['b', 'a'], ['nope', 'b'])


def case_contents(case):
    res = core.Result()
    for picks in case['picks']:
        data = [SETS[case.get('units', 'units')][n] for n in picks]
        for drive in case['drives']:
            p = Play(data, 'memory', drive)
            r = p.reader
            for cols in PIVOTS:
                for func in ('sum', 'mean'):
                    p.bad += check_pivot(list(pivot_reader(r, cols, func)), p.truth, cols, func)
            p.act('look')
            p.act(case['how'])
            if case['how'] == 'rest':
                total = sum(v for _, _, v in data)
                p.act('translate')
                p.act('pivot')
                if p.truth.at == 'B':
                    rows = list(r)
                    if sum(x[-1] for x in rows) != total:
                        p.say(f'total {sum(x[-1] for x in rows)} after translation, was {total}')
                    p.take(rows, True)
                p.act('>>')
                p.act('look')
                p.act('rest')
            else:
                p.act('rest')
            del r
            p.finish()
            res.count('transitions', 6 + 2 * len(PIVOTS))
            res.count('states')
            if p.bad:
                one = dict(case, picks=[picks], drives=[drive])
                res.fail(f'contents:{core.digest(one)}', f'reader of {data} ({"drive" if drive else "memory"}): '
                         + '; '.join(p.bad)[:1500], one)
                return res
        res.outcome((len(p.truth.sums), len(p.truth.keys)))
    return res


def case_frames(case):
    """Pivoted frames agree with pivoted rows."""
    res = core.Result()
    for picks in case['picks']:
        data = [SETS[case.get('units', 'units')][n] for n in picks]
        truth = Truth(data)
        for index in (False, True):
            r = NodeReader(data, world('memory')['A'])
            bad = []
            df = pivot_reader_to_pandas(r, ['a', 'b'], index=index)
            header = list(df.columns)
            rows = [[None if missing(v) else v for v in row] for row in df.itertuples(index=False, name=None)]
            if index:
                # (One pivoted column may be called like a label column.)
                header = list(df.index.names) + header
                rows = [list(k) + row for k, row in zip(df.index, rows)]
            bad += check_pivot([header] + rows, truth, ['a', 'b'], 'sum')
            out = check_frame(r.to_pandas(index=index), truth.columns(), ['x', 'y'], index)
            bad += out[0]
            if out[1] != truth.rows():
                bad.append(f'frame {out[1]}, expected {truth.rows()}')
            r.close()
            res.count('transitions', 2)
            res.count('states')
            if bad:
                one = dict(case, picks=[picks])
                res.fail(f'frames:{core.digest(one)}', f'reader of {data}, index={index}: ' + '; '.join(bad)[:1500], one)
                return res
    return res


# --------------------------------------------------------------------------
# Two readers of one space
# --------------------------------------------------------------------------
def case_pair(case):
    """All interleavings of two programs on two readers."""
    res = core.Result()
    one, two = case['one'], case['two']
    for where in itertools.combinations(range(len(one) + len(two)), len(one)):
        ps = [Play(DATA[case['data'][0]], case['mode'], case['drives'][0])]
        ps.append(Play(DATA[case['data'][1]], case['mode'], case['drives'][1]))
        todo = [list(one), list(two)]
        for n in range(len(one) + len(two)):
            k = 0 if n in where else 1
            ps[k].act(todo[k].pop(0))
        for p in ps:
            p.act('rest')
            p.check_files()
        order = reversed(ps) if case.get('back') else ps
        bad = []
        for p in order:
            p.finish()
            bad += p.bad
        tempfile.tempdir = core.SCRATCH
        res.count('transitions', len(one) + len(two))
        res.count('states')
        if bad:
            res.fail(f'pair:{core.digest((case, where))}', f'two readers ({case}), order {where}: ' + '; '.join(bad)[:1500], case)
            return res
    res.outcome((case['data'], case['drives']))
    return res


# --------------------------------------------------------------------------
# Faults
# --------------------------------------------------------------------------
COMMITS = [0]


class _Commits(sqlite3.Connection):
    def commit(self):
        COMMITS[0] += 1
        return super().commit()


def counting_connect():
    inner = sqlite3.connect

    def connect(*args, **kwds):
        if 'factory' not in kwds:
            kwds['factory'] = _Commits
        return inner(*args, **kwds)
    return inner, connect


def case_fault(case):
    """A translation (or the making of a reader) fails at every point."""
    res = core.Result()
    world('memory')
    faults.install()
    inner, sqlite3.connect = counting_connect()
    try:
        for at in range(1, 4000):
            fired = fault_once(case, at, res)
            if not fired or len(res.violations) > 3:
                break
        else:
            res.fail(f'fault:{core.digest(case)}', f'no end of fault points: {case}', case)
    finally:
        sqlite3.connect = inner
        faults.uninstall()
    return res


FEEDS = {'data error': ValueError, 'data interrupt': KeyboardInterrupt, 'data exit': SystemExit}


class Feed:
    """Contributions that stop coming."""

    def __init__(self, rows, at, exc):
        self.rows, self.at, self.exc, self.fired = iter(rows), at, exc, False

    def __iter__(self):
        return self

    def __next__(self):
        self.at -= 1
        if self.at == 0:
            self.fired = True
            raise self.exc()
        return next(self.rows)


def injected(kind, at):
    if kind == 'interrupt':
        return faults.interrupt_events(at)
    return faults.sql_events(at, *(('abort', 2) if kind == 'abort' else (kind, 0)))


def fault_once(case, at, res):
    kind, drive = case['kind'], case['drive']
    data = DATA[case['data']]
    name = f'fault:{core.digest(case)}'
    what = f'{case["what"]} of {case["data"]} ({"drive" if drive else "memory"}), {kind} at point {at}'
    if case['what'] == 'making':
        tmp = core.scratch_dir()
        tempfile.tempdir = tmp
        spaces = world('memory')
        reader = None
        rows = [(i, dict(a), v) for i, a, v in data]
        try:
            if kind in FEEDS:
                plan = Feed(rows, at, FEEDS[kind])
                reader = NodeReader(plan, spaces['A'], cache_to_drive=drive)
            else:
                with injected(kind, at) as plan:
                    reader = NodeReader(iter(rows), spaces['A'], cache_to_drive=drive)
            err = None
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            err = repr(e)
            e.__traceback__ = None
            del e
        res.count('transitions')
        res.count('states')
        if reader is not None:
            if sorted(reader, key=repr) != Truth(data).rows():
                res.fail(name, f'{what}: a reader with other rows', case)
        reader = None
        gc.collect()
        if os.listdir(tmp):
            res.fail(name, f'{what} ({err}): temporary files left: {len(os.listdir(tmp))}', case)
        tempfile.tempdir = core.SCRATCH
        shutil.rmtree(tmp)
        res.outcome((case['what'], err and err[:20]))
        return plan.fired
    p = Play(data, 'memory', drive)
    for _ in range(case['before']):
        p.act('next')
    COMMITS[0] = 0
    try:
        with injected(kind, at) as plan:
            p.reader.translate(p.spaces['B'])
        err = None
    except (Exception, KeyboardInterrupt) as e:
        err = repr(e)
        e.__traceback__ = None
        del e
    gc.collect()
    res.count('transitions')
    res.count('states')
    judged = True
    if err is None:
        p.truth = p.truth.moved()
        p.left = [p.truth.rows()]
    elif kind == 'interrupt' and COMMITS[0]:
        judged = False
    else:
        p.failed()
    if judged:
        for a in case['after']:
            p.act(a)
        p.check_files()
    p.finish()
    res.outcome((case['what'], err and err[:20], judged))
    if p.bad:
        res.fail(name, f'{what} ({err}), then {case["after"]}: ' + '; '.join(p.bad)[:1500], case)
    return plan.fired


# --------------------------------------------------------------------------
# Readers made by spaces
# --------------------------------------------------------------------------
def case_space(case):
    """sum_by_attrs and selectors against the unrestricted reader."""
    res = core.Result()
    sp = populated(case['domain'], case['mode'])
    tmp = core.scratch_dir()
    tempfile.tempdir = tmp
    base = sp()
    cols = base.columns
    n = len(base.index_columns)
    keys = cols[n:-1]
    rows = list(base)
    base.close()

    def expect(keep, wanted):
        sums = {}
        have = set()
        for r in rows:
            attrs = {k: v for k, v in zip(keys, r[n:-1]) if v is not None}
            if not wanted(attrs):
                continue
            attrs = {k: v for k, v in attrs.items() if keep is None or k in keep or (k == 'domain' and case['domain'])}
            have.update(attrs)
            key = (r[:n], tuple(sorted(attrs.items())))
            sums[key] = sums.get(key, 0.0) + r[-1]
        have = sorted(have)
        return have, sorted((labels + tuple(dict(a).get(k) for k in have) + (v,) for (labels, a), v in sums.items()), key=repr)
    for keep in KEEPS:
        for sel, wanted in SELECTORS.items():
            for drive in (False, True):
                for how in ('rest', 'next', 'frame'):
                    have, want = expect(keep if not isinstance(keep, str) else [keep], wanted)
                    kwds = {} if keep is None else {'sum_by_attrs': keep}
                    r = sp(*([sel] if sel else []), cache_to_drive=drive, **kwds)
                    bad = []
                    if r.columns != base.index_columns + have + ['value']:
                        bad.append(f'columns {r.columns}, expected attributes {have}')
                    if how == 'next':
                        got = [next(r)] if want else []
                        got += list(r)
                    elif how == 'frame':
                        out = check_frame(r.to_pandas(), r.columns, base.index_columns, False)
                        got = out[1]
                        bad += out[0]
                    else:
                        got = list(r)
                    if sorted(got, key=repr) != want:
                        bad.append(f'rows {sorted(got, key=repr)}, expected {want}')
                    del r
                    if os.listdir(tmp):
                        gc.collect()
                    if os.listdir(tmp):
                        bad.append('temporary files left')
                        for f in os.listdir(tmp):
                            os.unlink(os.path.join(tmp, f))
                    res.count('transitions')
                    res.count('states')
                    if bad:
                        res.fail(f'space:{core.digest((case, keep, sel, drive, how))}',
                                 f'space({sel!r}, sum_by_attrs={keep}, cache_to_drive={drive}) by {how}: '
                                 + '; '.join(bad)[:1500], case)
    tempfile.tempdir = core.SCRATCH
    shutil.rmtree(tmp)
    return res


KEEPS = [None, 'cat', 'sex', 'nope', 'domain', ['cat'], ('cat', 'sex'), {'sex', 'nope'}, ['cat', 'sex', 'zip'], ['zip']]
SELECTORS = {
    None: lambda a: True,
    '[cat="x"]': lambda a: a.get('cat') == 'x',
    '[sex]': lambda a: 'sex' in a,
    '[cat="nope"]': lambda a: False,
}


def populated(domain, mode):
    sp = DataSpace()
    if domain:
        sp.set_domain('dom')
    sp.add_index_columns('A', 'B')
    sp.insert_index([['A', 'B'], ['a1', 'b1'], ['a1', 'b2'], ['a2', 'b1']])
    sp.add_partition_definitions({'A'})
    sp.add_weight_group('w', make_default=True)
    sp.insert_weights('w', [['A', 'B', 'w'], ['a1', 'b1', 1.0], ['a1', 'b2', 3.0], ['a2', 'b1', 1.0]])
    sp.set_registered_attributes(['cat', 'sex', 'zip'])
    sp.insert_quantities2(value_column='v', data=[
        ['A', 'B', 'cat', 'sex', 'zip', 'v'], ['a1', 'b1', 'x', 'm', '', 8.0], ['a1', '', 'x', 'm', '', 4.0],
        ['a1', '', 'x', 'f', '', 16.0], ['a2', 'b1', 'y', '', '1', 2.0], ['a2', 'b1', 'y', 'f', '1', 0.5],
        ['a2', '', 'y', '', '1', 1.5], ['a1', 'b2', '', '', '2', 4.0]])
    if mode == 'bound':
        from toron import bind_file
        path = core.scratch_path('.toron')
        sp.to_file(path, fsync=False)
        return bind_file(path, mode='ro')
    return sp


FUNCS = {'program': case_program, 'contents': case_contents, 'frames': case_frames, 'pair': case_pair,
         'fault': case_fault, 'space': case_space}


def run_case(case):
    out = FUNCS[case['func']](case)
    tempfile.tempdir = core.SCRATCH
    return out


def chunks(items, n):
    items = list(items)
    return [items[k:k + n] for k in range(0, len(items), n)]


def no_waiting():
    """A locked database fails at once."""
    inner = sqlite3.connect

    def connect(*args, **kwds):
        kwds.setdefault('timeout', 0)
        return inner(*args, **kwds)
    sqlite3.connect = connect


no_waiting()


def explore(ctx):
    world('memory')
    world('bound')
    deep = 5 if ctx.thorough else 4
    cases = []
    for data in DATA:
        for mode in ('memory', 'bound'):
            for drive in (False, True):
                if not ctx.thorough and data in ('one', 'none', 'blank') and mode == 'bound':
                    continue
                n = deep if data in ('plain', 'repeats') and mode == 'memory' else deep - 1
                cases.append({'func': 'program', 'data': data, 'mode': mode, 'drive': drive, 'acts': []})
                for m in range(0, n - 1):
                    cases += [{'func': 'program', 'data': data, 'mode': mode, 'drive': drive, 'acts': [a, b],
                               'tails': ACTS, 'more': m} for a in ACTS for b in ACTS]
    ctx.sample(cases[1])
    ctx.run(run_case, cases, batch=2, label='programs')
    n = range(len(UNITS))
    for size in (1, 2, 3) if ctx.thorough else (1, 2):
        picks = chunks(itertools.combinations_with_replacement(n, size), 50)
        ctx.run(run_case, [{'func': 'contents', 'picks': c, 'drives': [False] if size > 2 else [False, True], 'how': h}
                           for c in picks for h in (('rest',) if size > 2 else ('rest', 'next'))], label='contents')
    alike = list(itertools.product(range(len(SETS['alike'])), repeat=2))
    alike += [tuple(range(k, len(SETS['alike']))) for k in range(len(SETS['alike']))]
    ctx.run(run_case, [{'func': 'contents', 'picks': c, 'drives': [False, True], 'how': h, 'units': 'alike'}
                       for c in chunks(alike, 20) for h in ('rest', 'next')], label='similar attributes')
    picks = list(itertools.combinations_with_replacement(n if ctx.thorough else range(0, len(UNITS), 2), 2))
    ctx.run(run_case, [{'func': 'frames', 'picks': c} for c in chunks(picks, 20)], label='frames')
    pairs = []
    programs = [['next', 'next'], ['next', 'translate', 'next'], ['pivot some', 'rest'], ['next', 'close']]
    for data in (('plain', 'plain'), ('plain', 'repeats')):
        for mode in ('memory', 'bound'):
            for drives in itertools.product((False, True), repeat=2):
                for one in programs:
                    for two in programs:
                        pairs.append({'func': 'pair', 'data': data, 'mode': mode, 'drives': drives, 'one': one, 'two': two,
                                      'back': len(pairs) % 2 == 1})
    ctx.run(run_case, pairs, batch=4, label='two readers')
    bad = []
    for kind in FEEDS:
        bad += [{'func': 'fault', 'what': 'making', 'data': data, 'drive': drive, 'kind': kind}
                for data in DATA for drive in (False, True)]
    for kind in ('error', 'abort', 'full', 'interrupt'):
        for drive in (False, True):
            for data in ('plain', 'repeats') if ctx.thorough else ('plain',):
                if kind != 'interrupt':
                    bad.append({'func': 'fault', 'what': 'making', 'data': data, 'drive': drive, 'kind': kind})
                for before in (0, 1):
                    for after in (['rest', 'translate'], ['translate', 'rest'], ['pivot', 'nowhere', 'translate']):
                        bad.append({'func': 'fault', 'what': 'translation', 'data': data, 'drive': drive, 'kind': kind,
                                    'before': before, 'after': after})
    ctx.run(run_case, bad, batch=1, label='faults')
    ctx.run(run_case, [{'func': 'space', 'domain': d, 'mode': m} for d in (False, True) for m in ('memory', 'bound')],
            batch=1, label='restricted readers')
    ctx.counts['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
