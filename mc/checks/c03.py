"""C03: translation conserves totals and follows the link."""
import itertools
import math
from .. import core, real, selq
from ..selq import s
from ..spaces import build, read, differ

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: at most three source and three target records, three links per source, the listed mapping values, '
    'selectors and attributes, and histories of up to three edits (four in thorough)',
    'the legacy route (select_weights() >> space) may refuse a default link that is current but not complete; '
    'it must not return anything other than the specified result',
    'values are compared with a relative tolerance of 1e-9; rows of value zero may be present or absent where their attributes have other rows',
]

SRC = [('s1',), ('s2',), ('s3',)]
TRG = [('x1', 'y1'), ('x1', 'y2'), ('x2', 'y1')]
WHOLE, UPPER = (1, 1), (1, 0)


def source(n, attrs=None, domain=''):
    """Every source record (and the undefined one) holds quantities."""
    recs = SRC[:n]
    quantities = []
    for k, rec in enumerate(recs + [('-',)]):
        quantities.append((rec, {'cat': f'c{k}'}, 10.0 + k))
        quantities.append((rec, {'cat': f'z{k}'}, 0.0))
        for a in attrs or [{'cat': 'all'}]:
            quantities.append((rec, a, 1.5 + 2.0 ** k))
    weights = {r: 1.0 + 2 * k for k, r in enumerate(recs)}
    return build(('S',), recs, (), ('cat', 'sex'), [('w', None, weights)], quantities, domain), recs, quantities, weights


def target(m):
    return build(('X', 'Y'), TRG[:m], [{'X'}])


def label(trg, i):
    return ('-', '-') if i == 0 else trg[i - 1]


def distribute(rows, i):
    """{target id: proportion} of source id *i* by mapping rows {(other, target, level): value}."""
    if i == 0:
        return {0: 1.0}
    mine = {k[1:]: v for k, v in rows.items() if k[0] == i}
    total = math.fsum(mine.values())
    out = {}
    for (t, _), v in mine.items():
        out[t] = out.get(t, 0.0) + (v / total if total else 1 / len(mine))
    return out


def want_reader(records, quantities, trg, link_rows, choose, domain=''):
    """Expected rows; link_rows: {name: rows}."""
    out = {}
    ids = {('-',): 0}
    ids.update(records)
    for rec, attrs, v in quantities:
        attrs = dict(attrs, domain=domain) if domain else dict(attrs)
        for t, p in distribute(link_rows[choose(attrs)], ids[rec]).items():
            out.setdefault((label(trg, t), tuple(sorted(attrs.items()))), []).append(v * p)
    return {k: math.fsum(v) for k, v in out.items()}


def total_by_attr(rows):
    out = {}
    for (_, a), v in rows.items():
        out.setdefault(a, []).append(v)
    return {k: math.fsum(v) for k, v in out.items()}


def totals_differ(got, before):
    """A total of zero is a total: its attributes must show up, too."""
    got, before = total_by_attr(got), total_by_attr(before)
    if set(got) != set(before):
        return f'attributes {sorted(got)}, expected {sorted(before)}'
    return differ(got, before)


def legacy(src, trg):
    out = {}
    it = src.select_weights('w') >> trg
    n = len(it.label_names)
    for index, attrs, v in it.data:
        key = (tuple(index.labels), tuple(sorted(attrs.items())))
        out[key] = out.get(key, 0.0) + v
    return out


def attempt(func):
    try:
        return func(), None
    except Exception as err:
        return None, err


def judge(res, src, trg_sp, want, before, case, note, ways):
    """want None: must be refused.  before: {key: value} of the untranslated reader."""
    for way in ways:
        res.count('transitions')
        if way == 'legacy':
            continue
        reader = src(cache_to_drive=way == 'drive')

        def run():
            if way in ('translate', 'drive'):
                if reader.translate(trg_sp) is not None:
                    raise AssertionError('translate() returned something')
                return read(reader, len(reader.index_columns))
            return read(reader >> trg_sp, len(reader.index_columns))
        got, err = attempt(run)
        key = core.digest((case, note, way))
        if want is None:
            if err is None:
                res.fail(f'accepted:{key}', f'{note} ({way}): must be refused, gave {got}', case)
            else:
                rest, err = attempt(lambda: read(reader, 1))
                if err or differ(rest, before):
                    res.fail(f'after:{key}', f'{note} ({way}): after the refusal the reader gives {rest} {err!r}', case)
        elif err is not None:
            res.fail(f'refused:{key}', f'{note} ({way}): refused with {err!r}, expected {want}', case)
        else:
            bad = differ(got, want) or totals_differ(got, before)
            if bad:
                res.fail(f'rows:{key}', f'{note} ({way}): {bad}\n all rows {got}', case)
            res.outcome(sorted(got.items()))
        reader.close()
        if res.violations:
            return


def judge_legacy(res, src, trg_sp, want, may_refuse, case, note):
    res.count('transitions')
    got, err = attempt(lambda: legacy(src, trg_sp))
    key = core.digest((case, note, 'legacy'))
    if want is None:
        if err is None:
            res.fail(f'legacy-accepted:{key}', f'{note}: must be refused, gave {got}', case)
    elif err is not None:
        if not may_refuse:
            res.fail(f'legacy-refused:{key}', f'{note}: refused with {err!r}', case)
    elif differ(got, want):
        res.fail(f'legacy-rows:{key}', f'{note}: {differ(got, want)}\n all rows {got}', case)


def weights_as_quantities(weights):
    return [(r, {'weight': 'w'}, w) for r, w in weights.items()]


def insert(trg_sp, src, name, rows):
    trg_sp.insert_mappings2(src, name, [['other_index_id', 'index_id', 'mapping_level', name]] + [
        [o, t, real.pack(lv), v] for (o, t, lv), v in rows.items()])


def case_matrix(case):
    res = core.Result()
    n, m = case['n'], case['m']
    src, recs, quantities, weights = source(n)
    trg = TRG[:m]
    before = read(src(), 1)
    ids = {r: i + 1 for i, r in enumerate(recs)}
    for rows in case['rows']:
        rows = {(o, t, tuple(lv)): v for o, t, lv, v in rows}
        note = f'{n} source records, mapping {rows}'
        sp = target(m)
        sp.add_link(src, 'm', is_default=True)
        if rows:
            insert(sp, src, 'm', rows)
        res.count('states')
        current = {o for o, _, _ in rows} - {0} == set(ids.values()) and rows
        complete = {t for _, t, _ in rows} - {0} == set(range(1, m + 1))
        want = want_reader(ids, quantities, trg, {'m': rows}, lambda a: 'm') if current else None
        one = dict(case, rows=[[o, t, lv, v] for (o, t, lv), v in rows.items()])
        judge(res, src, sp, want, before, one, note, case['ways'])
        want = want_reader(ids, weights_as_quantities(weights), trg, {'m': rows}, lambda a: 'm') if current else None
        judge_legacy(res, src, sp, want, not complete, one, note)
        if res.violations:
            break
    return res


ATTRS = [{'cat': 'x'}, {'cat': 'y'}, {'sex': 'm'}, {'cat': 'x', 'sex': 'm'}, {'sex': 'x'}, {'cat': 'm', 'sex': 'x'}]
SEL = [None, [s('cat', '=', 'x')], [s('cat')], [s('sex', '=', 'm'), s('cat', '=', 'y')],
       [['and', [s('cat', '=', 'x'), s('sex', '=', 'm')]]], [s('domain', '=', 'd1')], [s('weight', '=', 'w')],
       [['where', [s('cat')]]]]
LINKS = {   # distinct distributions
    'k0': {(1, 1, WHOLE): 1.0, (1, 2, WHOLE): 3.0, (2, 2, WHOLE): 1.0, (2, 3, WHOLE): 1.0},
    'k1': {(1, 2, WHOLE): 1.0, (1, 3, WHOLE): 1.0, (2, 1, WHOLE): 1.0},
    'k2': {(1, 3, WHOLE): 2.0, (1, 1, WHOLE): 3.0, (2, 2, UPPER): 4.0, (2, 0, WHOLE): 1.0, (2, 1, WHOLE): 4.0},
}


def link_rows(name, state):
    rows = dict(LINKS[name])
    if state == 'full' and name == 'k2':
        rows[0, 2, WHOLE] = 1.0
    if state == 'partial':    # current, but a target record is not mapped
        rows = {k: v for k, v in rows.items() if k[1] != 1}
        rows.setdefault((1, 2, WHOLE), 1.0)
        rows.setdefault((2, 3, WHOLE), 2.0)
    if state == 'stale':      # a source record is not mapped, every target record is
        rows = {k: v for k, v in rows.items() if k[0] != 2}
        rows.update({(1, t, WHOLE): 1.0 for t in (1, 2, 3)})
    if state == 'extra':      # a source record that is gone is mapped
        rows[9, 1, WHOLE] = 1.0
        rows.update({(1, t, WHOLE): 1.0 for t in (1, 2, 3)})
    if state == 'empty':
        rows = {}
    return rows


def case_choice(case):
    """Three links with selectors, each current/complete or not, and any default."""
    res = core.Result()
    domain = case['domain']
    src, recs, quantities, weights = source(2, ATTRS, domain)
    before = read(src(), 1)
    ids = {r: i + 1 for i, r in enumerate(recs)}
    other = source(2)[0]
    for states in case['states']:
        sp = target(3)
        sp.add_link(other, 'o', selectors=['[cat]', '[weight]'], is_default=True)
        insert(sp, other, 'o', {(1, 1, WHOLE): 1.0, (2, 2, WHOLE): 1.0, (2, 3, WHOLE): 1.0})
        rows, trees = {}, {}
        for n, (name, state) in enumerate(zip(LINKS, states)):
            rows[name] = link_rows(name, state)
            trees[name] = SEL[case['sel'][n]]
            sp.add_link(src, name, selectors=[selq.text(t) for t in trees[name]] if trees[name] else None,
                        is_default=case['default'] == n)
            if rows[name]:
                insert(sp, src, name, rows[name])
        current = {n: {o for o, _, _ in r} - {0} == {1, 2} for n, r in rows.items()}
        complete = {n: {t for _, t, _ in r} - {0} == {1, 2, 3} for n, r in rows.items()}
        default = None if case['default'] is None else f"k{case['default']}"
        chooser = {n: trees[n] for n in rows if current[n] and complete[n] and trees[n]}
        note = f'{dict(zip(LINKS, states))} selectors {case["sel"]} default {default} domain {domain!r}'
        one = dict(case, states=[states])
        res.count('states')
        usable = default is not None and current[default]

        def choose(attrs):
            return selq.choose(chooser, attrs, default)
        want = want_reader(ids, quantities, TRG, rows, choose, domain) if usable else None
        judge(res, src, sp, want, before, one, note, case['ways'])
        want = want_reader(ids, weights_as_quantities(weights), TRG, rows, choose) if usable else None
        judge_legacy(res, src, sp, want, usable and not complete[default], one, note)
        if res.violations:
            break
    return res


# -- Histories of edits after linking ---------------------------------------
EDITS = ['src+', 'src-1', 'src-2', 'srclabel', 'srccol', 'trg+', 'trg-1', 'trg-2', 'map+', 'map-1', 'map2', 'mapval',
         'reify', 'default2', 'droplink', 'reload']


class History:
    """Two spaces, two links, and a plain record of what they hold."""

    def __init__(self):
        self.src = build(('S',), SRC[:2], (), ('cat',), [('w', None, {SRC[0]: 1.0, SRC[1]: 3.0})],
                         [(('',), {'cat': 'x'}, 8.0), (('',), {'cat': 'y'}, 12.0)])
        self.sp = target(2)
        self.ids = {1: 's1', 2: 's2'}
        self.weight = {1: 1.0, 2: 3.0}
        self.next = 3
        self.trg = {1: TRG[0], 2: TRG[1]}
        self.next_t = 3
        self.rows = {}
        self.default = 'm'
        self.sp.add_link(self.src, 'm', is_default=True)
        self.add('m', {(1, 1, WHOLE): 1.0, (1, 2, WHOLE): 3.0, (2, 2, WHOLE): 5.0})
        self.sp.add_link(self.src, 'sel', selectors=['[cat="y"]', '[weight="w"]'], is_default=False)
        self.add('sel', {(1, 2, WHOLE): 1.0, (2, 1, WHOLE): 1.0, (2, 2, UPPER): 1.0})
        self.two = False

    def add(self, name, rows):
        insert(self.sp, self.src, name, rows)
        self.rows.setdefault(name, {}).update(rows)

    def step(self, e):
        """Apply an edit; False when it makes no sense here."""
        src, sp = self.src, self.sp
        col = 'S'
        if e == 'src+':
            if self.next > 4:
                return False
            lab = f's{self.next}'
            extra = [['v']] if self.two else [[]]
            src.insert_index([['S'] + (['T'] if self.two else [])] + [[lab] + extra[0]])
            src.insert_weights('w', [['S'] + (['T'] if self.two else []) + ['w'], [lab] + extra[0] + [2.0]])
            self.ids[self.next] = lab
            self.weight[self.next] = 2.0
            self.next += 1
        elif e in ('src-1', 'src-2'):
            i = int(e[-1])
            if i not in self.ids:
                return False
            src.delete_index(S=self.ids.pop(i))
            self.weight.pop(i)
        elif e == 'srclabel':
            if 1 not in self.ids or self.two:
                return False
            src.update_index([['index_id', 'S'], [1, 's1' if self.ids[1] == 'q' else 'q']])
            self.ids[1] = 's1' if self.ids[1] == 'q' else 'q'
        elif e == 'srccol':
            if self.two:
                return False
            src.add_index_columns('T')
            self.two = True
        elif e == 'trg+':
            if 3 in self.trg or self.next_t > 3:
                return False
            sp.insert_index([['X', 'Y'], list(TRG[2])])
            self.trg[3] = TRG[2]
            self.next_t += 1
        elif e in ('trg-1', 'trg-2'):
            i = int(e[-1])
            if i not in self.trg or any(k[1] == i and k[2] != WHOLE for r in self.rows.values() for k in r):
                return False      # (records with ambiguous mappings cannot be deleted)
            x, y = self.trg.pop(i)
            sp.delete_index(X=x, Y=y)
            for rows in self.rows.values():
                for k in [k for k in rows if k[1] == i]:
                    del rows[k]
        elif e == 'map+':     # map every source record that is not mapped
            if not self.trg:
                return False
            t = max(self.trg)
            done = False
            for name in self.rows:
                new = {(i, t, WHOLE): 2.0 for i in self.ids if i not in {k[0] for k in self.rows[name]}}
                if new:
                    self.add(name, new)
                    done = True
            return done
        elif e == 'map-1':    # unmap source record 1 from the default link
            keys = [k for k in self.rows.get('m', ()) if k[0] == 1]
            if not keys:
                return False
            rows = [[o, self.rows['m'][o, t, lv], t] + list(self.trg.get(t, ('-', '-'))) for o, t, lv in keys]
            sp.delete_mappings(src, 'm', [['other_index_id', 'm', 'index_id', 'X', 'Y']] + rows)
            for k in keys:
                del self.rows['m'][k]
        elif e == 'map2':
            if 1 not in self.trg or (2, 1, WHOLE) in self.rows.get('m', {(2, 1, WHOLE)}) or 2 not in self.ids:
                return False
            self.add('m', {(2, 1, WHOLE): 15.0})
        elif e == 'mapval':
            if (1, 1, WHOLE) not in self.rows.get('m', ()) or self.rows['m'][1, 1, WHOLE] != 1.0:
                return False
            sp.update_mappings(src, 'm', [
                ['other_index_id', 'm', 'index_id', 'X', 'Y', 'mapping_level'],
                [1, 9.0, 1] + list(self.trg[1]) + [real.pack(WHOLE)]])
            self.rows['m'][1, 1, WHOLE] = 9.0
        elif e == 'reify':
            if (2, 2, UPPER) not in self.rows.get('sel', ()):
                return False
            sp.reify_mappings(src, 'sel')
            self.rows['sel'] = {(o, t, WHOLE): v for (o, t, _), v in self.rows['sel'].items()}
        elif e == 'default2':
            if 'sel' not in self.rows or self.default == 'sel':
                return False
            sp.edit_link(src, 'sel', is_default=True)
            self.default = 'sel'
        elif e == 'droplink':
            if 'm' not in self.rows:
                return False
            sp.drop_link(src, 'm')
            del self.rows['m']
            if self.default == 'm':
                self.default = None
        elif e == 'reload':
            self.sp = real.restore(real.snapshot(real.save(sp)))
            self.src = real.restore(real.snapshot(real.save(src)))
        return True

    def verdict(self):
        """(usable, {name: current and complete})."""
        current = {n: {k[0] for k in r} - {0} == set(self.ids) for n, r in self.rows.items()}
        complete = {n: {k[1] for k in r} - {0} == set(self.trg) for n, r in self.rows.items()}
        return current, complete


def case_history(case):
    res = core.Result()
    h = History()
    # Readers made before the history: what they hold is translated or refused.
    early = [h.src(cache_to_drive=d) for d in (False, True)] if 'reload' not in case['path'] else []
    for n, e in enumerate(case['path']):
        ok = h.step(e)
        if not ok:
            res.data = 'dead'
            return res
    res.count('states')
    current, complete = h.verdict()
    usable = h.default is not None and current[h.default]
    chooser = {n: [s('cat', '=', 'y'), s('weight', '=', 'w')] for n in h.rows if n == 'sel'
               and current[n] and complete[n]}
    labels = {**h.trg, 0: ('-', '-')}
    total = math.fsum(h.weight.values())

    def rows_for(items):
        out = {}
        for i, attrs, v in items:
            name = selq.choose(chooser, attrs, h.default)
            for t, p in distribute(h.rows[name], i).items():
                out.setdefault((labels[t], tuple(sorted(attrs.items()))), []).append(v * p)
        return {k: math.fsum(v) for k, v in out.items()}
    note = f'history {case["path"]}: source {sorted(h.ids)} target {sorted(h.trg)} links {h.rows} default {h.default}'
    if h.ids:
        items = [(i, {'cat': c}, v * w / total) for c, v in (('x', 8.0), ('y', 12.0)) for i, w in h.weight.items()]
    else:
        items = [(0, {'cat': c}, v) for c, v in (('x', 8.0), ('y', 12.0))]
    if h.ids:
        want = rows_for(items) if usable else None
        before = {(tuple(lab), a): v for (lab, a), v in read(h.src(), 2 if h.two else 1).items()}
        for way in ('rshift', 'drive'):
            res.count('transitions')
            reader = h.src(cache_to_drive=way == 'drive')
            got, err = attempt(lambda: read(reader >> h.sp, 2))
            key = core.digest((case, way))
            if want is None and err is None:
                res.fail(f'h-accepted:{key}', f'{note}: must be refused, gave {got}', case)
            elif want is not None and err is not None:
                res.fail(f'h-refused:{key}', f'{note}: refused with {err!r}', case)
            elif want is not None and (differ(got, want) or totals_differ(got, before)):
                res.fail(f'h-rows:{key}', f'{note}: {differ(got, want)} rows {got}', case)
            reader.close()
        want = None
        if usable and {1, 2} <= set(h.ids):
            want = rows_for([(i, {'cat': c}, v * w / 4) for c, v in (('x', 8.0), ('y', 12.0)) for i, w in ((1, 1.0), (2, 3.0))])
        for n, reader in enumerate(early):
            res.count('transitions')
            got, err = attempt(lambda: read(reader >> h.sp, 2))
            key = core.digest((case, 'early', n))
            if want is None and err is None:
                res.fail(f'h-early:{key}', f'{note}: translating data read before must be refused, gave {got}', case)
            elif want is not None and (err is not None or differ(got, want)):
                res.fail(f'h-early:{key}', f'{note}: data read before: {err!r} {got}, expected {want}', case)
            reader.close()
        want = rows_for([(i, {'weight': 'w'}, w) for i, w in h.weight.items()]) if usable else None
        judge_legacy(res, h.src, h.sp, want, usable and not complete[h.default], case, note)
    return res


def case_chain(case):
    """Three steps, domains, quantize off: totals survive; each step follows its own link."""
    res = core.Result()
    rows1 = {(1, 1, WHOLE): case['v'][0], (1, 2, WHOLE): case['v'][1], (2, 2, WHOLE): 1.0, (2, 0, WHOLE): case['v'][2]}
    rows2 = {(1, 1, WHOLE): case['v'][1], (1, 2, WHOLE): case['v'][2], (2, 1, WHOLE): 1.0, (2, 0, WHOLE): case['v'][0]}
    src, recs, quantities, _ = source(2, domain='dom')
    mid, far = target(2), build(('P', 'Q'), [('p1', 'q1'), ('p2', 'q2')], domain='other')
    mid.add_link(src, 'a', is_default=True)
    insert(mid, src, 'a', rows1)
    far.add_link(mid, 'b', is_default=True)
    insert(far, mid, 'b', rows2)
    reader = src() >> mid >> far
    res.count('transitions', 2)
    res.count('states')
    got = read(reader, 2)
    want = {}
    ids = {('s1',): 1, ('s2',): 2, ('-',): 0}
    names = [('-', '-'), ('p1', 'q1'), ('p2', 'q2')]
    for rec, attrs, v in quantities:
        attrs = tuple(sorted(dict(attrs, domain='dom').items()))
        for t, p in distribute(rows1, ids[rec]).items():
            for u, r in distribute(rows2, t).items():
                want[names[u], attrs] = want.get((names[u], attrs), 0.0) + v * p * r
    if differ(got, want):
        res.fail(f'chain:{case["v"]}', f'chain {case["v"]}: {differ(got, want)}', case)
    if list(reader.columns) != ['P', 'Q', 'cat', 'domain', 'value']:
        res.fail(f'chain:{case["v"]}', f'columns {reader.columns}', case)
    return res


KINDS = {'matrix': case_matrix, 'choice': case_choice, 'history': case_history, 'chain': case_chain}


def run_case(case):
    return KINDS[case['kind']](case)


def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def explore(ctx):
    cases = []
    ways = ['rshift', 'translate', 'drive'] if ctx.thorough else ['rshift']

    def matrices(n, m, cells, undefined, zero_rows=(None,)):
        places = [(o, t) for o in range(1, n + 1) for t in ([0] if undefined else []) + list(range(1, m + 1))]
        out = []
        for combo in itertools.product(cells, repeat=len(places)):
            rows = []
            for (o, t), cell in zip(places, combo):
                if cell == 'both':
                    rows += [[o, t, WHOLE, 1.0], [o, t, UPPER, 2.0]]
                elif cell == 'upper':
                    rows.append([o, t, UPPER, 3.0])
                elif cell is not None:
                    rows.append([o, t, WHOLE, cell])
            for z in zero_rows:
                out.append(rows + ([[0, z, WHOLE, 5.0]] if z else []))
        return [{'kind': 'matrix', 'n': n, 'm': m, 'rows': c, 'ways': ways} for c in chunks(out, 24)]
    cases += matrices(1, 3, (None, 0.0, 1.0, 3.0), True, (None, 1))
    cases += matrices(2, 2, (None, 0.0, 1.0, 3.0), False, (None, 1))
    cases += matrices(2, 2, (None, 0.0, 1.0, 0.1) if ctx.thorough else (None, 0.0, 2.5), True)
    cases += matrices(2, 2, (None, 'upper', 'both', 1.0), False)
    cases += matrices(1, 3, (1e9, 0.1, 1e-7), True)
    cases += matrices(3, 2, (None, 1.0, 2.0, 0.0) if ctx.thorough else (None, 1.0), False)
    if ctx.thorough:
        cases += matrices(3, 3, (None, 1.0), False, (None, 2))
        cases += matrices(2, 3, (None, 0.0, 3.0), False)
    ctx.run(run_case, cases, batch=1, label='matrices')

    cases = []
    kinds = ('full', 'partial', 'stale', 'empty') + (('extra',) if ctx.thorough else ())
    states = list(itertools.product(kinds, repeat=3))
    sels = [(0, 1, 2), (1, 2, 4), (2, 1, 1), (3, 4, 0), (0, 5, 1), (6, 2, 5), (0, 7, 6), (2, 2, 3)]
    if ctx.thorough:
        sels += [p for p in itertools.product(range(len(SEL)), repeat=3) if p[0] < 3 and p[1] != p[2]]
    for i, sel in enumerate(sels):
        for default in (0, 1, 2, None):
            for domain in ('', 'd1') if 5 in sel else ('',):
                some = states if i < 8 else states[::7]
                cases += [{'kind': 'choice', 'sel': sel, 'default': default, 'domain': domain, 'states': c,
                           'ways': ['rshift']} for c in chunks(some, 16)]
    ctx.run(run_case, cases, batch=1, label='choice')

    level, dead = [()], 0
    for depth in range(1, 5 if ctx.thorough else 4):
        cases = [{'kind': 'history', 'path': list(p) + [e]} for p in level for e in EDITS
                 if not (p and p[-1] == e == 'reload')]
        level = []
        for case, data in ctx.map(run_case, cases, label=f'histories of {depth}'):
            if data != 'dead':
                level.append(tuple(case['path']))
        if ctx.stopped() or ctx.capped:
            break
    ctx.run(run_case, [{'kind': 'chain', 'v': v} for v in itertools.product((0.0, 1.0, 2.5), repeat=3)], label='chains')
