"""C01: disaggregation conserves every quantity and follows the weights."""
import itertools
import math
from .. import core, real, selq
from ..selq import s
from ..spaces import build, add_quantities, agrees, levels, locations, shares, read, expected, differ

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: two or three label columns with two or three labels each, at most four records (five in thorough), '
    'three weight groups, and the listed weights, attributes and selectors; some layouts of up to 150 (400) records',
    'quantities stored at a level outside the structure (which loading refuses by default) are not disaggregated',
    'parts are compared with a relative tolerance of 1e-9; rows of value zero may be present or absent',
]

TWO = ('A', 'B')
U2 = [('a1', 'b1'), ('a1', 'b2'), ('a2', 'b1'), ('a2', 'b2'), ('-', 'b1'), ('a1', '-')]
DEFS2 = [(), ('A',), ('B',), ('A', 'B')]
THREE = ('A', 'B', 'C')
U3 = [(a, b, c) for a in ('a1', 'a2') for b in ('b1', 'b2') for c in ('c1', 'c2')]
DEFS3 = [(), ('A',), ('AB',), ('A', 'B'), ('A', 'AB'), ('AB', 'BC'), ('A', 'B', 'C'), ('C', 'AB')]
ODD = [0.1, 0.7, 1e9, 3.0, 1e-7]
SCALES = (1e-7, 1e-12, 1e-150, 1e15, 1e150)


def shape(kind, n):
    """*n* records: all labels of column A distinct but for one pair, few
    distinct ones, or two halves of different form."""
    if kind == 'near':
        return [('a%d' % max(i, 1), 'b%d' % (i % 2)) for i in range(n)]
    if kind == 'few':
        return [('a%d' % (i % 2), 'b%d' % i) for i in range(n)]
    return [('a%d' % (i if i < n // 2 else n), 'b%d' % (i if i >= n // 2 else 0)) for i in range(n)]


def vectors(n, thorough):
    yield from itertools.product((0.0, 1.0, 3.0), repeat=n)
    if n > 1:
        yield from (v for v in itertools.permutations(ODD, n))
        for scale in SCALES:
            yield from (tuple(w * scale for w in v) for v in ((1.0, 3.0, 0.0, 2.0, 7.0)[:n], (2.0, 1.0, 4.0, 0.0, 3.0)[:n]))


def check(res, sp, records, quantities, choose, weights, case, note, domain='', keep=lambda a: True, call=()):
    cols = len(quantities[0][0])
    want = expected(records, quantities, choose, weights, domain, keep)
    res.count('transitions')
    try:
        reader = sp(*call)
        got = read(reader, cols)
        reader.close()
    except Exception as err:
        if want is not None:
            res.fail(f'refused:{core.digest((case, note))}', f'{note}: refused with {err!r}, expected {want}', case)
        return
    if want is None:
        res.fail(f'accepted:{core.digest((case, note))}', f'{note}: must be refused, gave {got}', case)
        return
    bad = differ(got, want)
    if bad:
        res.fail(f'parts:{core.digest((case, note))}', f'{note}: {bad}\n all rows: {got}', case)
    # A quantity of zero is a quantity: its attributes show up, too.
    gone = {a for _, a in want} - {a for _, a in got}
    if gone:
        res.fail(f'gone:{core.digest((case, note))}', f'{note}: no rows at all for {sorted(gone)}', case)
    # Nothing lands anywhere else, not even a zero, except on the undefined record.
    labs = {}
    for lab, attrs, _ in quantities:
        a = tuple(sorted(dict(attrs, **({'domain': domain} if domain else {})).items()))
        labs.setdefault(a, []).append(lab)
    for (rec, attrs), v in got.items():
        if not any(agrees(rec, lab) for lab in labs.get(attrs, ())):
            res.fail(f'where:{core.digest((case, note))}', f'{note}: value {v} landed on {rec} {attrs}', case)
    res.outcome(sorted(got.items()))


def case_layout(case):
    """One index and one set of definitions: every weight vector, every location."""
    res = core.Result()
    cols, records, defs = tuple(case['cols']), [tuple(r) for r in case['records']], case['defs']
    universe = U2 if len(cols) == 2 else U3
    fit, unfit = [], []
    for level in levels(cols, [set(d) for d in defs]):
        large = case.get('large')
        locs = (sorted({tuple(v if b else '' for v, b in zip(r, level)) for r in records}) if large
                else locations(cols, level, universe + [('-',) * len(cols)]))
        for loc in locs:
            (fit if shares(records, loc, {r: 1.0 for r in records}) else unfit).append(loc)
    quantities = []
    for n, loc in enumerate(fit):
        size = case.get('size', 1.0)
        quantities.append((loc, {'cat': f'q{n}'}, (7.0 + n) * size))
        if n < 9:
            quantities.append((loc, {'cat': f'z{n}'}, 0.0))
        quantities.append((loc, {'cat': 'all'}, ((-1.5) ** (n % 30) + 0.25) * size))
    sp = build(cols, records, [set(d) for d in defs], ('cat',),
               [('w', None, {r: 1.0 for r in records})], quantities)
    for vec in case.get('vectors') or vectors(len(records), case['thorough']):
        vec = list(vec)
        weights = dict(zip(records, vec))
        sp.insert_weights('w', [list(cols) + ['w']] + [list(r) + [w] for r, w in weights.items()],
                          on_conflict='replace')
        res.count('states')
        before = len(res.violations)
        check(res, sp, records, quantities, lambda a: 'w', {'w': weights}, dict(case, vectors=[vec]),
              f'records {records} weights {vec} definitions {defs}')
        if len(res.violations) > before:
            return res
    # Locations without a matching record are refused, each one alone.
    if case.get('refusals'):
        for loc in unfit:
            sp = build(cols, records, [set(d) for d in defs], ('cat',),
                       [('w', None, {r: 1.0 for r in records})],
                       [(loc, {'cat': 'x'}, 1.0), (records[0], {'cat': 'y'}, 2.0)], allow_invalid_label=True)
            check(res, sp, records, [(loc, {'cat': 'x'}, 1.0), (records[0], {'cat': 'y'}, 2.0)], lambda a: 'w',
                  {'w': {r: 1.0 for r in records}}, case, f'records {records} location {loc} definitions {defs}')
            # ... unless the caller asked for other quantities only.
            check(res, sp, records, [(loc, {'cat': 'x'}, 1.0), (records[0], {'cat': 'y'}, 2.0)], lambda a: 'w',
                  {'w': {r: 1.0 for r in records}}, case, f'records {records} location {loc} definitions {defs}',
                  keep=lambda a: a['cat'] == 'y', call=('[cat="y"]',))
    return res


SEL = [None, [s('cat', '=', 'x')], [s('sex')], [s('cat', '=', 'x'), s('sex', '=', 'm')], [s('cat')],
       [['and', [s('cat', '=', 'x'), s('sex', '=', 'm')]]], [['not', [s('cat', '=', 'x')]]], [s('domain', '=', 'd1')],
       [s('cat', '^=', 'X', True)], [['where', [s('cat')]]]]
CALLS = [(), (1,), (2,), (5,), (6,), (1, 2), (8,), (3,)]
R3 = [('a1', 'b1'), ('a1', 'b2'), ('a2', 'b1')]
ATTRS = [{'cat': 'x'}, {'cat': 'y'}, {'sex': 'm'}, {'cat': 'x', 'sex': 'm'}, {'cat': 'x', 'sex': 'f'},
         {'cat': 'y', 'sex': 'm'}, {'sex': 'x'}, {'cat': 'm', 'sex': 'x'}, {'cat': 'X'}]
GROUPW = [dict(zip(R3, (1.0, 1.0, 2.0))), dict(zip(R3, (1.0, 2.0, 5.0))), dict(zip(R3, (4.0, 1.0, 0.0)))]


def case_groups(case):
    """Weight groups with selectors, complete or not, and caller selectors."""
    res = core.Result()
    sels = [SEL[i] if i is not None else None for i in case['sel']]
    names = ['g0', 'g1', 'g2']
    weights, complete = {}, {}
    groups = []
    for n, name in enumerate(names):
        w = dict(GROUPW[n])
        if not case['full'][n]:
            del w[R3[(n + 1) % 3]]
        weights[name], complete[name] = w, bool(case['full'][n])
        groups.append((name, sels[n], w))
    quantities = []
    for n, (loc, attrs) in enumerate(itertools.product([('', ''), ('a1', ''), ('a2', 'b1')], ATTRS)):
        quantities.append((loc, attrs, 10.0 + n))
    domain = case['domain']
    sp = build(TWO, R3, [{'A'}], ('cat', 'sex'), groups, quantities, domain)
    chooser = {n: t for (n, t, _) in groups if t and complete[n]}

    def choose(attrs):
        return selq.choose(chooser, attrs, 'g0')
    for call in CALLS:
        trees = [t for i in call for t in SEL[i]]
        res.count('states')
        if not complete['g0']:
            res.count('transitions')
            try:
                got = read(sp(*[selq.text(t) for t in trees]), 2)
            except Exception:
                continue
            res.fail(f'incomplete:{core.digest(case)}', f'{case}: the default group is incomplete, got {got}', case)
            continue
        check(res, sp, R3, quantities, choose, weights, case, f'{case} call {call}', domain,
              keep=lambda a: not trees or any(selq.match(t, a) for t in trees),
              call=[selq.text(t) for t in trees])
    return res


def run_case(case):
    return case_layout(case) if case['kind'] == 'layout' else case_groups(case)


def explore(ctx):
    cases = []
    for n in range(1, 6 if ctx.thorough else 5):
        for records in itertools.combinations(U2, n):
            for defs in DEFS2:
                cases.append({'kind': 'layout', 'cols': TWO, 'records': records, 'defs': defs,
                              'refusals': n <= (4 if ctx.thorough else 3), 'thorough': ctx.thorough})
    ctx.run(run_case, cases, batch=1, label='two columns')
    # Many records: levels (nearly) as fine as the whole space, long batches.
    cases = []
    for n in (12, 40, 150, 400) if ctx.thorough else (12, 40, 150):
        for kind in ('near', 'few', 'halves'):
            records = shape(kind, n)
            for defs in DEFS2:
                vecs = [[float(i % 5) for i in range(n)], [1.0 / (i + 1) for i in range(n)]]
                cases.append({'kind': 'layout', 'cols': TWO, 'records': records, 'defs': defs, 'large': True,
                              'thorough': ctx.thorough, 'vectors': vecs})
    ctx.run(run_case, cases, batch=1, label='many records')
    # Small and large quantities.
    cases = [{'kind': 'layout', 'cols': TWO, 'records': U2[:n], 'defs': defs, 'size': size,
              'thorough': ctx.thorough, 'vectors': [[1.0, 2.0, 4.0, 0.0][:n], [0.0] * n]}
             for n in (2, 3, 4) for defs in DEFS2 for size in SCALES]
    ctx.run(run_case, cases, batch=1, label='sizes')
    cases = []
    top = 4 if ctx.thorough else 3
    for n in range(1, top + 1):
        for records in itertools.combinations(U3, n):
            for defs in DEFS3:
                vecs = [[1.0, 2.0, 4.0, 0.0][:n], [0.0] * n] + ([[0.0, 3.0, 0.5, 1.0][:n]] if n > 1 else [])
                cases.append({'kind': 'layout', 'cols': THREE, 'records': records, 'defs': defs,
                              'refusals': n == 2 and ctx.thorough, 'thorough': ctx.thorough, 'vectors': vecs})
    ctx.run(run_case, cases, label='three columns')
    cases = []
    picks = range(len(SEL)) if ctx.thorough else (0, 1, 2, 3, 5, 6, 7)
    for a, b in itertools.product(picks, repeat=2):
        for full in itertools.product((0, 1), repeat=3):
            if not ctx.thorough and sum(full) < 2:
                continue
            for domain in ('', 'd1'):
                for default_sel in (None, 1) if ctx.thorough or b == 0 else (None,):
                    cases.append({'kind': 'groups', 'sel': [default_sel, a, b], 'full': list(full), 'domain': domain})
    ctx.run(run_case, cases, label='weight groups')
