"""C02: quantized output stays conservative, whole-number and fair."""
import itertools
import json
import math
import os
import subprocess
import sys
from fractions import Fraction
from .. import core, real
from ..spaces import build, read

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: up to four records with every weight vector over the listed values, up to thirteen equal records; '
    'the listed quantities (absolute value at most 1e12) and their negatives',
    'sums are compared with a relative tolerance of 1e-12',
]

VALUES = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 10.0, 11.0, 12.0, 13.0, 99.0, 100.0, 101.0, 1000001.0, 123456789.0,
          1e12, 0.5, 0.1, 0.3, 0.999, 1.5, 2.5, 2.1, 3.75, 7.25, 9.999999, 10.1, 33.3, 0.1 + 0.2, 100.125, 65536.7,
          1e-9, 2 / 3, 999999999999.5]
VALUES += [-v for v in VALUES if v]
BASE = [0.0, 1.0, 2.0, 3.0]
ODD = [0.1, 0.7, 0.3, 1e6, 1e-6, 2 / 3]


def vectors(thorough):
    for n in (1, 2, 3, 4):
        yield from itertools.product(BASE, repeat=n)
    for n in (2, 3) + ((4,) if thorough else ()):
        yield from itertools.product(ODD, repeat=n)
    yield from itertools.product((1.0, 2.0), repeat=5)
    yield from itertools.product((1.0, 3.0), repeat=6)
    if thorough:
        yield from itertools.product((0.0, 1.0, 2.0, 3.0, 5.0), repeat=5)
        yield from itertools.product((0.0, 1.0, 4.0), repeat=7)
    for n in range(5, 14):
        yield (1.0,) * n
        yield (0.0,) * n
        yield tuple(float(k) for k in range(n))


def exact_shares(vec, value):
    total = sum(map(Fraction, vec))
    if total:
        return [Fraction(value) * Fraction(w) / total for w in vec]
    return [Fraction(value) / len(vec) for _ in vec]


def judge(res, parts, undefined, vec, value, case, how):
    """parts: one value per record."""
    key = f'{how}:{vec}:{value}'
    exact = exact_shares(vec, value)

    def bad(what):
        res.fail(key, f'{how}: value {value!r} over weights {list(vec)} gives {parts} '
                      f'(exact {[float(e) for e in exact]}, undefined {undefined}): {what}', case)
    res.count('transitions')
    if not math.isclose(math.fsum(parts) + undefined, value, rel_tol=1e-12, abs_tol=1e-15):
        return bad(f'the sum is {math.fsum(parts) + undefined!r}')
    if undefined:
        return bad('the undefined record received a part')
    broken = [p for p in parts if p != int(p)]
    if len(broken) > 1 or broken and value == int(value):
        return bad('more parts than allowed are not whole')
    for p, e in zip(parts, exact):
        if abs(Fraction(p) - e) >= 1 + Fraction(1, 10 ** 5) * (abs(value) > 1e9):
            return bad(f'part {p} is a unit or more from its share {float(e)}')
    if len([e for e in exact if e.denominator != 1]) == 0:
        if [Fraction(p) for p in parts] != exact:
            return bad('all shares were whole and must be unchanged')
    for p, e in zip(parts, exact):
        if e.denominator == 1 and p != e and not any(w in ODD for w in vec):
            return bad(f'whole share {float(e)} was changed to {p}')


def outcome(vec, via, run=0):
    """{value index: (parts, undefined part)} for every value of VALUES."""
    n = len(vec)
    records = [(f'r{i:02}',) for i in range(n)]
    names = [f'v{k}' for k in range(len(VALUES))]
    if via == 'disaggregate':
        sp = build(('R',), records, (), ('cat',), [('w', None, dict(zip(records, vec)))],
                   [(('',), {'cat': c}, v) for c, v in zip(names, VALUES)])
        reader = sp(quantize=True, cache_to_drive=bool(run))
    else:
        src = build(('S',), [('s1',), ('s2',)], (), ('cat',), [('w', None, {('s1',): 1.0, ('s2',): 1.0})],
                    [(('s1',), {'cat': c}, v) for c, v in zip(names, VALUES)])
        sp = build(('R',), records)
        sp.add_link(src, 'm')
        level = real.pack([1])
        sp.insert_mappings2(src, 'm', [['other_index_id', 'index_id', 'mapping_level', 'm']] + [
            [1, i + 1, level, w] for i, w in enumerate(vec)] + [[2, 1, level, 1.0]])
        if via == 'translate':
            reader = src()
            reader.translate(sp, quantize=True)
        elif via == 'rshift':
            reader = src(quantize=True) >> sp
        else:
            reader = src(quantize=True)
            reader.translate(sp)
    got = read(reader, 1)
    reader.close()
    out = {}
    for k, c in enumerate(names):
        a = (('cat', c),)
        parts = [got.pop((r, a), 0.0) for r in records]
        out[k] = (parts, got.pop((('-',), a), 0.0))
    if got:
        raise AssertionError(f'unexpected rows {got}')
    return out


def run_vector(case):
    res = core.Result()
    vec, via = tuple(case['vec']), case['via']
    out = outcome(vec, via)
    res.count('states')
    for k, (parts, undefined) in out.items():
        judge(res, parts, undefined, vec, VALUES[k], case, via)
        if res.violations:
            return res
        res.outcome((vec, k, parts))
    first = {VALUES[k]: p for k, (p, _) in out.items()}
    for v, parts in first.items():
        if v > 0 and [-p for p in first[-v]] != parts:
            res.fail(f'mirror:{via}:{vec}:{v}', f'{via}: {v} over {vec} gives {parts} but {-v} gives {first[-v]}', case)
            return res
    again = outcome(vec, via, 1)
    if again != out:
        diff = [(VALUES[k], out[k], again[k]) for k in out if out[k] != again[k]]
        res.fail(f'repeat:{via}:{vec}', f'{via}: a second run over {vec} differs: {diff[:2]}', case)
    return res


def run_process(case):
    """The same inputs in interpreters with different hash seeds."""
    res = core.Result()
    got = []
    prog = ('import sys, json; sys.path.insert(0, sys.argv[1]); from mc.checks import c02; '
            'print("RESULT" + json.dumps([sorted(c02.outcome(tuple(v), via).items()) '
            'for v in json.loads(sys.argv[2]) for via in ("disaggregate", "translate")]))')
    for seed in ('0', '1', '77'):
        env = dict(os.environ, PYTHONHASHSEED=seed, TORON_MC_REPO=core.REPO)
        p = subprocess.run([sys.executable, '-B', '-c', prog, core.VERIF, json.dumps(case['vecs'])],
                           env=env, capture_output=True, text=True)
        line = [l for l in p.stdout.splitlines() if l.startswith('RESULT')]
        if not line:
            res.fail('process', f'run failed: {p.stderr[-800:]}', case)
            return res
        got.append(line[0])
        res.count('processes')
    if len(set(got)) != 1:
        res.fail('process', 'the outcome differs between interpreter runs', case)
    return res


def run_mixed(case):
    """Several levels, sources and chained steps: sums and whole parts survive."""
    res = core.Result()
    vec = case['vec']
    recs = [('a1', 'b1'), ('a1', 'b2'), ('a2', 'b1')]
    values = [v for v in VALUES if v == int(v)]
    q = []
    for k, v in enumerate(values):
        for loc in (('', ''), ('a1', ''), ('a2', 'b1')):
            q.append((loc, {'cat': f'v{k}'}, v))
    src = build(('A', 'B'), recs, [{'A'}], ('cat',), [('w', None, dict(zip(recs, vec[:3])))], q)
    mid = build(('R',), [('r1',), ('r2',), ('r3',)])
    mid.add_link(src, 'm')
    level = real.pack([1])
    mid.insert_mappings2(src, 'm', [['other_index_id', 'index_id', 'mapping_level', 'm']] + [
        [s, t, level, vec[(s + t) % len(vec)]] for s in (1, 2, 3) for t in (1, 2, 3)])
    far = build(('F',), [('f1',), ('f2',)])
    far.add_link(mid, 'm')
    far.insert_mappings2(mid, 'm', [['other_index_id', 'index_id', 'mapping_level', 'm']] + [
        [s, t, level, vec[(2 * s + t) % len(vec)]] for s in (1, 2, 3) for t in (1, 2)])
    reader = src(quantize=True)
    for step, sp in enumerate((None, mid, far)):
        res.count('transitions')
        if sp is not None:
            reader = src(quantize=True) >> mid
            if sp is far:
                reader = reader >> far
        got = read(reader, 2 if sp is None else 1)
        totals = {}
        for (_, a), v in got.items():
            totals.setdefault(a, []).append(v)
            if v != int(v):
                res.fail(f'mixed:{vec}:{step}', f'step {step}: part {v!r} of whole quantities is not whole', case)
                return res
        for k, v in enumerate(values):
            if math.fsum(totals.get((('cat', f'v{k}'),), [])) != 3 * v:
                res.fail(f'mixed:{vec}:{step}', f'step {step}: parts of {v} x 3 sum to '
                         f'{math.fsum(totals.get((("cat", f"v{k}"),), []))}', case)
                return res
    res.count('states')
    return res


def run_case(case):
    return {'vector': run_vector, 'process': run_process, 'mixed': run_mixed}[case['kind']](case)


def explore(ctx):
    vecs = list(dict.fromkeys(vectors(ctx.thorough)))
    cases = [{'kind': 'vector', 'vec': v, 'via': 'disaggregate'} for v in vecs]
    cases += [{'kind': 'vector', 'vec': v, 'via': 'translate'} for v in vecs if ctx.thorough or len(v) != 6]
    cases += [{'kind': 'vector', 'vec': v, 'via': via} for v in vecs if len(v) == 3 for via in ('rshift', 'default')]
    ctx.run(run_case, cases, batch=8, label='vectors')
    ctx.run(run_case, [{'kind': 'mixed', 'vec': v} for v in itertools.product((0.0, 1.0, 2.0, 5.0), repeat=4)],
            batch=8, label='chains')
    ctx.run(run_case, [{'kind': 'process', 'vecs': [(1.0,) * 7, (1.0, 2.0, 3.0), (0.0,) * 5]}], label='processes')
