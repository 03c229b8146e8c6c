"""C14: mappings built from labelled data match exactly the right records."""
import csv
import io
import itertools
import math
import os
import shutil
import zlib
from .. import cli, core, real
from ..spaces import build, agrees
from toron.graph import load_mapping

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: two spaces of up to four records and three label columns, one to three rows (four in thorough) of the '
    'listed locations, match limits 1 to 4, with and without overlap',
    'precedence between two levels of equal granularity is not fixed by the property: any consistent order is accepted, '
    'but the result must not depend on the order of the rows',
    'rows that leave all labels of one side blank are only checked with a match limit that excludes them; rows at a level '
    'outside the structure are left out by load_mapping() and refused by the command',
    'records without a weight take part only where a row matches them alone',
]

# name: (columns, records, definitions)
SPACES = {
    'two': (('A', 'B'), [('a1', 'b1'), ('a1', 'b2'), ('a2', 'b1')], [{'A'}, {'B'}]),
    'upper': (('A', 'B'), [('a1', 'b1'), ('a1', 'b2'), ('a2', 'b1')], [{'A'}]),
    'three': (('A', 'B', 'C'), [('a1', 'b1', 'c1'), ('a1', 'b1', 'c2'), ('a1', 'b2', 'c1'), ('a2', 'b1', 'c1')],
              [{'A'}, {'A', 'B'}]),
    'cross': (('A', 'B'), [('a1', 'b1'), ('a1', 'b2'), ('a2', 'b1'), ('a2', 'b2')], [{'A'}, {'B'}]),
    'one': (('X',), [('x1',), ('x2',), ('x3',)], []),
    'text': (('A', 'B'), [('p', 'q'), ('q', 'r'), ('q', 'q'), ('q', 'x1')], [{'A'}, {'B'}]),
}
PAD = tuple(f'P{n}' for n in range(1, 8))


def wide(row):
    """A, B carried over to nine columns (levels of two bytes)."""
    return row[:1] + ('p' if all(row) else '',) * len(PAD) + row[1:]


SPACES['wide'] = (('A',) + PAD + ('B',), [wide(r) for r in SPACES['two'][1]], [{'A'}, {'B'}])
WEIGHTS = {'full': (1.0, 3.0, 0.0, 4.0), 'zero': (0.0, 0.0, 0.0, 0.0), 'gap': (2.0, None, 5.0, 1.0)}
LOCATIONS = {
    'two': [('a1', 'b1'), ('a1', 'b2'), ('a2', 'b1'), ('a1', ''), ('a2', ''), ('', 'b1'), ('', 'b2'), ('a9', ''),
            ('a2', 'b2'), ('-', '-'), ('', '')],
    'upper': [('a1', 'b1'), ('a1', 'b2'), ('a2', 'b1'), ('a1', ''), ('a2', ''), ('', 'b1'), ('-', '-')],
    'three': [('a1', 'b1', 'c1'), ('a1', 'b1', 'c2'), ('a1', 'b2', 'c1'), ('a1', 'b1', ''), ('a1', 'b2', ''),
              ('a1', '', ''), ('a2', '', ''), ('', 'b1', ''), ('a2', 'b1', 'c1')],
    'cross': [('a1', 'b1'), ('a2', 'b2'), ('a1', ''), ('a2', ''), ('', 'b1'), ('', 'b2')],
    'one': [('x1',), ('x2',), ('x9',), ('-',), ('',)],
}
LOCATIONS['text'] = [('p', ''), ('', 'p'), ('q', ''), ('', 'q'), ('r', ''), ('', 'r'), ('p', 'q'), ('q', 'p'), ('', 'x1')]
LOCATIONS['wide'] = [wide(loc) for loc in LOCATIONS['two'] if any(loc)]
VALUES = [4.0, 6.0, 10.0, 0.5]


def space(name, weights):
    cols, records, defs = SPACES[name]
    w = {r: v for r, v in zip(records, WEIGHTS[weights]) if v is not None}
    return build(cols, records, defs, (), [('w', None, w)])


def level_of(location):
    return tuple(int(x != '') for x in location)


def structure(name):
    """{level: granularity} computed from the records."""
    cols, records, defs = SPACES[name]
    from ..spaces import levels
    out = {}
    for lv in levels(cols, defs):
        groups = {}
        for r in records:
            key = tuple(x for x, b in zip(r, lv) if b)
            groups[key] = groups.get(key, 0) + 1
        n = len(records)
        out[lv] = math.fsum(-c / n * math.log2(c / n) for c in groups.values())
    return out


def level_orders(name, used):
    """Every order of the levels in use from finest to coarsest."""
    gran = structure(name)
    used = sorted((lv for lv in used if lv in gran), key=lambda lv: -gran[lv])
    groups = []
    for lv in used:
        if groups and math.isclose(gran[groups[-1][0]], gran[lv], rel_tol=1e-9, abs_tol=1e-12):
            groups[-1].append(lv)
        else:
            groups.append([lv])
    for combo in itertools.product(*[itertools.permutations(g) for g in groups]):
        yield [lv for g in combo for lv in g]


def match(name, weights, locations, codes, limit, overlap, order, skip_blank):
    """{row number: {id: share}}"""
    cols, records, _ = SPACES[name]
    ids = {i + 1: r for i, r in enumerate(records)}
    ids[0] = ('-',) * len(cols)
    weight = {i: w for i, w in enumerate(WEIGHTS[weights], 1) if w is not None}
    taken = {}
    out = {}
    whole = (1,) * len(cols)
    for lv in order:
        if skip_blank and not any(lv):
            continue
        for n, loc in enumerate(locations):
            if (whole if codes[n] else level_of(loc)) != lv:
                continue
            if codes[n]:
                hits = [codes[n]] if codes[n] in ids else []
            else:
                hits = [i for i in ids if agrees(ids[i], loc)]
                if len(hits) > limit:
                    continue
                if len(hits) > 1 and not overlap:
                    hits = [i for i in hits if not taken.get(i, set()) - {lv}]
            if len(hits) > 1 and any(i not in weight for i in hits):
                continue
            if not hits:
                continue
            for i in hits:
                taken.setdefault(i, set()).add(lv)
            total = math.fsum(weight.get(i, 0.0) for i in hits)
            out[n] = {i: weight[i] / total if total and i in weight else 1 / len(hits) for i in hits}
            if total and len(hits) == 1:
                out[n] = {hits[0]: 1.0}
    return out, taken


def mappings(src, trg, rows, trg_locs, codes, cols):
    """{(other, index, level): value}"""
    out = {}
    for n, v in enumerate(rows):
        lv = (1,) * cols if codes[n] else level_of(trg_locs[n])
        if n not in src or n not in trg or not any(lv):
            continue
        for o, p in src[n].items():
            for t, q in trg[n].items():
                if o or t:
                    out.setdefault((o, t, lv), []).append(v * p * q)
    return {k: math.fsum(x) for k, x in out.items()}


def observe(sp, other, link, stored=False):
    """{(other, index, level): value} as shown by the space, or as stored
    (mappings to the undefined record are not shown)."""
    out = {}
    if stored:
        path = real.save(sp)
        dump = real.raw_dump(path)
        os.unlink(path)
        ids = [l.id for l in sp.links if l.other_unique_id == other.unique_id and l.name == link]
        names = dump['mapping'][0][1:]
        for r in dump['mapping'][1]:
            r = dict(zip(names, r))
            if r['link_id'] in ids:
                key = (r['other_index_id'], r['index_id'], real.unpack(r['mapping_level'], len(sp.index_columns)))
                if key in out:
                    raise AssertionError(f'{key} stored twice')
                out[key] = r['mapping_value']
        return out
    cols = sp.index_columns
    for row in sp.select_mappings(other, link, header=False):
        if row[0] is None:
            continue
        amb = row[-1].split(', ') if row[-1] else []
        key = (row[0], row[2], tuple(int(c not in amb) for c in cols))
        if key in out:
            raise AssertionError(f'{key} shown twice')
        out[key] = row[1]
    return out


def dash(rows):
    return any('-' in side for r in rows for side in r[:2])


def same(got, want):
    return set(got) == set(want) and all(math.isclose(got[k], want[k], rel_tol=1e-9, abs_tol=1e-12) for k in want)


def allowed(case, rows, cli_rules):
    """Possible results [(left mappings, right mappings)], and the records taken."""
    left, right = case['left'], case['right']
    lcodes = [r[3] if len(r) > 3 else None for r in rows]
    rcodes = [r[4] if len(r) > 4 else None for r in rows]
    llocs, rlocs, vals = [r[0] for r in rows], [r[1] for r in rows], [r[2] for r in rows]
    out = []

    def used(name, locs, codes):
        n = len(SPACES[name][0])
        return {(1,) * n if c else level_of(l) for l, c in zip(locs, codes)}
    for lo in level_orders(left, used(left, llocs, lcodes)):
        ml, tl = match(left, case['weights'], llocs, lcodes, case['limit'], case['overlap'], lo, not cli_rules)
        for ro in level_orders(right, used(right, rlocs, rcodes)):
            mr, tr = match(right, case['weights'], rlocs, rcodes, case['limit'], case['overlap'], ro, not cli_rules)
            want_right = mappings(ml, mr, vals, rlocs, rcodes, len(SPACES[right][0]))
            want_left = mappings(mr, ml, vals, llocs, lcodes, len(SPACES[left][0]))
            full = (set(tl) - {0} == set(range(1, len(SPACES[left][1]) + 1))
                    and set(tr) - {0} == set(range(1, len(SPACES[right][1]) + 1)))
            out.append((want_left, want_right, full))
    return out


def orders(rows, every):
    perms = list(dict.fromkeys(itertools.permutations([tuple(map(repr, r)) and i for i, r in enumerate(rows)])))
    return perms if every else [perms[0], perms[-1]] if len(perms) > 1 else perms


def verdict(res, case, rows, got, outcomes, note, key):
    gl, gr = got
    fits = [o for o in outcomes if same(gl, o[0]) and same(gr, o[1])]
    if not fits:
        res.fail(f'{key}:{core.digest((case, rows))}',
                 f'{note}\n  onto the left space: got {gl}\n  onto the right space: got {gr}\n  expected one of '
                 f'{[(o[0], o[1]) for o in outcomes]}', dict(case, rows=[rows]))
        return False
    return True


def case_library(case):
    """load_mapping() in both directions at once, every order of the rows."""
    res = core.Result()
    lsp, rsp = space(case['left'], case['weights']), space(case['right'], case['weights'])
    lcols, rcols = SPACES[case['left']][0], SPACES[case['right']][0]
    for rows in case['rows']:
        rows = [(tuple(r[0]), tuple(r[1]), r[2]) for r in rows]
        outcomes = allowed(case, rows, False)
        first = None
        for perm in orders(rows, case.get('every')):
            table = [list(lcols) + ['m'] + list(rcols)] + [
                list(rows[i][0]) + [rows[i][2]] + list(rows[i][1]) for i in perm]
            load_mapping(lsp, '<->', rsp, 'm', table, match_limit=case['limit'], allow_overlapping=case['overlap'])
            got = observe(lsp, rsp, 'm', dash(rows)), observe(rsp, lsp, 'm', dash(rows))
            lsp.drop_link(rsp, 'm')
            rsp.drop_link(lsp, 'm')
            res.count('transitions')
            note = (f'{case["left"]}/{case["right"]} weights {case["weights"]} limit {case["limit"]} '
                    f'overlap {case["overlap"]} rows {[table[i + 1] for i in range(len(rows))]}')
            if not verdict(res, case, rows, got, outcomes, note, 'library'):
                return res
            if first is None:
                first = got
            elif not (same(got[0], first[0]) and same(got[1], first[1])):
                res.fail(f'order:{core.digest((case, rows))}', f'{note}: the result depends on the order of the rows: '
                         f'{first} or {got}', dict(case, rows=[rows]))
                return res
            res.outcome((sorted(got[0].items()), sorted(got[1].items())))
        res.count('states')
    return res


def case_one_way(case):
    """Single directions and column extras give the same as both at once."""
    res = core.Result()
    lcols, rcols = SPACES[case['left']][0], SPACES[case['right']][0]
    for rows in case['rows']:
        rows = [(tuple(r[0]), tuple(r[1]), r[2]) for r in rows]
        outcomes = allowed(case, rows, False)
        for direction in ('->', '<-', '-->', '<--'):
            lsp, rsp = space(case['left'], case['weights']), space(case['right'], case['weights'])
            lsp.set_domain('L')
            # Columns in another order, and with the domain given.
            lorder = list(range(len(lcols)))[::-1]
            table = [['domain'] + [lcols[i] for i in lorder] + ['m'] + list(rcols)] + [
                ['L'] + [r[0][i] for i in lorder] + [r[2]] + list(r[1]) for r in rows]
            load_mapping(lsp, direction, rsp, 'm', table, match_limit=case['limit'],
                         allow_overlapping=case['overlap'])
            res.count('transitions')
            if '->' in direction:
                got, side, none = observe(rsp, lsp, 'm', dash(rows)), 1, lsp
            else:
                got, side, none = observe(lsp, rsp, 'm', dash(rows)), 0, rsp
            if not any(same(got, o[side]) for o in outcomes) or none.links:
                res.fail(f'oneway:{core.digest((case, rows, direction))}',
                         f'{direction} rows {rows} limit {case["limit"]} overlap {case["overlap"]}: got {got}, '
                         f'expected {[o[side] for o in outcomes]}; links of the other {none.links}',
                         dict(case, rows=[rows]))
                return res
    return res


_FILES = {}


def files(left, right, weights):
    key = (left, right, weights)
    if key not in _FILES:
        lsp, rsp = space(left, weights), space(right, weights)
        lsp.add_link(rsp, 'm')
        rsp.add_link(lsp, 'm')
        codes = {}
        for side, sp in (('l', lsp), ('r', rsp)):
            path = real.save(sp)
            codes[side] = {}
            status, out, err = cli.run([path, 'index'])
            for row in list(csv.reader(io.StringIO(out.decode())))[1:]:
                codes[side][int(row[0].split('X')[0])] = row[0]
            codes[side + 'file'] = path
        _FILES[key] = codes
    return _FILES[key]


def case_command(case):
    """The same through the 'mapping' command on files."""
    res = core.Result()
    lcols, rcols = SPACES[case['left']][0], SPACES[case['right']][0]
    codes = files(case['left'], case['right'], case['weights'])
    for rows in case['rows']:
        rows = [tuple(tuple(x) if isinstance(x, list) else x for x in r) for r in rows]
        with_codes = any(len(r) > 3 for r in rows)
        outcomes = allowed(case, rows, True)
        lv_l = {level_of(r[0]) for r in rows if not (len(r) > 3 and r[3])}
        lv_r = {level_of(r[1]) for r in rows if not (len(r) > 4 and r[4])}
        bad_level = lv_l - set(structure(case['left'])) or lv_r - set(structure(case['right']))
        first = None
        for perm in orders(rows, False):
            lf, rf = core.scratch_path('.toron'), core.scratch_path('.toron')
            shutil.copy(codes['lfile'], lf)
            shutil.copy(codes['rfile'], rf)
            head = list(lcols) + ['m'] + list(rcols)
            if with_codes:
                head = ['index_code'] + list(lcols) + ['m', 'index_code'] + list(rcols)
            buf = io.StringIO(newline='')
            w = csv.writer(buf)
            w.writerow(head)
            for i in perm:
                r = rows[i]
                if with_codes:
                    lc = codes['l'][r[3]] if r[3] else ''
                    rc = codes['r'][r[4]] if r[4] else ''
                    w.writerow([lc] + list(r[0]) + [r[2], rc] + list(r[1]))
                else:
                    w.writerow(list(r[0]) + [r[2]] + list(r[1]))
            argv = [lf, 'mapping', rf, 'm', '--no-backup', '--match-limit', case['limit']]
            argv += ['--allow-overlapping'] if case['overlap'] else []
            argv += ['--allow-incomplete'] if case['incomplete'] else []
            status, out, err = cli.run(argv, buf.getvalue())
            res.count('transitions')
            lsp, rsp = real.read_file(lf), real.read_file(rf)
            got = observe(lsp, rsp, 'm', dash(rows)), observe(rsp, lsp, 'm', dash(rows))
            os.unlink(lf)
            os.unlink(rf)
            note = (f'command on {case["left"]}/{case["right"]} weights {case["weights"]} limit {case["limit"]} '
                    f'overlap {case["overlap"]} incomplete {case["incomplete"]} rows {[rows[i] for i in perm]}: '
                    f'status {status} {err!r}')
            if bad_level:
                ok = status != 0 and got == ({}, {})
                outs = [({}, {}, True)]
            else:
                outs = outcomes if case['incomplete'] else [o if o[2] else ({}, {}, False) for o in outcomes]
                full = {o[2] for o in outs}
                ok = len(full) > 1 or case['incomplete'] or (status == 0) == full.pop()
                ok = ok and (status == 0 or not case['incomplete'])
            if not ok:
                res.fail(f'status:{core.digest((case, rows))}', f'{note}; got {got}', dict(case, rows=[rows]))
                return res
            if not verdict(res, case, rows, got, outs, note, 'command'):
                return res
            if first is not None and not (same(got[0], first[0]) and same(got[1], first[1])):
                res.fail(f'order:{core.digest((case, rows))}', f'{note}: the result depends on the order of the rows',
                         dict(case, rows=[rows]))
                return res
            first = got
        res.count('states')
    return res


def run_case(case):
    return {'library': case_library, 'oneway': case_one_way, 'command': case_command}[case['kind']](case)


def chunk(seq, n):
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def rowsets(left, right, size, lpick=None, rpick=None):
    """Multisets of *size* rows (values by position)."""
    alphabet = list(itertools.product(LOCATIONS[left] if lpick is None else [LOCATIONS[left][i] for i in lpick],
                                      LOCATIONS[right] if rpick is None else [LOCATIONS[right][i] for i in rpick]))
    for combo in itertools.combinations_with_replacement(alphabet, size):
        yield [(l, r, VALUES[i]) for i, (l, r) in enumerate(combo)]


def explore(ctx):
    deep = ctx.thorough
    cases = []

    def add(kind, left, right, sets, limits, overlaps, weights, **more):
        sets = list(sets)
        for limit, overlap, w in itertools.product(limits, overlaps, weights):
            cases.extend({'kind': kind, 'left': left, 'right': right, 'limit': limit, 'overlap': overlap, 'weights': w,
                          'rows': c, **more} for c in chunk(sets, 40 if kind == 'library' else 12))
    both, every_w = (False, True), tuple(WEIGHTS)
    for left in ('two', 'three'):
        add('library', left, 'one', rowsets(left, 'one', 1), (1, 2, 3), both, every_w)
        add('library', left, 'one', rowsets(left, 'one', 2, None, (0, 1) if left == 'two' else (0,)), (1, 2, 3), both,
            every_w if left == 'two' else ('full',))
        add('library', left, 'one', rowsets(left, 'one', 3, None, (0,)), (2, 3), both, ('full', 'gap') if deep else ('full',),
            every=True)
    add('library', 'one', 'two', rowsets('one', 'two', 2, (0,), None), (2,), both, ('full',))
    add('library', 'upper', 'two', rowsets('upper', 'two', 1), (1, 2, 3), both, every_w)
    add('library', 'upper', 'two', rowsets('upper', 'two', 2, (0, 1, 3, 5), (0, 1, 3, 5)), (2, 3), both, ('full',))
    add('library', 'cross', 'one', rowsets('cross', 'one', 2, None, (0, 1)), (2, 4), both, ('full', 'zero', 'gap'))
    add('library', 'cross', 'one', rowsets('cross', 'one', 3, None, (0,)), (2,), both, ('full',), every=True)
    add('library', 'text', 'one', rowsets('text', 'one', 2, None, (0,)), (1, 3), both, ('full',))
    add('library', 'text', 'text', rowsets('text', 'text', 1), (2, 3), (False,), ('full',))
    for other, size in (('one', 2), ('wide', 1)):
        add('library', 'wide', other, rowsets('wide', other, size, None, (0,) if other == 'one' else None), (1, 2), both,
            ('full',))
    if deep:
        add('library', 'two', 'one', rowsets('two', 'one', 3, None, (0, 1)), (1, 2, 3), both, every_w)
        add('library', 'three', 'one', rowsets('three', 'one', 4, None, (0,)), (2, 3), both, ('full',))
        add('library', 'two', 'two', rowsets('two', 'two', 2, (0, 1, 2, 3, 4, 5, 6), (0, 1, 2, 3, 4, 5, 6)), (1, 2, 3), both,
            every_w)
        add('library', 'cross', 'three', rowsets('cross', 'three', 2), (2, 3), both, ('full', 'gap'))
    ctx.run(run_case, cases, batch=1, label='library')
    cases = []
    add('oneway', 'two', 'one', rowsets('two', 'one', 2, (0, 3, 5, 7, 9), (0,)), (2,), both, ('full',))
    add('oneway', 'three', 'two', rowsets('three', 'two', 1, None, (0, 3, 5)), (2, 3), (False,), ('full', 'gap'))
    ctx.run(run_case, cases, batch=1, label='single directions')

    cases = []
    full = (0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
    add('command', 'two', 'one', rowsets('two', 'one', 1, None, (0, 2, 3)), (1,), both, ('full',), incomplete=True)
    add('command', 'two', 'one', rowsets('two', 'one', 1, full, (0, 2, 3)), (2,), (False,), every_w, incomplete=True)
    add('command', 'two', 'one', rowsets('two', 'one', 2, full, (0,)), (1, 2), both if deep else (False,),
        every_w if deep else ('full',), incomplete=True)
    add('command', 'two', 'one', rowsets('two', 'one', 2, (0, 3, 5, 6), (0, 1)), (2,), both, ('full', 'gap'), incomplete=True)
    add('command', 'upper', 'two', rowsets('upper', 'two', 1), (1,), (False,), ('full',), incomplete=True)
    add('command', 'upper', 'two', rowsets('upper', 'two', 2, (0, 1, 3, 5), (1, 3, 5)), (2,), both if deep else (False,),
        ('full',), incomplete=True)
    # The other way round: levels of FILE2, of the structure and outside.
    add('command', 'one', 'upper', rowsets('one', 'upper', 1, (0, 2, 3), None), (1, 2), (False,), ('full',), incomplete=True)
    add('command', 'one', 'two', rowsets('one', 'two', 1, (0, 2), None), (2,), both, ('full', 'gap'), incomplete=True)
    add('command', 'two', 'upper', rowsets('two', 'upper', 1), (2,), (False,), ('full',), incomplete=True)
    add('command', 'cross', 'one', rowsets('cross', 'one', 2, None, (0,)), (2,), both, ('full',), incomplete=True)
    add('command', 'wide', 'one', rowsets('wide', 'one', 2 if deep else 1, None, (0,)), (2,), both, ('full',), incomplete=True)
    add('command', 'text', 'one', rowsets('text', 'one', 2 if deep else 1, None, (0,)), (3,), both, ('full',), incomplete=True)
    # Complete or refused.
    some = [[(('a1', ''), ('x1',), 4.0), (('a2', ''), ('x2',), 6.0), (('a2', ''), ('x3',), 1.0)],
            [(('a1', 'b1'), ('x1',), 4.0), (('a1', 'b2'), ('x2',), 6.0), (('a2', 'b1'), ('x3',), 1.0)],
            [(('a1', 'b1'), ('x1',), 4.0), (('a2', 'b1'), ('x2',), 6.0), (('a2', 'b1'), ('x3',), 1.0)],
            [(('a1', 'b1'), ('x1',), 4.0), (('a1', 'b2'), ('x2',), 6.0), (('a2', 'b1'), ('x2',), 1.0)],
            [(('a1', ''), ('x1',), 4.0), (('a1', 'b2'), ('x2',), 6.0), (('', 'b1'), ('x3',), 1.0)],
            [(('a1', 'b1'), ('x1',), 4.0), (('a1', 'b2'), ('x9',), 6.0), (('a2', 'b1'), ('x3',), 1.0),
             (('-', '-'), ('x2',), 1.0)]]
    add('command', 'two', 'one', some, (1, 2), both, ('full', 'gap'), incomplete=False)
    # With index codes.
    mixed = []
    for lc, rc in itertools.product((None, 1, 3), (None, 2)):
        for loc in (('a1', ''), ('a2', 'b1'), ('', 'b1')):
            mixed.append([(('a1', 'b1'), ('x1',), 4.0, 1, 1), (loc, ('x2',), 6.0, lc, rc)])
            mixed.append([(('a1', 'b1'), ('x1',), 4.0, 1, 1), (loc, ('x1',), 6.0, lc, rc),
                          (('a1', 'b2'), ('x3',), 2.0, 2, 3)])
    add('command', 'two', 'one', mixed, (1, 2), both, ('full', 'gap'), incomplete=True)
    ctx.run(run_case, cases, batch=1, label='command')
