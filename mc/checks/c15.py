"""C15: selectors mean what their syntax says."""
import itertools
from .. import core, real, selq
from ..selq import s

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: two attributes, the listed values, and nesting of groups up to depth three',
    'case folding is judged on ASCII and Latin-1 letters only',
    'a selector with an empty value is refused (no documented meaning)',
]

VALUES = ['x', 'xy', 'x-y', 'y x', 'X', 'Yx', '-', 'i', ' ', 'x ', '"', "'", '\\', 'x"', "y'x", '\\"', 'x\\', '\\\\',
          ']', '),', 'é', '1']
OPS = ['=', '~=', '|=', '^=', '$=', '*=']
HAVE = [None, 'x', 'X', 'xy', 'XY', 'x-y', 'x-', 'yx', 'y x', 'x y', 'xx', 'y-x', '-', 'i', ' ', 'x ', '"', "'", '\\',
        'x"', "y'x", '\\"', 'x\\', '\\\\', ']', '),', 'é', 'É', '1', 'x\ty']
ROWS = [{'A': a} if a else {} for a in HAVE] + \
       [dict([('A', a)] if a else [], B=b) for a in HAVE[:9] for b in ('x', 'Xy', 'x-y')] + \
       [{'a': 'x'}, {'A': '', 'B': 'x'}, {'A': '', 'C': 'x'}]

POOL = [s('A'), s('B'), s('A', '=', 'x'), s('A', '=', 'X', True), s('B', '^=', 'x'), s('A', '*=', 'y'),
        s('B', '|=', 'x'), s('A', '~=', 'x')]


def singles():
    for attr in ('A', 'B'):
        yield s(attr)
        for op, val, ci in itertools.product(OPS, VALUES, (False, True)):
            yield s(attr, op, val, ci)
    for attr in ('i', '_a', 'a-b', '-a', 'is', 'not', 'é'):
        yield s(attr)
        yield s(attr, '=', 'x')


def groups_of(pool, sizes):
    for n in sizes:
        for members in itertools.product(pool, repeat=n):
            yield list(members)


def nested(thorough):
    level1 = []
    for members in groups_of(POOL, (1, 2)):
        for kind in ('is', 'not', 'where', 'and'):
            if kind == 'and' and len(members) == 1:
                continue
            level1.append([kind, members])
    yield from level1
    for members in groups_of(POOL[:6], (3,)):
        for kind in ('is', 'not', 'where', 'and'):
            yield [kind, members]
    # The grammar has no compound selectors inside parentheses.
    inner = [x for x in level1 if x[0] != 'and']
    small = POOL[:3]
    for x in inner:
        for kind in ('is', 'not', 'where'):
            yield [kind, [x]]
            for y in small:
                yield [kind, [x, y]]
                yield [kind, [y, x]]
                yield ['and', [y, [kind, [x]]]]
                yield ['and', [[kind, [x, y]], s('B')]]
    few = [x for x in inner if len(x[1]) == 1 or x[1][0] in POOL[:3] and x[1][1] in POOL[2:5]]
    for x, y in itertools.product(few, repeat=2):
        yield ['and', [x, y]]
        for kind in ('is', 'not', 'where'):
            yield [kind, [x, y]]
    if thorough:
        for x, y in itertools.product(inner, repeat=2):
            yield ['and', [x, y]]
            for kind in ('is', 'not', 'where'):
                yield [kind, [x, y]]
        for x in few:
            for k1, k2, k3 in itertools.product(('is', 'not', 'where'), repeat=3):
                for y in small:
                    yield [k1, [[k2, [[k3, [x, y]], y]], s('A')]]
                    yield ['and', [[k1, [[k2, [x]], y]], [k3, [y, x]]]]


def meaning(selector):
    return tuple(selector(r) for r in ROWS), tuple(selector.specificity)


def check_text(res, tree, style, case):
    from toron import selectors
    text = selq.text(tree, style)
    key = f'text:{text}'
    try:
        sel = selectors.parse_selector(text)
    except Exception as err:
        res.fail(key, f'{text!r} does not parse: {type(err).__name__}: {err}', case)
        return None
    want = tuple(selq.match(tree, r) for r in ROWS)
    got = []
    for r in ROWS:
        v = sel(r)
        got.append(v)
    for r, g, w in zip(ROWS, got, want):
        res.count('evaluated')
        if bool(g) != w:
            res.fail(key, f'{text} applied to {r!r} gives {g!r}, its syntax means {w}', case)
            return None
    if tuple(sel.specificity) != selq.specificity(tree):
        res.fail(key, f'{text} has specificity {sel.specificity}, documented {selq.specificity(tree)}', case)
    back = str(sel)
    try:
        again = selectors.parse_selector(back)
    except Exception as err:
        res.fail(key, f'{text} is written back as {back!r}, which does not parse: {err}', case)
        return None
    if meaning(again) != meaning(sel):
        diff = [r for r in ROWS if bool(again(r)) != bool(sel(r))]
        res.fail(key, f'{text} is written back as {back!r}, which means something else (e.g. for {diff[:1]})', case)
    if again != sel or hash(again) != hash(sel):
        res.fail(key, f'{text} is written back as {back!r}, which does not compare equal', case)
    res.outcome((got, tuple(sel.specificity)))
    return sel


def case_text(case):
    res = core.Result()
    kinds = {}
    for tree in case['trees']:
        for style in (0, 1, 2):
            res.count('transitions')
            sel = check_text(res, tree, style, {'kind': 'text', 'trees': [tree]})
            if sel is None:
                continue
            # Equal selectors must match the same rows.
            m = meaning(sel)[0]
            if kinds.setdefault(sel, (m, tree))[0] != m:
                res.fail(f'equal:{tree}:{kinds[sel][1]}', f'{selq.text(tree)} and {selq.text(kinds[sel][1])} compare '
                         'equal but differ', {'kind': 'text', 'trees': [kinds[sel][1], tree]})
    res.count('states', len(case['trees']))
    return res


# --------------------------------------------------------------------------
# Every operator on every pair of short strings
# --------------------------------------------------------------------------
ALPHABET = 'xX- '


def strings(most, least=0):
    return [''.join(c) for n in range(least, most + 1) for c in itertools.product(ALPHABET, repeat=n)]


def case_strings(case):
    from toron import selectors
    res = core.Result()
    haves = strings(case['most'])
    for op, val, ci in case['items']:
        tree = s('A', op, val, ci)
        sel = selectors.parse_selector(selq.text(tree))
        res.count('states')
        for have in haves:
            row = {'A': have} if have else {}
            want = selq.match(tree, row)
            res.count('transitions')
            if bool(sel(row)) != want:
                res.fail(f'strings:{op}:{val}:{ci}', f'{selq.text(tree)} applied to {row!r} gives {not want}, its '
                         f'syntax means {want}', {'kind': 'strings', 'items': [[op, val, ci]], 'most': case['most']})
                break
            res.outcome((op, want))
    return res


# --------------------------------------------------------------------------
# Choosing among selectors
# --------------------------------------------------------------------------
CHOICE = [None,
          [s('A')], [s('B')], [s('A', '=', 'x')], [s('B', '=', 'x')],
          [['and', [s('A'), s('B')]]], [['and', [s('A', '=', 'x'), s('B')]]],
          [['and', [s('A', '=', 'x'), s('B', '=', 'x')]]],
          [['not', [s('A', '=', 'x')]]], [['where', [s('A')]]], [['not', [s('A'), s('B', '=', 'x')]]],
          [s('A'), s('B', '=', 'x')], [['where', [s('A')]], s('B')], [['is', [s('A', '=', 'x'), s('B')]]]]
PICK_ROWS = [{}] + [dict(([('A', a)] if a else []) + ([('B', b)] if b else []))
                    for a in (None, 'x', 'y') for b in (None, 'x', 'y') if a or b]


def case_choice(case):
    from toron import selectors
    res = core.Result()
    for combo in case['combos']:
        groups = dict(enumerate(CHOICE[i] for i in combo))
        built = {k: None if v is None else [selectors.parse_selector(selq.text(t)) for t in v]
                 for k, v in groups.items()}
        matcher = selectors.GetMatchingKey(built, default='dflt')
        res.count('states')
        for row in PICK_ROWS:
            res.count('transitions')
            want = selq.choose(groups, row, 'dflt')
            for name, got in (('get_greatest_unique_specificity',
                               selectors.get_greatest_unique_specificity(row, built, 'dflt')),
                              ('GetMatchingKey', matcher(row))):
                if got != want:
                    res.fail(f'choice:{combo}:{row}:{name}',
                             f'{name}: {[[selq.text(t) for t in v or ()] for v in groups.values()]} on {row}: chose '
                             f'{got!r}, expected {want!r}', {'kind': 'choice', 'combos': [combo]})
            res.outcome((combo, want))
    return res


# --------------------------------------------------------------------------
# Choice as users see it: the weights used to disaggregate
# --------------------------------------------------------------------------
def case_space(case):
    """Group k gives record a1 the weight k+1 of 10, so the parts name the group."""
    res = core.Result()
    combo = case['combo']
    groups = dict(enumerate(CHOICE[i] for i in combo))
    sp = real.DataSpace()
    sp.add_index_columns('R')
    sp.insert_index([['R'], ['a1'], ['a2']])
    names = ['dflt'] + [f'g{k}' for k in groups]
    for n, name in enumerate(names):
        trees = groups.get(n - 1)
        sp.add_weight_group(name, selectors=[selq.text(t) for t in trees] if trees else None,
                            make_default=name == 'dflt')
        sp.insert_weights(name, [['R', name], ['a1', n + 1.0], ['a2', 9.0 - n]])
    sp.set_registered_attributes(['A', 'B'])
    rows = [r for r in PICK_ROWS if r]
    sp.insert_quantities2(value_column='v', data=[['R', 'A', 'B', 'v']] + [
        ['', r.get('A', ''), r.get('B', ''), 10.0] for r in rows])
    reader = sp()
    got = {}
    cols = reader.columns
    for row in reader:
        d = dict(zip(cols, row))
        if d['R'] == 'a1':
            got[(d.get('A') or '', d.get('B') or '')] = d['value']
    reader.close()
    for r in rows:
        res.count('transitions')
        k = selq.choose(groups, r, 'dflt')
        want = 1.0 if k == 'dflt' else k + 2.0
        have = got.get((r.get('A', ''), r.get('B', '')))
        if not real.close(have, want):
            res.fail(f'space:{combo}:{r}', f'groups {[[selq.text(t) for t in v or ()] for v in groups.values()]}: '
                     f'quantity {r} was split by the wrong weights (part {have}, expected {want})', case)
    # Caller selectors restrict to exactly the matching quantities.
    for i in set(combo):
        trees = CHOICE[i]
        if not trees:
            continue
        reader = sp(*[selq.text(t) for t in trees])
        cols = reader.columns
        seen = {tuple((k, v) for k, v in zip(cols[1:-1], row[1:-1]) if v) for row in reader}
        reader.close()
        want = {tuple(sorted(r.items())) for r in rows if any(selq.match(t, r) for t in trees)}
        res.count('transitions')
        if seen != want:
            res.fail(f'filter:{combo}:{i}', f'{[selq.text(t) for t in trees]} let through {sorted(seen)}, '
                     f'expected {sorted(want)}', case)
    res.count('states')
    return res


def run_case(case):
    return {'text': case_text, 'strings': case_strings, 'choice': case_choice, 'space': case_space}[case['kind']](case)


def chunks(items, n):
    items = list(items)
    return [items[i:i + n] for i in range(0, len(items), n)]


def explore(ctx):
    trees = list(singles()) + list(nested(ctx.thorough))
    ctx.run(run_case, [{'kind': 'text', 'trees': c} for c in chunks(trees, 25)], label='texts')
    items = [[op, val, ci] for op in OPS for val in strings(4 if ctx.thorough else 3, 1) for ci in (False, True)]
    ctx.run(run_case, [{'kind': 'strings', 'items': c, 'most': 5 if ctx.thorough else 4} for c in chunks(items, 30)],
            label='strings')
    n = range(len(CHOICE))
    combos = [c for k in (1, 2, 3) for c in itertools.product(n, repeat=k)]
    if ctx.thorough:
        combos += list(itertools.product(n, repeat=4))
    ctx.run(run_case, [{'kind': 'choice', 'combos': c} for c in chunks(combos, 40)], label='choices')
    combos = [c for k in (1, 2) for c in itertools.product(n, repeat=k)]
    if ctx.thorough:
        combos += list(itertools.product(n, repeat=3))
    else:
        combos += list(itertools.combinations(n, 3))
    ctx.run(run_case, [{'kind': 'space', 'combo': list(c)} for c in combos], label='spaces')
    ctx.samples = [selq.text(trees[3], 1), selq.text(trees[-1]), ctx.samples[-1] if ctx.samples else None]
