"""C06: reloading and storage mode never change a space."""
import os
import re
import shutil
from .. import core, real
from ..real import op, L, S, SET, F
from .c04 import OPS as MODIFYING, SETUPS as C04_SETUPS, POPULATED, REFUSED, H, M1, M2, F_, A_

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: the listed operations (every modifying method, valid and refused calls) in sequences of up to two '
    '(thorough: three over a reduced alphabet) from one populated space',
    'row order of results is not compared',
    'error types and messages are compared with file names removed',
]

SETUP_NAMES = ('populated', 'droppable', 'fullmaps', 'columns', 'empty')


def alphabet(setup):
    return [o for s, o in MODIFYING if s == setup] + (REFUSED if setup in ('populated', 'droppable') else [])


# Operations used as the second and third step everywhere: they read and write
# through every table, trigger and cascade.
PROBES = [
    op('delete_index', A='a1'),
    op('delete_index', A='a2', B='b1'),
    op('drop_weight_group', 'w1'),
    op('drop_link', S('S1'), 'm1'),
    op('add_weight_group', 'bad', selectors=['[cat']),
    op('add_link', S('S1'), 'bad', selectors=['no selector!']),
    op('edit_link', S('S1'), 'm1', user_properties=[1, 2]),
    op('insert_index', [H, ['a2', 'b2'], ['a3', 'b3']]),
    op('insert_weights', 'w2', [H + ['w2'], ['a1', 'b2', 5.0], ['a2', 'b1', 6.0]]),
    op('insert_mappings2', S('S1'), 'm2', [M2, [2, 1, F_, 1.0], [3, 3, F_, 2.0]]),
    op('insert_quantities2', value_column='v', on_existing='sum', data=[
        H + ['cat', 'sex', 'v'], ['a1', 'b1', 'x', 'm', 1.5], ['a1', '', 'y', '', 2.0]]),
    op('update_index', [['index_id', 'A', 'B'], [2, 'a1', 'b1']], merge_on_conflict=True),
    op('set_domain', 'z'),
    op('add_index_columns', 'C'),
    op('rename_index_columns', {'A': 'D'}),
]

MODES = ('memory', 'drive', 'bound')
# A variant: the mode to start in, and {position: mode to reload into}.
# Position k means after k operations.


def variants(n, every):
    out = [('memory', {}), ('drive', {}), ('bound', {})]
    if every:
        for start in MODES:
            for k in range(1, n):
                out += [(start, {k: m}) for m in MODES]
        if n > 2:
            out.append(('memory', {1: 'bound', 2: 'drive'}))
    else:
        out += [('memory', {k: 'drive'}) for k in range(1, n)]
    return out


def reload(space, mode):
    path = core.scratch_path('.toron')
    space.to_file(path, fsync=mode == 'drive')      # Both ways of saving.
    if mode == 'bound':
        real.BOUND.append(path)
        return real.bind_file(path, mode='rw')
    sp = real.read_file(path, cache_to_drive=mode == 'drive')
    os.unlink(path)
    return sp


def outcome(err):
    if err is None:
        return None
    text = re.sub(r'0x[0-9a-f]+|\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\S*', '<?>', str(err))
    for word in text.split():
        if core.SCRATCH in word:
            text = text.replace(word, '<file>')
    return f'{type(err).__name__}: {text}'


def play(blob, ops, start, reloads):
    """Run a history; returns (outcomes, space)."""
    sp = real.restore(blob, start)
    outs = []
    for k, o in enumerate(ops):
        if k in reloads:
            sp = reload(sp, reloads[k])
        outs.append(outcome(real.call(sp, o)))
    return outs, sp


def full_dump(space):
    path = real.save(space)
    try:
        return real.raw_dump(path, volatile=True)
    finally:
        os.unlink(path)


# --------------------------------------------------------------------------
# All answers of a space
# --------------------------------------------------------------------------
_THIRD = {}


def third(unique_id, mode):
    """A space with a link from the space under test (never modified)."""
    if unique_id not in _THIRD:
        class Ref:
            pass
        Ref.unique_id = unique_id
        sp = real.DataSpace()
        sp.add_index_columns('T')
        sp.insert_index([['T'], ['t1'], ['t2']])
        sp.add_link(Ref, 'm', is_default=True)
        sp.insert_mappings2(unique_id, 'm', [['other_index_id', 'index_id', 'mapping_level', 'm']] + [
            [1, 1, b'\x80', 1.0], [1, 2, b'\x80', 3.0], [2, 2, b'\x80', 2.0], [3, 1, b'\x80', 4.0]])
        _THIRD[unique_id] = sp
    return _THIRD[unique_id]


_FEED = []


def feed():
    """A source with quantities, for translations into the space under test."""
    if not _FEED:
        sp = real.source('S1')
        sp.add_weight_group('w', make_default=True)
        sp.insert_weights('w', [['X', 'w']] + [[f'S1x{i}', float(i)] for i in (1, 2, 3)])
        sp.set_registered_attributes(['cat'])
        sp.insert_quantities2(value_column='v', data=[
            ['X', 'cat', 'v'], ['S1x1', 'x', 8.0], ['S1x2', 'y', 3.0], ['', 'x', 12.0], ['S1x3', 'x', 2.5]])
        _FEED.append(sp)
    return _FEED[0]


def answer(func):
    try:
        return func()
    except Exception as err:
        return outcome(err)


def rows_of(reader):
    try:
        return (list(reader.columns), sorted(reader, key=repr))
    finally:
        reader.close()


def picture(space):
    """Everything the space answers, as plain data."""
    o = answer(lambda: real.observe(space))
    if isinstance(o, dict):
        o['pdefs'] = sorted(sorted(p) for p in o['pdefs'])
        o['structure'] = sorted((sorted(s), g) for s, g in o['structure'])
    src = feed()
    return {
        'observe': o,
        'dump': full_dump(space),
        'rows': answer(lambda: rows_of(space())),
        'drive': answer(lambda: rows_of(space(cache_to_drive=True))),
        'whole': answer(lambda: rows_of(space(quantize=True))),
        'some': answer(lambda: rows_of(space('[cat="x"]', sum_by_attrs='cat'))),
        'in': answer(lambda: rows_of(src() >> space)),
        'in_whole': answer(lambda: rows_of(src(quantize=True) >> space)),
        'in_old': answer(lambda: sorted(((r[0].id, r[0].labels, sorted(r[1].items()), r[2])
                                         for r in (src.select_weights('w') >> space).data), key=repr)),
        'out': answer(lambda: rows_of(space() >> third(space.unique_id, None))),
        'criteria': answer(lambda: sorted(space.select_index(A='a1'))),
        'weights_a1': answer(lambda: sorted(((r[0].id, r[2]) for r in space.select_weights('w1', A='a1').data))),
        'repr': answer(lambda: repr(space).split('\n')[1:]),
        'max': answer(lambda: space.max_index_id),
        'unique': space.unique_id,
    }


def differences(got, want):
    out = []
    for k in want:
        if got[k] != want[k]:
            if isinstance(want[k], dict) and isinstance(got[k], dict):
                out += [f'{k}.{j}: {got[k].get(j)!r} instead of {want[k][j]!r}' for j in want[k]
                        if got[k].get(j) != want[k][j]]
            else:
                out.append(f'{k}: {got[k]!r} instead of {want[k]!r}')
    return out


def show(ops):
    return ' ; '.join(f'{o[0]}({", ".join(map(repr, o[1]))[:70]})' for o in ops)


# --------------------------------------------------------------------------
# Histories from a stored space
# --------------------------------------------------------------------------
_BLOBS = {}


def blob_of(setup):
    if setup not in _BLOBS:
        sp = real.DataSpace()
        for o in C04_SETUPS[setup]:
            err = real.call(sp, o)
            if err is not None:
                raise RuntimeError(f'set-up {setup}: {o}: {err!r}')
        path = real.save(sp)
        _BLOBS[setup] = real.snapshot(path)
        os.unlink(path)
    return _BLOBS[setup]


def case_history(case):
    res = core.Result()
    blob = blob_of(case['setup'])
    ops = case['ops']
    want = None
    for start, reloads in case.get('variants') or variants(len(ops), case.get('every')):
        reloads = {int(k): v for k, v in dict(reloads).items()}
        outs, sp = play(blob, ops, start, reloads)
        got = full_dump(sp)
        if case.get('answers'):
            pic = picture(sp)
        res.count('transitions', len(ops))
        if want is None:
            want = outs, got
            if case.get('answers'):
                want_pic = pic
            first = (start, reloads)
            continue
        name = f'{start}, reloading {reloads}' if reloads else start
        mini = {**case, 'variants': [first, (start, reloads)]}
        key = f'history:{case["setup"]}:{core.digest([ops])}:{start}:{sorted(reloads.items())}'
        if outs != want[0]:
            res.fail(key, f'{show(ops)}: outcomes in {name} are {outs}, in memory {want[0]}', mini)
        elif got != want[1]:
            diff = [f'{t}: {got[t]!r} instead of {want[1][t]!r}' for t in got if got[t] != want[1][t]]
            res.fail(key, f'{show(ops)}: contents in {name} differ from those in memory:\n' + '\n'.join(diff), mini)
        elif case.get('answers'):
            res.count('answers_compared', len(pic))
            diff = differences(pic, want_pic)
            if diff:
                res.fail(key, f'{show(ops)}: answers in {name} differ from those in memory:\n' + '\n'.join(diff), mini)
    res.count('states', len(case.get('variants') or variants(len(ops), case.get('every'))))
    for k in (0, -1):
        res.outcome(want[0][k] if want[0] else None)
    res.outcome(core.digest(want[1]))
    res.data = core.digest(want[1])
    real.forget_bound()
    return res


# --------------------------------------------------------------------------
# Spaces built from nothing in each mode
# --------------------------------------------------------------------------
def case_build(case):
    """The set-up itself, one operation at a time, with one reload point."""
    res = core.Result()
    ops = C04_SETUPS[case['setup']] + case.get('more', [])

    def build(mode, at=None, into=None):
        if mode == 'bound':
            path = core.scratch_path('.toron')
            real.BOUND.append(path)
            sp = real.bind_file(path, mode='rwc')
        else:
            sp = real.DataSpace(cache_to_drive=mode == 'drive')
        outs = []
        for k, o in enumerate(ops):
            if k == at:
                sp = reload(sp, into)
            outs.append(outcome(real.call(sp, o)))
        if at == len(ops):
            sp = reload(sp, into)
        path = real.save(sp)
        dump = real.raw_dump(path)
        os.unlink(path)
        pic = picture(sp)
        pic.pop('dump')
        pic.pop('unique')
        if isinstance(pic['observe'], dict):
            pic['observe'].pop('dump')
        pic['repr'] = [x for x in pic['repr'] if ':' not in x or x.endswith(':')]
        return outs, dump, pic

    want = build('memory')
    for mode in MODES:
        for at, into in [(None, None)] + [(k, m) for k in case['points'] for m in MODES]:
            if mode == 'memory' and at is None:
                continue
            got = build(mode, at, into)
            res.count('states')
            res.count('transitions', len(ops))
            if got != want:
                diff = differences(dict(zip('obp', map(_flat, got))), dict(zip('obp', map(_flat, want))))
                res.fail(f'build:{case["setup"]}:{mode}:{at}:{into}', f'{case["setup"]} built in {mode}'
                         + (f', reloaded into {into} after {at} operations' if into else '')
                         + ', differs from memory:\n' + '\n'.join(diff), case)
            real.forget_bound()
    res.outcome(core.digest(want[1]))
    return res


def _flat(x):
    return dict(enumerate(x)) if isinstance(x, list) else x


# --------------------------------------------------------------------------
# File names
# --------------------------------------------------------------------------
NAMES = ['plain.toron', 'no suffix', 'two  spaces.toron', 'q?mode=ro', 'q?mode=memory&cache=shared', 'h#frag', '%41',
         '100%', "quo'te", 'dou"ble', 'é', '日本', ';', 'a:b', ':memory:', 'file:x', 'file:memdb?mode=memory',
         '-dash', '.hidden', '~', '$HOME', 'back\\slash', 'new\nline', '*', 'x' * 200, 'a.b.c', '%3f', '&', '=', '\x01']


def case_name(case):
    res = core.Result()
    name = case['name']
    blob = blob_of('populated')
    top = core.scratch_path('')
    os.makedirs(top)
    old = os.getcwd()
    try:
        os.chdir(top)
        ref = real.restore(blob)
        want = picture(ref)
        full = os.path.join(top, name)
        os.makedirs('sub')
        import pathlib
        for how, path, where in (('absolute', full, full), ('relative', name, full), ('bytes', os.fsencode(full), full),
                                 ('PathLike', pathlib.Path(full), full), ('dotted', os.path.join('sub', '..', name), full),
                                 ('in a sub-directory', os.path.join('sub', name), os.path.join(top, 'sub', name))):
            key = f'name:{name}:{how}'
            def bad(text):
                res.fail(key, f'file name {name!r} ({how}): {text}', case)
            try:
                ref.to_file(path, fsync=False)
                if not os.path.isfile(where):
                    bad(f'to_file() did not create the file; there is {sorted(os.listdir(top))}')
                    continue
                got = {'read_file': real.read_file(path), 'cached': real.read_file(path, cache_to_drive=True),
                       'bind rw': real.bind_file(path, mode='rw')}
            except Exception as err:
                bad(f'{type(err).__name__}: {err}')
                continue
            for way, sp in got.items():
                res.count('transitions')
                diff = differences(picture(sp) if how == 'absolute' else {'dump': full_dump(sp)},
                                   want if how == 'absolute' else {'dump': want['dump']})
                if diff:
                    bad(f'{way}: ' + '; '.join(diff))
            sp = got['bind rw']
            sp.set_domain('changed')
            if real.read_file(path).domain != 'changed':
                bad('a change through bind_file() is not in the file')
            os.unlink(where)
            try:
                sp = real.bind_file(path, mode='rwc')
                sp.add_index_columns('A')
                if list(real.read_file(path).index_columns) != ['A'] or not os.path.isfile(where):
                    bad('a space created by bind_file() is not in the file')
            except Exception as err:
                bad(f'creating with bind_file(): {type(err).__name__}: {err}')
            if os.path.exists(where):
                os.unlink(where)
            left = sorted(set(os.listdir(top) + os.listdir('sub')) - {'sub'})
            if left:
                bad(f'left files behind: {left}')
                for x in left:
                    for y in (x, os.path.join('sub', x)):
                        if os.path.isfile(y):
                            os.unlink(y)
        res.count('states')
        res.outcome(name)
    finally:
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)
    return res


def run_case(case):
    return {'history': case_history, 'build': case_build, 'name': case_name}[case['kind']](case)


def explore(ctx):
    feed()
    for s in SETUP_NAMES:
        blob_of(s)
    ctx.run(run_case, [{'kind': 'name', 'name': n} for n in NAMES], label='names')
    builds = []
    for s in SETUP_NAMES:
        n = len(C04_SETUPS[s])
        for k in range(1, n + 1):
            builds.append({'kind': 'build', 'setup': s, 'points': [k]})
    ctx.run(run_case, builds, label='builds')
    singles = [{'kind': 'history', 'setup': s, 'ops': [o], 'answers': True}
               for s in SETUP_NAMES for o in alphabet(s)]
    ctx.run(run_case, singles, label='single operations')
    if ctx.stopped():
        return
    pairs = []
    for s in SETUP_NAMES:
        names = alphabet(s)
        second = names if ctx.thorough else PROBES
        pairs += [{'kind': 'history', 'setup': s, 'ops': [a, b], 'every': ctx.thorough} for a in names for b in second]
    seen = {}
    for case, data in ctx.map(run_case, pairs, label='pairs'):
        seen.setdefault(data, case)
    if ctx.stopped():
        return
    # Every distinct state the pairs reach answers every query alike.
    reps = [{**c, 'answers': True, 'variants': [(m, {}) for m in MODES]} for c in seen.values()]
    ctx.counts['distinct_states'] = len(reps)
    ctx.run(run_case, reps, label='answers')
    if ctx.thorough and not ctx.stopped():
        triples = [{'kind': 'history', 'setup': 'populated', 'ops': [a, b, c], 'every': True}
                   for a in PROBES for b in PROBES for c in PROBES]
        ctx.run(run_case, triples, label='triples')
