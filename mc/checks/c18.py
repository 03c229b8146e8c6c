"""C18: older files upgrade without loss, completely or not at all."""
import json
import os
import re
import shutil
import sqlite3
from .. import core, crash, faults, oldformat, real
from ..real import op, L, S, SET
from ..scenes import HOLES as HOLES_OPS
from . import c04, c06

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'the layout of 0.2.0 files is the one the repository\'s migration tests use; old files are written by this '
    'machinery from files of the current format, in the listed variants',
    'one fault per upgrade: an SQLite error before a storage call, an abort or full storage inside a statement, '
    'KeyboardInterrupt wherever CPython delivers signals, the process killed at a file system call (also in the '
    'middle of a write), or power lost after one (unsynced data and names lost as in C05)',
    'files of versions other than 0.2.0, 0.3.0 and 0.3.1 are out of scope',
]

ODD = ['node_index', 'it"s', "o'k", 'x y', 'ü', 'link', '[b]', 'relation']
NINE = [f'c{i}' for i in range(9)]


def wide(cols):
    """A space with these label columns, everything filled in."""
    n = len(cols)
    full = L([1] * n)
    labels = [[f'{c}{k}' for c in 'pqrstuvwxyz'[:n]] for k in range(1, 4)]
    return [op('add_index_columns', *cols), op('insert_index', [cols] + labels),
            op('add_partition_definitions', SET(cols[0])),
            op('add_weight_group', 'w1'), op('insert_weights', 'w1', [cols + ['w1']] + [r + [2.0] for r in labels]),
            op('add_link', S('S1'), 'm1', is_default=True),
            op('insert_mappings2', S('S1'), 'm1', [['other_index_id', 'index_id', 'mapping_level', 'm1'],
                                                   [1, 1, full, 1.0], [1, 2, L([1] + [0] * (n - 1)), 3.0],
                                                   [2, 3, full, 2.0]]),
            op('set_registered_attributes', ['cat', 'sex']),
            op('insert_quantities2', value_column='v', data=[
                cols + ['cat', 'sex', 'v']] + [r + ['x', '', float(k)] for k, r in enumerate(labels)]
                + [[labels[0][0]] + [''] * (n - 1) + ['y', 'm', 4.0]])]


SETUPS = {
    'empty': c04.EMPTY,
    'columns': c04.COLUMNS,
    'populated': c04.POPULATED,
    'droppable': c04.SETUPS['droppable'],
    'fullmaps': c04.SETUPS['fullmaps'],
    'holes': HOLES_OPS + [
        op('add_weight_group', 'w1'), op('insert_weights', 'w1', [['A', 'B', 'w1'], ['a1', 'b1', 1.0]]),
        op('add_link', S('S1'), 'm1', is_default=True, selectors=['[cat="x"]', '[sex]']),
        op('add_weight_group', 'w2', 'text "q"', selectors=['[cat="x"]'], make_default=True),
        op('set_domain', 'ü "d" \\'),
        # Old files do not list the attributes; unusual order and names.
        op('set_registered_attributes', ['zeta', 'cat', 'a"b']),
        op('insert_quantities2', value_column='v', data=[
            ['A', 'B', 'zeta', 'cat', 'a"b', 'v'], ['a1', 'b1', "it's", 'x', 'ü', 1.5], ['a1', 'b1', '', 'x', '', 4]]),
    ],
    'one': wide(['A']),
    'odd': wide(ODD),
    'nine': wide(NINE),
}

VARIANTS = [
    {'version': '0.3.0'},
    {'version': '0.2.0'},
    {'version': '0.2.0', 'domain': 'empty'},
    {'version': '0.2.0', 'domain': 'absent'},
    {'version': '0.2.0', 'domain': 'two'},
    {'version': '0.2.0', 'domain': 'other'},
    {'version': '0.2.0', 'domain': 'odd'},
    {'version': '0.2.0', 'null_levels': 'never'},
    {'version': '0.2.0', 'split': False, 'undefined': False},
    {'version': '0.2.0', 'constraints': False},
    {'version': '0.2.0', 'page_size': 512},
    {'version': '0.3.0', 'page_size': 65536},
]
WAYS = ('memory', 'drive', 'rw', 'rwc', 'bytes', 'resaved', 'rebound ro', 'cached resaved')

_BLOBS = {}


def blob(setup):
    if setup not in _BLOBS:
        sp = real.DataSpace()
        for o in SETUPS[setup]:
            err = real.call(sp, o)
            if err is not None:
                raise RuntimeError(f'set-up {setup}: {o}: {err!r}')
        path = real.save(sp)
        _BLOBS[setup] = real.snapshot(path)
        os.unlink(path)
    return _BLOBS[setup]


def reference(setup, variant):
    """Path of a current-format file with what the old file must become."""
    path = real.restore_file(blob(setup))
    con = sqlite3.connect(path)
    props = dict(con.execute('SELECT key, value FROM property').fetchall())
    if variant['version'] == '0.2.0':
        domain = oldformat.domain_now(variant.get('domain', 'plain'), json.loads(props.get('domain', '""')))
        keys = sorted({k for (a,) in con.execute('SELECT attributes FROM attribute_group') for k in json.loads(a)})
        for k, v in (('domain', domain), ('registered_attributes', keys)):
            con.execute('INSERT OR REPLACE INTO property VALUES (?, ?)', (k, json.dumps(v)))
    con.commit()
    con.close()
    return path


def old_file(setup, variant):
    path = real.restore_file(blob(setup))
    try:
        return oldformat.downgrade(path, **variant)
    finally:
        os.unlink(path)


def normal(dump):
    """Contents without the spelling of the schema and of empty properties."""
    dump = dict(dump)
    dump.pop('schema')
    names, rows = dump['property']
    have = dict(rows)
    dump['property'] = {**{'domain': '""', 'registered_attributes': '[]', 'partition_definitions': '[]'}, **have}
    return dump


def picture(space):
    pic = c06.picture(space)
    path = real.save(space)
    try:
        pic['dump'] = normal(real.raw_dump(path))
        pic['structure'] = oldformat.structure(path)
    finally:
        os.unlink(path)
    if isinstance(pic['observe'], dict):
        pic['observe'].pop('dump')
    if isinstance(pic['repr'], list):
        pic['repr'] = [x for x in pic['repr'] if not re.search(r'\d{4}-\d\d-\d\d \d\d:\d\d', x)]
    return pic


def listing(d):
    return sorted(os.listdir(d))


def read_bytes(path):
    with open(path, 'rb') as f:
        return f.read()


def open_way(path, way):
    if way == 'memory':
        return real.read_file(path)
    if way == 'drive':
        return real.read_file(path, cache_to_drive=True)
    if way in ('rw', 'rwc'):
        return real.bind_file(path, mode=way)
    if way == 'bytes':
        return real.read_file(os.fsencode(path))
    if way == 'resaved':
        return c06.reload(real.read_file(path), 'memory')
    if way == 'cached resaved':
        return c06.reload(real.read_file(path, cache_to_drive=True), 'memory')
    if way == 'rebound ro':
        real.bind_file(path, mode='rw')
        return real.bind_file(path, mode='ro')
    raise ValueError(way)


IN_PLACE = ('rw', 'rwc', 'rebound ro')


def place(setup, variant):
    """The old file alone in a fresh directory."""
    d = core.scratch_dir()
    path = os.path.join(d, 'data.toron')
    os.rename(old_file(setup, variant), path)
    return d, path


_REF = {}


def ref_picture(setup, variant):
    key = core.digest((setup, variant))
    if key not in _REF:
        path = reference(setup, variant)
        sp = real.read_file(path)
        os.unlink(path)
        _REF[key] = picture(sp)
    return _REF[key]


def case_open(case):
    """One old file opened in every way gives what it contained."""
    res = core.Result()
    setup, variant = case['setup'], case['variant']
    want = ref_picture(setup, variant)

    def bad(way, text):
        res.fail(f'open:{setup}:{core.digest(variant)}:{way}', f'{setup} stored as {variant}, {way}: {text}',
                 dict(case, ways=[way]))
    for way in case.get('ways') or WAYS:
        d, path = place(setup, variant)
        raw = read_bytes(path)
        res.count('transitions')
        res.count('states')
        if way == 'ro':
            try:
                real.bind_file(path, mode='ro')
            except Exception as err:
                res.outcome(type(err).__name__)
                if 'read-only' not in str(err):
                    bad(way, f'opening an old file read-only failed for another reason: {err!r}')
            else:
                bad(way, 'opening an old file read-only did not fail, although it cannot be upgraded')
            if read_bytes(path) != raw or listing(d) != ['data.toron']:
                bad(way, f'the file was changed by opening it read-only; directory {listing(d)}')
            shutil.rmtree(d)
            continue
        try:
            sp = open_way(path, way)
        except Exception as err:
            bad(way, f'cannot be opened: {type(err).__name__}: {err}')
            shutil.rmtree(d)
            continue
        if listing(d) != ['data.toron']:
            bad(way, f'left other files behind: {listing(d)}')
        if way not in IN_PLACE and read_bytes(path) != raw:
            bad(way, 'the file that was read was modified')
        diff = c06.differences(picture(sp), want)
        if diff:
            bad(way, 'differs from what it contained:\n' + '\n'.join(diff))
        if way in IN_PLACE:
            # Opening the upgraded file again changes nothing.
            raw = read_bytes(path)
            again = real.bind_file(path, mode='rw')
            if read_bytes(path) != raw:
                bad(way, 'opening the upgraded file again modified it')
            diff = c06.differences(picture(again), want)
            if diff:
                bad(way, 'differs when opened again:\n' + '\n'.join(diff))
            del again
        else:
            # Changes stay out of the file that was read.
            sp.set_domain('changed')
            if read_bytes(path) != raw or listing(d) != ['data.toron']:
                bad(way, 'changing the space reached the file it was read from')
        del sp
        shutil.rmtree(d)
    return res


def case_after(case):
    """Operations work on an upgraded file as they do on a current one."""
    res = core.Result()
    setup, variant, ops, mode = case['setup'], case['variant'], case['ops'], case['mode']
    dumps, outs = [], []
    for path in (reference(setup, variant), old_file(setup, variant)):
        if mode == 'bound':
            sp = real.bind_file(path, mode='rw')
        else:
            sp = real.read_file(path)
        outs.append([c06.outcome(real.call(sp, o)) for o in ops])
        out = real.save(sp)
        dumps.append(normal(real.raw_dump(out)))
        os.unlink(out)
        del sp
        os.unlink(path)
    res.count('transitions', len(ops))
    res.count('states')
    res.outcome((ops[0][0], outs[0][0]))
    key = f'after:{setup}:{core.digest([variant, ops, mode])}'
    if outs[0] != outs[1]:
        res.fail(key, f'{setup} upgraded from {variant}: {c06.show(ops)} gives {outs[1]}, on a current file {outs[0]}', case)
    elif dumps[0] != dumps[1]:
        res.fail(key, f'{setup} upgraded from {variant}: {c06.show(ops)} leaves other contents than on a current file:\n'
                 + '\n'.join(f'{k}: {dumps[1][k]!r} instead of {dumps[0][k]!r}' for k in dumps[0]
                             if dumps[0][k] != dumps[1][k]), case)
    return res


# --------------------------------------------------------------------------
# Faults
# --------------------------------------------------------------------------
_NEW = {}


def new_dump(setup, variant):
    """The complete new file (as the upgrade itself writes it)."""
    key = core.digest((setup, variant))
    if key not in _NEW:
        d, path = place(setup, variant)
        old = oldformat.dump(path)
        real.bind_file(path, mode='rw')
        _NEW[key] = old, oldformat.dump(path)
        shutil.rmtree(d)
    return _NEW[key]


def recover(path):
    """Let SQLite finish what an interrupted process left."""
    con = sqlite3.connect(path)
    try:
        con.execute('SELECT COUNT(*) FROM sqlite_master').fetchone()
    finally:
        con.close()


def check_state(res, case, path, what, where):
    """The file is completely old or completely new, and opens."""
    old, new = new_dump(case['setup'], case['variant'])
    name = f'fault:{case["setup"]}:{core.digest((case, where))}'
    try:
        recover(path)
        got = oldformat.dump(path)
    except Exception as err:
        res.fail(name, f'{what}: the file cannot be read any more: {err!r}', case)
        return None
    state = 'old' if got == old else 'new' if got == new else None
    if state is None:
        diff = [f'{k}: {got.get(k)!r}; old {old.get(k)!r}; new {new.get(k)!r}'[:600] for k in sorted({*got, *old, *new})
                if got.get(k) not in (old.get(k), new.get(k)) or (k not in got)]
        res.fail(name, f'{what}: the file is neither completely old nor completely new:\n  ' + '\n  '.join(diff), case)
        return None
    try:
        sp = real.bind_file(path, mode='rw')
        del sp
    except Exception as err:
        res.fail(name, f'{what}: the {state} file cannot be opened any more: {err!r}', case)
        return None
    if oldformat.dump(path) != new:
        res.fail(name, f'{what}: opening the {state} file again does not give the upgraded contents', case)
        return None
    return state


def do(path, way):
    if way in ('rw', 'rwc'):
        real.bind_file(path, mode=way)
    else:
        real.read_file(path, cache_to_drive=way == 'drive')


def case_events(case):
    """The fault points of one upgrade."""
    res = core.Result()
    d, path = place(case['setup'], case['variant'])
    sql, lines = [], []
    faults.install()
    try:
        with faults.sql_events(log=sql):
            do(path, case['way'])
    finally:
        faults.uninstall()
    shutil.rmtree(d)
    d, path = place(case['setup'], case['variant'])
    with faults.interrupt_events(log=lines):
        do(path, case['way'])
    shutil.rmtree(d)
    res.data = sql, lines
    return res


def case_fault(case):
    res = core.Result()
    way, kind, at = case['way'], case['kind'], case['at']
    d, path = place(case['setup'], case['variant'])
    raw = read_bytes(path)
    what = f'{case["setup"]} stored as {case["variant"]}, opened {way}, {kind} fault at event {at}' \
        + (f' ({case["arg"]} steps)' if case.get('arg') else '')
    name = f'fault:{case["setup"]}:{core.digest(case)}'
    faults.install()
    err = None
    try:
        if kind == 'signal':
            with faults.interrupt_events(at) as plan:
                do(path, way)
        else:
            with faults.sql_events(at, kind, case.get('arg', 0)) as plan:
                do(path, way)
    except (Exception, KeyboardInterrupt) as e:
        err = type(e).__name__
        e.__traceback__ = None
    finally:
        faults.uninstall()
    res.count('transitions')
    if listing(d) != ['data.toron']:
        res.fail(name, f'{what}: raised {err}; left other files behind: {listing(d)}', case)
    if way in ('rw', 'rwc'):
        state = check_state(res, case, path, what + f' (raised {err})', 'fault')
        if state == 'old' and err is None:
            res.fail(name, f'{what}: opening reported success but the file is still in the old format', case)
        res.outcome((kind, err, state))
    else:
        if read_bytes(path) != raw:
            res.fail(name, f'{what}: raised {err}; the file that was read was modified', case)
        try:
            sp = real.read_file(path)
            diff = c06.differences({'dump': normal(c06.full_dump(sp))['label_index']},
                                   {'dump': ref_picture(case['setup'], case['variant'])['dump']['label_index']})
            if diff:
                res.fail(name, f'{what}: raised {err}; reading again gives something else:\n' + '\n'.join(diff), case)
        except Exception as e:
            res.fail(name, f'{what}: raised {err}; the file cannot be read any more: {e!r}', case)
        res.outcome((kind, err))
    shutil.rmtree(d)
    return res


def stopped_run(case, mode, at, log):
    d, path = place(case['setup'], case['variant'])
    raw = read_bytes(path)

    def job():
        do(path, case['way'])
        return {'n': crash.disarm()}
    status, data = crash.in_child(job, d, mode, at, 0, log)
    return d, path, raw, status, data


def case_crash(case):
    crash.start()
    res = core.Result()
    what = f'{case["setup"]} stored as {case["variant"]}, opened {case["way"]}'
    new_dump(case['setup'], case['variant'])
    if case['kind'] in ('kill', 'torn'):
        d, path, raw, status, data = stopped_run(
            case, crash.KILL if case['kind'] == 'kill' else crash.TORN, case['at'], None)
        res.count('transitions')
        if status not in (0, 77) or (status == 0 and (data is None or 'crash' in data)):
            res.fail(f'fault:{core.digest(case)}', f'{what}: unexpected end of the process (status {status}): {data}', case)
        else:
            state = check_state(res, case, path, f'{what}, process stopped at file system call {case["at"]} '
                                f'({case["kind"]})', 'crash')
            res.outcome((case['kind'], state))
        shutil.rmtree(d, ignore_errors=True)
        return res
    log = core.scratch_path('.log')
    d, path, raw, status, data = stopped_run(case, crash.LOG, 0, log)
    events = crash.read_log(log)
    os.unlink(log)
    shutil.rmtree(d, ignore_errors=True)
    if status != 0 or data is None or 'crash' in data:
        res.fail(f'fault:{core.digest(case)}', f'{what}: unexpected end of the process (status {status}): {data}', case)
        return res
    res.data = data['n']
    if case['kind'] == 'count':
        return res
    fs = crash.FileSystem(d, {'data.toron': raw})
    seen = set()
    for i, e in enumerate(events, 1):
        fs.step(e)
        for names in fs.directories():
            for files in fs.combinations(names, case['depth']):
                key = core.digest(sorted(files.items()))
                if key in seen:
                    continue
                seen.add(key)
                res.count('power_loss_states')
                there = core.scratch_dir()
                for name, content in files.items():
                    with open(os.path.join(there, name), 'wb') as f:
                        f.write(content)
                text = f'{what}, power lost after call {i} of {len(events)} ({e[0]} {os.path.basename(e[1])})'
                if 'data.toron' not in files:
                    res.fail(f'fault:{core.digest((case, i))}', f'{text}: the file is missing', case)
                    state = None
                else:
                    state = check_state(res, case, os.path.join(there, 'data.toron'), text, i)
                shutil.rmtree(there, ignore_errors=True)
                if state is None:
                    return res
                res.outcome(('power', state))
    return res


def case_broken(case):
    """An old file the upgrade must refuse stays as it was."""
    res = core.Result()
    for way in ('rw', 'rwc', 'memory', 'drive', 'ro'):
        d, path = place('populated', case['variant'])
        con = sqlite3.connect(path, isolation_level=None)
        con.execute('PRAGMA foreign_keys=OFF')
        for statement in case['damage']:
            con.execute(statement)
        con.close()
        raw = read_bytes(path)
        dump = oldformat.dump(path)
        try:
            if way == 'ro':
                real.bind_file(path, mode='ro')
            else:
                do(path, way)
        except Exception as err:
            res.outcome(type(err).__name__)
        else:
            res.fail(f'broken:{core.digest(case)}:{way}', f'{way}: a file with {case["damage"]} was accepted', case)
        res.count('transitions')
        res.count('states')
        if listing(d) != ['data.toron']:
            res.fail(f'broken:{core.digest(case)}:{way}', f'{way}: the refused file has company: {listing(d)}', case)
        if oldformat.dump(path) != dump or (way in ('memory', 'drive', 'ro') and read_bytes(path) != raw):
            res.fail(f'broken:{core.digest(case)}:{way}', f'{way}: a refused file was changed', case)
        shutil.rmtree(d)
    return res


# Every late step of the upgrade must be able to fail without a trace.
BROKEN = [
    ({'version': '0.2.0'}, ["UPDATE property SET value='\"text\"' WHERE key='domain'"]),
    ({'version': '0.2.0'}, ["UPDATE property SET value='[1' WHERE key='domain'"]),
    ({'version': '0.2.0'}, ["INSERT INTO property VALUES ('registered_attributes', '[]')"]),
    ({'version': '0.2.0'}, ["INSERT INTO property VALUES ('user_properties', '{}')"]),
    ({'version': '0.2.0'}, ['UPDATE quantity SET _location_id=999 WHERE quantity_id=1']),
    ({'version': '0.2.0'}, ['UPDATE weight SET weight_group_id=999 WHERE weight_id=1']),
    ({'version': '0.2.0'}, ['UPDATE relation SET index_id=999 WHERE relation_id=1']),
    ({'version': '0.2.0'}, ['UPDATE relation SET index_id=NULL WHERE relation_id=1']),
    ({'version': '0.2.0'}, ['DROP INDEX unique_index_label_columns', 'INSERT INTO node_index VALUES (9, \'a1\', \'b1\')']),
    ({'version': '0.2.0'}, ['CREATE TABLE link(x)']),
    ({'version': '0.2.0'}, ['CREATE TABLE label_structure(x)']),
    ({'version': '0.3.0'}, ["INSERT INTO property VALUES ('created_date', '\"2020\"')"]),
    ({'version': '0.3.0'}, ["INSERT INTO property VALUES ('user_properties', '{}')"]),
    ({'version': '0.3.0'}, ['UPDATE mapping SET link_id=999 WHERE mapping_id=1']),
]

FUNCS = {'open': case_open, 'after': case_after, 'events': case_events, 'fault': case_fault, 'crash': case_crash,
         'broken': case_broken}


def run_case(case):
    return FUNCS[case['func']](case)


# --------------------------------------------------------------------------
# Exploration
# --------------------------------------------------------------------------
def explore(ctx):
    crash.start()
    for s in SETUPS:
        blob(s)
    cases = []
    for s in SETUPS:
        for v in VARIANTS:
            if v['version'] == '0.2.0' and s not in ('populated', 'holes') and not ctx.thorough \
                    and set(v) - {'version', 'null_levels', 'constraints'}:
                continue
            ways = list(WAYS) + ['ro']
            if not ctx.thorough and len(v) > 1:
                ways = ['memory', 'rw', 'ro']
            cases.append({'func': 'open', 'setup': s, 'variant': v, 'ways': ways})
    ctx.run(run_case, cases, batch=1, label='opening')
    ctx.sample(cases[0])
    ctx.run(run_case, [{'func': 'broken', 'variant': v, 'damage': dmg} for v, dmg in BROKEN], batch=1, label='refused')

    base = [{'version': '0.2.0'}, {'version': '0.3.0'}]
    modes = ['memory', 'bound'] if ctx.thorough else ['memory']
    cases = []
    for s in ('populated', 'droppable', 'fullmaps', 'columns', 'empty'):
        ops = c06.alphabet(s) + (c06.PROBES if s in ('populated', 'fullmaps') else [])
        for v in base:
            for m in modes:
                cases += [{'func': 'after', 'setup': s, 'variant': v, 'mode': m, 'ops': [o]} for o in ops]
                if ctx.thorough and s == 'populated':
                    cases += [{'func': 'after', 'setup': s, 'variant': v, 'mode': m, 'ops': [o, p]}
                              for o in ops for p in c06.PROBES]
    for s in ('holes', 'one', 'odd', 'nine'):
        cols = {'holes': ['A', 'B'], 'one': ['A'], 'odd': ODD, 'nine': NINE}[s]
        fresh = [f'{c}9' for c in 'pqrstuvwxyz'[:len(cols)]]
        more = [op('insert_index', [cols, fresh]), op('delete_index', **{cols[0]: 'p1' if s != 'holes' else 'a1'}),
                op('rename_index_columns', {cols[0]: 'new'}), op('drop_index_columns', cols[-1]),
                op('add_index_columns', 'more'), op('drop_weight_group', 'w1'), op('drop_link', S('S1'), 'm1'),
                op('drop_partition_definitions', SET(cols[0]))]
        for v in base:
            for o in more:
                cases.append({'func': 'after', 'setup': s, 'variant': v, 'mode': 'memory', 'ops': [o]})
                for p in more:
                    cases.append({'func': 'after', 'setup': s, 'variant': v, 'mode': 'bound', 'ops': [o, p]})
    ctx.run(run_case, cases, label='operations')

    runs = [{'setup': s, 'variant': v, 'way': w} for s in ('populated', 'empty') + (('odd', 'holes') if ctx.thorough else ())
            for v in base for w in ('rw', 'rwc', 'memory', 'drive')]
    todo = []
    for run, data in ctx.map(run_case, [dict(r, func='events') for r in runs], batch=1, label='events'):
        if not data:
            continue
        sql, lines = data
        run = dict(run, func='fault')
        if run['way'] == 'rwc' and not ctx.thorough:
            continue
        for i, what in enumerate(sql, 1):
            todo.append(dict(run, kind='error', at=i))
            if what.lstrip().startswith(('BEGIN', 'PRAGMA')):
                continue
            steps = [0, 1, 3, 10, 30, 100, 300] if ctx.thorough else [0, 10, 60]
            todo += [dict(run, kind='abort', at=i, arg=k) for k in steps]
            if not what.startswith(('SELECT', 'next', 'fetch')):
                todo.append(dict(run, kind='full', at=i))
        todo += [dict(run, kind='signal', at=i) for i in range(1, len(lines) + 1)]
    ctx.cov['fault_points'] = len(todo)
    ctx.run(run_case, todo, label='faults')
    crashes = []
    stops = [r for r in runs if r['way'] == 'rw']
    for case, n in ctx.map(run_case, [dict(r, func='crash', kind='count') for r in stops], batch=1, label='calls'):
        for at in range(1, (n or 0) + 1):
            crashes += [dict(case, kind='kill', at=at), dict(case, kind='torn', at=at)]
    ctx.cov['crash_points'] = len(crashes)
    ctx.run(run_case, crashes, label='crashes')
    ctx.run(run_case, [dict(r, func='crash', kind='power', depth=1 if ctx.thorough else 0) for r in stops], batch=1,
            label='power loss')
    ctx.cov['states'] = ctx.counts.get('states', 0) + len(todo) + len(crashes) + ctx.counts.get('power_loss_states', 0)
    ctx.counts['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
