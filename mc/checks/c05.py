"""C05: saving a space is atomic and durable."""
import errno
import hashlib
import os
import shutil
import sqlite3
from .. import core, crash, faults, real
from ..real import op, L, S, SET
from ..scenes import AB, RECS, LINKS, PARTS, WEIGHTS, QUANTS

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'power loss: names changed since the last sync of the directory are lost as a suffix of the changes; of '
    'the data written since the last sync of a file all, none, all but one, only one, or a prefix (ending '
    'in a torn write) survive; a rename is atomic; synced data survives',
    'one failing or fatal call per save (a full disk keeps failing); saving without syncing promises '
    'nothing about power loss',
    'calls are observed at the C library boundary; calls on files outside the destination directory '
    '(the source of a bound space in another directory, temporary caches) are not failed',
]

SMALL = AB + RECS + WEIGHTS + PARTS + LINKS + QUANTS
OLD = [op('add_index_columns', 'X'), op('insert_index', [['X'], ['x1']])]
LARGE = AB + PARTS + [op('insert_index', [['A', 'B']] + [[f'a{i % 40}', f'b{i}' * 6] for i in range(3000)])]
SETUPS = {'small': SMALL, 'large': LARGE}
_snaps = {}


def snap(name):
    if name not in _snaps:
        space = real.DataSpace()
        for o in (OLD if name == 'old' else SETUPS[name]):
            err = real.call(space, o)
            if err is not None:
                raise RuntimeError(f'set-up failed: {o!r}: {err!r}')
        path = real.save(space)
        with open(path, 'rb') as f:
            raw = f.read()
        _snaps[name] = real.snapshot(path), raw, real.raw_dump(path, volatile=True)
        os.unlink(path)
    return _snaps[name]


_verdicts = {}


def classify(raw, case):
    """'old', 'new', 'absent' or a description of what is wrong."""
    if raw is None:
        return 'absent'
    if case['dest'] != 'absent' and raw == before_bytes(case):
        return 'old'
    key = hashlib.blake2b(raw, digest_size=16).digest(), case['setup']
    if key not in _verdicts:
        path = core.scratch_path('.toron')
        with open(path, 'wb') as f:
            f.write(raw)
        try:
            con = sqlite3.connect(path)
            try:
                ok = con.execute('PRAGMA integrity_check').fetchall() == [('ok',)]
            finally:
                con.close()
            dump = real.raw_dump(path, volatile=True)
            _verdicts[key] = ('new' if ok and dump == snap(case['setup'])[2] else
                              f'different contents ({len(raw)} bytes)')
        except sqlite3.Error as e:
            _verdicts[key] = f'not a readable file ({len(raw)} bytes: {e})'
        finally:
            for p in (path, path + '-journal'):
                if os.path.exists(p):
                    os.unlink(p)
    return _verdicts[key]


def before_bytes(case):
    if case['dest'] == 'absent':
        return None
    return snap('old')[1] if case['dest'] == 'old' else snap(case['setup'])[1]


def prepare(case):
    """(directory, destination path, space)"""
    d = core.scratch_dir()
    dest = os.path.join(d, 'data.toron')
    old = before_bytes(case)
    if old is not None:
        with open(dest, 'wb') as f:
            f.write(old)
    if case['source'] == 'self':
        space = real.bind_file(dest, mode='rw')
    else:
        space = real.restore(snap(case['setup'])[0], case['source'])
    return d, dest, space


def read(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return None


def source_problem(space, case):
    """Is the saved space still what it was, and usable?"""
    try:
        path = real.save(space)
    except Exception as e:
        return f'the space cannot be saved any more: {e!r}'
    dump = real.raw_dump(path, volatile=True)
    os.unlink(path)
    if dump != snap(case['setup'])[2]:
        return 'the space was modified by saving it'
    return None


def files(d):
    return {name: read(os.path.join(d, name)) for name in sorted(os.listdir(d))}


def run_case(case):
    crash.start()
    res = core.Result()
    d, dest, space = prepare(case)
    try:
        if case['kind'] == 'static':
            static(case, res, d, dest, space)
        elif case['kind'] == 'signal':
            signal_case(case, res, d, dest, space)
        else:
            process_case(case, res, d, dest, space)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        real.forget_bound()
    return res


def describe(case):
    return (f'saving a {case["source"]} space to a path with {case["dest"]} file, '
            f'fsync={case["fsync"]}, {case["kind"]} at call {case.get("at")} '
            f'{errno.errorcode.get(case.get("err"), "")}')


MODES = {'log': crash.LOG, 'kill': crash.KILL, 'torn': crash.TORN, 'fail': crash.FAIL,
         'short': crash.SHORT, 'full': crash.FAILALL}


def process_case(case, res, d, dest, space):
    kind = case['kind']
    log = core.scratch_path('.log')
    initial = files(d)

    def job():
        err = None
        try:
            save(space, dest, case)
        except BaseException as e:  # noqa
            err = f'{type(e).__name__}: {e}'
        crash.mark(1)
        n = crash.disarm()
        names = sorted(os.listdir(d))
        problem, again = None, None
        if kind != 'log':
            verdict = classify(read(dest), case)
            problem = source_problem(space, case)
            if err is not None and not problem:
                try:
                    save(space, dest, case)
                    again = classify(read(dest), case)
                except BaseException as e:  # noqa
                    again = f'{type(e).__name__}: {e}'
        else:
            verdict = classify(read(dest), case)
            problem = source_problem(space, case)
        return {'err': err, 'n': n, 'names': names, 'verdict': verdict, 'problem': problem,
                'again': again}

    status, data = crash.in_child(job, d, MODES[kind], case.get('at', 0), case.get('err', 0), log)
    events = crash.read_log(log) if os.path.exists(log) else []
    if os.path.exists(log):
        os.unlink(log)
    res.count('transitions')
    here = f'{kind}:{core.digest(case)}'
    old_ok = 'absent' if case['dest'] == 'absent' else 'old'
    same = ('new',) if case['source'] == 'self' else ()
    what = describe(case)
    if status == 77:                      # the process was stopped
        got = classify(read(dest), case)
        res.outcome((kind, got))
        if got not in (old_ok, 'new'):
            res.fail(here, f'{what}: process stopped, destination: {got}', case)
        res.count('stopped')
        return
    if status != 0 or data is None or 'crash' in data:
        res.fail(here, f'{what}: unexpected end of the process (status {status}): {data}', case)
        return
    res.data = data['n']
    res.outcome((kind, data['err'], data['verdict']))
    if data['problem']:
        res.fail(here, f'{what}: {data["problem"]} (raised {data["err"]})', case)
        return
    extra = [n for n in data['names'] if n != 'data.toron']
    if extra:
        res.fail(here, f'{what}: raised {data["err"]}, left behind {extra}', case)
        return
    if data['err'] is None:
        res.count('succeeded')
        if data['verdict'] not in ('new',) and not (case['source'] == 'self' and data['verdict'] == 'old'):
            res.fail(here, f'{what}: reported success, destination: {data["verdict"]}', case)
            return
    else:
        res.count('refused')
        renamed = any(e[0] == 'N' and e[2] == os.path.realpath(dest) for e in events)
        if data['verdict'] != old_ok and not (renamed and data['verdict'] == 'new'):
            res.fail(here, f'{what}: raised {data["err"]}, destination: {data["verdict"]}', case)
            return
        if data['again'] not in ('new',) and not (case['source'] == 'self' and data['again'] == 'old'):
            res.fail(here, f'{what}: raised {data["err"]}, then saving again gives: {data["again"]}', case)
            return
        if kind == 'log':
            res.fail(here, f'{what}: saving fails: {data["err"]}', case)
            return
    if not case['fsync']:
        return
    # Power loss at every point of this history.
    fs = crash.FileSystem(d, initial)
    old_ok = {old_ok} if case['source'] != 'self' else {'old', 'new'}

    def look(allowed, moment):
        for names in fs.directories():
            ino = names.get('data.toron')
            raws = [None] if ino is None else fs.contents(ino)
            for raw in raws:
                res.count('power_loss_states')
                got = classify(raw, case)
                if got not in allowed:
                    res.fail(here + moment, f'{what}: power lost {moment}: destination: {got}', case)
                    return False
        return True

    for i, e in enumerate(events):
        if e[0] == 'M':
            if data['err'] is None:
                if not look({'new'} | (old_ok if case['source'] == 'self' else set()),
                            'after saving returned'):
                    return
            break
        fs.step(e)
        if kind == 'log' or i >= len(events) - 3 or e[0] in 'NSU':
            if not look(old_ok | {'new'}, f'after call {i + 1} of {len(events)} ({e[0]} {os.path.basename(e[1])})'):
                return


def signal_case(case, res, d, dest, space):
    old_ok = 'absent' if case['dest'] == 'absent' else 'old'
    err = None
    with faults.interrupt_events(case['at']) as t:
        try:
            save(space, dest, case)
        except KeyboardInterrupt as e:
            err = e
    res.count('transitions')
    got = classify(read(dest), case)
    res.outcome(('signal', got, err is None))
    here = f'signal:{core.digest(case)}'
    if got not in (old_ok, 'new'):
        res.fail(here, f'{describe(case)}: destination: {got}', case)
        return
    problem = source_problem(space, case)
    if problem:
        res.fail(here, f'{describe(case)}: {problem}', case)


def static(case, res, d, dest, space):
    """Destinations of every form, and destinations that must be refused."""
    what = case['what']
    fsync = case['fsync']
    res.count('transitions')
    here = f'static:{what}:{fsync}'
    path, expect = dest, None
    cwd = os.getcwd()
    try:
        if what == 'relative':
            os.chdir(d)
            path = 'data.toron'
        elif what == 'dotted':
            os.mkdir(os.path.join(d, 'sub'))
            path = os.path.join(d, 'sub', '..', 'data.toron')
        elif what == 'bytes':
            path = os.fsencode(dest)
        elif what == 'pathlike':
            import pathlib
            path = pathlib.Path(dest)
        elif what == 'symlink':
            target = os.path.join(d, 'target.toron')
            if os.path.exists(dest):
                os.rename(dest, target)
            os.symlink(target, dest)
        elif what == 'odd':
            path = dest = os.path.join(d, "o'd %20 \u00e9#?.x.toron")
        elif what == 'nodir':
            path, expect = os.path.join(d, 'missing', 'x.toron'), Exception
        elif what == 'isdir':
            path, expect = os.path.join(d, 'folder'), Exception
            os.mkdir(path)
        elif what in ('readonly-file', 'readonly-dir'):
            expect = PermissionError
            os.chmod(d, 0o777)
            if what == 'readonly-file':
                os.chmod(dest, 0o444)
            else:
                os.chmod(dest, 0o666)
                os.chmod(d, 0o555)
        before = sorted(os.listdir(d))

        def save():
            try:
                space.to_file(path, fsync=fsync)
            except BaseException as e:  # noqa
                return f'{type(e).__name__}: {e}'
            return None
        if what.startswith('readonly'):
            def job():
                crash.disarm()
                os.setgid(65534)
                os.setuid(65534)
                return save()
            status, err = crash.in_child(job, d, crash.LOG)
            if status != 0:
                err = f'ended with status {status}: {err}'
        else:
            err = save()
        os.chmod(d, 0o755)
    finally:
        os.chdir(cwd)
    after = sorted(os.listdir(d))
    if expect is None:
        got = classify(read(dest), case)
        if err is not None or got != 'new':
            res.fail(here, f'saving ({what}): raised {err}, destination: {got}', case)
        elif [n for n in after if n not in before and n != os.path.basename(dest)]:
            res.fail(here, f'saving ({what}): left behind {after}', case)
    else:
        got = classify(read(dest), case)
        if err is None:
            res.fail(here, f'saving ({what}) must be refused', case)
        elif expect is PermissionError and not err.startswith('PermissionError'):
            res.fail(here, f'saving ({what}) raised {err}', case)
        elif after != before or (got != 'old' and what.startswith('readonly')):
            res.fail(here, f'saving ({what}) raised {err} but changed the directory: {before} -> {after}, {got}', case)
    problem = source_problem(space, case)
    if problem:
        res.fail(here, f'saving ({what}): {problem}', case)


def save(space, dest, case):
    if case['fsync'] and case['source'] != 'drive':
        space.to_file(dest)  # Syncing is the default.
    else:
        space.to_file(dest, fsync=case['fsync'])


def count_signals(case):
    res = core.Result()
    d, dest, space = prepare(case)
    log = []
    with faults.interrupt_events(log=log):
        save(space, dest, case)
    shutil.rmtree(d, ignore_errors=True)
    real.forget_bound()
    res.data = len(log)
    return res


STATIC = ['plain', 'relative', 'dotted', 'bytes', 'pathlike', 'symlink', 'odd', 'nodir', 'isdir',
          'readonly-file', 'readonly-dir']


def explore(ctx):
    crash.start()
    for s in ('small', 'large', 'old'):
        snap(s)
    configs = [{'setup': s, 'source': src, 'dest': dst, 'fsync': f}
               for s in (['small', 'large'] if ctx.thorough else ['small'])
               for src, dst in (('memory', 'absent'), ('memory', 'old'), ('drive', 'old'), ('drive', 'absent'),
                                ('bound', 'absent'), ('bound', 'old'), ('self', 'self'))
               for f in (True, False)]
    if not ctx.thorough:
        configs.append({'setup': 'large', 'source': 'memory', 'dest': 'old', 'fsync': True})
    cases = []
    for case, n in ctx.map(run_case, [dict(c, kind='log') for c in configs], batch=1, label='logs'):
        base = {k: case[k] for k in ('setup', 'source', 'dest', 'fsync')}
        if n is None:
            continue
        ctx.sample({'config': base, 'calls': n})
        big = case['setup'] == 'large'
        for at in range(1, n + 1):
            if big and not ctx.thorough and at % 5:
                continue
            cases.append(dict(base, kind='kill', at=at))
            cases.append(dict(base, kind='torn', at=at))
            for err in ((errno.EIO, errno.ENOSPC, errno.EACCES) if not big or ctx.thorough else (errno.EIO,)):
                cases.append(dict(base, kind='fail', at=at, err=err))
            cases.append(dict(base, kind='full', at=at, err=errno.ENOSPC))
            cases.append(dict(base, kind='short', at=at, err=errno.ENOSPC))
    for case, n in ctx.map(count_signals, [c for c in configs if c['setup'] == 'small'], batch=1, label='signals'):
        for at in range(1, (n or 0) + 1):
            cases.append(dict(case, kind='signal', at=at))
    ctx.cov['states'] = len(cases) + len(configs)
    ctx.run(run_case, [{'setup': 'small', 'source': src, 'dest': 'old', 'fsync': f, 'kind': 'static', 'what': w}
                       for w in STATIC for f in (True, False) for src in ('memory', 'bound')],
            label='static')
    ctx.run(run_case, cases, label='faults')
    ctx.cov['states'] += ctx.counts.get('power_loss_states', 0)
