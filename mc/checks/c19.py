"""C19: read-only access never changes a file."""
import contextlib
import os
import shutil
import stat
import tempfile
from .. import cli, core, crash, real
from ..real import op, L, S, SET
from . import c04, c06, c18, c20

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: every modifying and reading method in one call (thorough: two) on six spaces, each bound read-only, '
    'loaded into memory, loaded into a drive cache, and (reading calls) bound for writing',
    'besides the bytes and the directory, the calls that create, write, truncate, rename or remove anything in the '
    'directory of the file are watched (LD_PRELOAD)',
    'saving explicitly over the bound file is not a use of read-only access and not covered; neither are files with a '
    'journal left by an interrupted writer, nor databases switched to WAL mode by other tools',
]

SETUPS = ('populated', 'droppable', 'fullmaps', 'columns', 'empty')
KINDS = ('ro', 'memory', 'drive', 'rw')


def blob(setup):
    return c04.snap(setup) if setup in c04.SETUPS else c18.blob(setup)


def writes(setup):
    return c20.WRITES.get(setup, []) + (c06.REFUSED if setup in ('populated', 'droppable') else [])


def consume(reader, how):
    try:
        if how == 'some':
            return [next(reader)]
        if how == 'pandas':
            return reader.to_pandas().shape
        if how == 'twice':
            return len(list(reader)), len(list(reader))
        return sorted(reader, key=repr)
    finally:
        if how != 'some':
            reader.close()


def saving(space, d, name, **kwds):
    space.to_file(os.path.join(d, 'elsewhere', name), **kwds)


def open_other(space, d):
    a, b = real.bind_file(os.path.join(d, 'data.toron'), mode='ro'), real.read_file(os.path.join(d, 'data.toron'))
    return a.index_columns, b.index_columns


READS = {k: (lambda sp, d, f=f: f(sp)) for k, f in c20.READS.items()}
READS.update({
    'picture': lambda sp, d: c06.picture(sp),
    'save': lambda sp, d: saving(sp, d, 'a.toron'),
    'save without sync': lambda sp, d: saving(sp, d, 'a.toron', fsync=False),
    'save where it cannot': lambda sp, d: c06.answer(lambda: saving(sp, d, 'no/such/directory')),
    'part of the rows': lambda sp, d: consume(sp(), 'some'),
    'part of the rows, drive': lambda sp, d: consume(sp(cache_to_drive=True), 'some'),
    'rows twice': lambda sp, d: consume(sp(), 'twice'),
    'frame': lambda sp, d: consume(sp(), 'pandas'),
    'translated in': lambda sp, d: c06.answer(lambda: c06.rows_of(c06.feed()() >> sp)),
    'translated out': lambda sp, d: c06.answer(lambda: c06.rows_of(sp() >> c06.third(sp.unique_id, None))),
    'part of the index': lambda sp, d: next(iter(sp.select_index()), None),
    'part of the quantities': lambda sp, d: next(iter(sp.select_quantities()), None),
    'suspended': lambda sp, d: [sp.select_index(), next(sp.select_mappings(real.source('S1'), 'm1')) if sp.links else 0],
    'max id': lambda sp, d: sp.max_index_id,
    'open again': open_other,
    'bad selector': lambda sp, d: c06.answer(lambda: sp('[cat')),
    'bad criteria': lambda sp, d: c06.answer(lambda: list(sp.select_index(nope='x'))),
    'unknown group': lambda sp, d: c06.answer(lambda: sp.select_weights('nope').data),
    'index of many': lambda sp, d: [sorted(sp.select_index(**{c: v})) for c in sp.index_columns for v in ('a1', '-')],
})


def read_bytes(path):
    with open(path, 'rb') as f:
        return f.read()


def place(blob_):
    d = core.scratch_dir()
    path = os.path.join(d, 'data.toron')
    os.rename(real.restore_file(blob_), path)
    os.mkdir(os.path.join(d, 'elsewhere'))
    return d, path


def open_kind(path, kind):
    if kind in ('ro', 'rw'):
        return real.bind_file(path, mode=kind)
    return real.read_file(path, cache_to_drive=kind == 'drive')


def act_on(space, act, d):
    """(error text or None)"""
    if isinstance(act, str):
        try:
            READS[act](space, d)
        except Exception as err:
            return c06.outcome(err)
        return None
    return c06.outcome(real.call(space, act))


_CHANGES = {}


def changes(setup, acts):
    """Which of the acts, one after the other, change a writable space."""
    key = core.digest((setup, acts))
    if key not in _CHANGES:
        path = real.restore_file(blob(setup))
        sp = real.bind_file(path, mode='rw')
        before = real.raw_dump(path, volatile=True)
        out = False
        for a in acts:
            act_on(sp, a, None) if not isinstance(a, str) else None
        out = real.raw_dump(path, volatile=True) != before
        os.unlink(path)
        _CHANGES[key] = out
    return _CHANGES[key]


_USUAL = {}


def usual(setup, act):
    """What the reading call gives (an error or None) where everything is allowed."""
    if (setup, act) not in _USUAL:
        d, path = place(blob(setup))
        _USUAL[setup, act] = act_on(real.read_file(path), act, d)
        shutil.rmtree(d)
    return _USUAL[setup, act]


_PICTURES = {}


def picture_of(setup):
    if setup not in _PICTURES:
        path = real.restore_file(blob(setup))
        _PICTURES[setup] = c06.picture(real.read_file(path))
        os.unlink(path)
    return _PICTURES[setup]


class Watch:
    """The file, its directory, and every call that touches the directory."""

    def __init__(self, d, path):
        self.d, self.path = d, path
        self.raw = read_bytes(path)
        self.mode = os.stat(path).st_mode

    def __enter__(self):
        self.log = core.scratch_path('.log')
        self.fd = os.open(self.log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        crash.arm(self.d, crash.LOG, 0, 0, self.fd)
        return self

    def __exit__(self, *exc):
        crash.disarm()
        os.close(self.fd)
        self.events = crash.read_log(self.log)
        os.unlink(self.log)

    def problems(self):
        out = []
        if not os.path.exists(self.path):
            return ['the file is gone']
        if read_bytes(self.path) != self.raw:
            out.append('the file was changed')
        if os.stat(self.path).st_mode != self.mode:
            out.append('the permissions of the file were changed')
        there = sorted(os.listdir(self.d))
        if there != ['data.toron', 'elsewhere']:
            out.append(f'other files beside it: {there}')
        inside = os.path.join(os.path.realpath(self.d), 'elsewhere') + os.sep
        touched = [(t, os.path.basename(p1), os.path.basename(p2)) for t, p1, p2, off, data in self.events
                   if t in 'CWTNLU' and not p1.startswith(inside)]
        if touched:
            out.append(f'calls that modify the directory or the file: {touched[:6]}')
        return out


def case_acts(case):
    crash.start()
    res = core.Result()
    setup, kind, acts = case['setup'], case['kind'], case['acts']
    d, path = place(blob(setup))
    want = picture_of(setup)
    watch = Watch(d, path)
    what = f'{setup}, {"bound " if kind in ("ro", "rw") else "loaded into "}{kind}: ' \
        + ' ; '.join(c20.describe(a) for a in acts)
    name = f'{kind}:{setup}:{core.digest(acts)}'
    with watch:
        sp = open_kind(path, kind)
        outs = [act_on(sp, a, d) for a in acts]
        res.count('transitions', len(acts))
    res.count('states')
    bad = watch.problems()
    if kind == 'ro':
        for a, out in zip(acts, outs):
            if out is None and not isinstance(a, str) and changes(setup, [a]):
                bad.append('a modifying call reported success on a read-only space')
        # It still works.
        if case.get('look', True):
            diff = c06.differences(c06.picture(sp), want)
            if diff:
                bad.append('the space answers differently afterwards: ' + '; '.join(diff))
            with watch:
                del sp
            bad += watch.problems()
    elif kind in ('memory', 'drive') and not isinstance(acts[0], str):
        if outs[0] is None and changes(setup, [acts[0]]) and case.get('look', True):
            if c06.full_dump(sp) == want['dump']:
                bad.append('the change did not reach the loaded space either')
    if bad:
        res.fail(name, f'{what}: ' + '; '.join(bad)[:3000] + f'\n  (calls gave {outs})', case)
    res.outcome((kind, outs[0] and outs[0].split(':')[0]))
    shutil.rmtree(d)
    return res


# --------------------------------------------------------------------------
# Permissions (as a user that owns nothing)
# --------------------------------------------------------------------------
NOBODY = 65534


def case_rights(case):
    """All calls as an unprivileged user on a file with the given permissions."""
    crash.start()
    res = core.Result()
    setup, kind = case['setup'], case['kind']
    os.chmod(core.SCRATCH, 0o711)
    if os.getuid() != 0:
        return res
    acts = case['acts']

    def job(d, path):
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
        tempfile.tempdir = os.path.join(d, 'tmp')
        out = []
        try:
            sp = open_kind(path, kind)
        except Exception as err:
            return {'open': c06.outcome(err)}
        for a in acts:
            out.append(act_on(sp, a, d))
        return {'open': None, 'outs': out}
    d0 = core.scratch_dir()
    d = os.path.join(d0, 'there')
    os.mkdir(d)
    path = os.path.join(d, 'data.toron')
    os.rename(real.restore_file(blob(setup)), path)
    for sub in ('tmp', 'elsewhere'):
        os.mkdir(os.path.join(d, sub))
        os.chmod(os.path.join(d, sub), 0o777)
    os.chmod(d0, 0o711)
    os.chmod(path, case['file'])
    os.chmod(d, case['dir'])
    raw = read_bytes(path)
    changes_ = [not isinstance(a, str) and changes(setup, [a]) for a in acts]
    status, data = crash.in_child(lambda: job(d, path), os.path.join(d0, 'nothing'), crash.LOG)
    os.chmod(d, 0o777)
    name = f'rights:{core.digest(case)}'
    what = f'{setup}, unprivileged user, file {oct(case["file"])}, directory {oct(case["dir"])}, {kind}'
    res.count('transitions', len(acts))
    res.count('states')
    if status != 0 or data is None or 'crash' in data:
        res.fail(name, f'{what}: unexpected end (status {status}): {data}', case)
        shutil.rmtree(d0, ignore_errors=True)
        return res
    readable = case['file'] & 0o004 and case['dir'] & 0o001
    writable = case['file'] & 0o002
    if data['open'] is None and not readable:
        res.fail(name, f'{what}: opened although it may not be read', case)
    if data['open'] is not None and readable and kind in ('ro', 'memory', 'drive'):
        res.fail(name, f'{what}: cannot be opened: {data["open"]}', case)
    if kind != 'rw' or not writable or not case['dir'] & 0o002:
        # (A writable file in a directory that is not: what SQLite does about its journal is its affair.)
        if read_bytes(path) != raw and not (kind == 'rw' and writable):
            res.fail(name, f'{what}: the file was changed', case)
        there = sorted(os.listdir(d))
        if there != ['data.toron', 'elsewhere', 'tmp']:
            res.fail(name, f'{what}: other files beside it: {there}', case)
        for a, changing, out in zip(acts, changes_, data.get('outs') or ()):
            if kind in ('ro', 'rw') and changing and out is None and not (kind == 'rw' and writable):
                res.fail(name, f'{what}: {c20.describe(a)} reported success', case)
            if isinstance(a, str) and kind != 'rw' and out != usual(setup, a):
                res.fail(name, f'{what}: {c20.describe(a)} gave {out}, usually {usual(setup, a)}', case)
    left = os.listdir(os.path.join(d, 'tmp'))
    res.outcome((kind, case['file'], case['dir'], data['open'] and data['open'][:40], bool(left)))
    shutil.rmtree(d0, ignore_errors=True)
    return res


# --------------------------------------------------------------------------
# Command line
# --------------------------------------------------------------------------
COMMANDS = [
    ['{f}', 'info'], ['{f}'], ['{f}', 'index'], ['{f}', 'quantity'], ['{f}', 'mapping', '{g}', 'm1'],
    ['{f}', 'mapping', '{g}', 'm1', '--left'], ['{f}', 'mapping', '{g}', 'm1', '--right'],
    ['{g}', 'mapping', '{f}', 'm1'], ['{f}', 'mapping', '{g}', 'nolink'], ['{f}', 'mapping', '{f}', 'm1'],
    ['{n}', 'info'], ['{n}', 'index'], ['{n}', 'quantity'], ['{f}', 'mapping', '{n}', 'm1'], ['{n}', 'mapping', '{f}', 'm1'],
    ['-h'], ['{f}', '-h'], ['{f}', 'index', '-h'], ['{f}', 'mapping', '-h'], ['{f}', 'nonsense'], ['{f}', 'index', '--nonsense'],
    ['{f}', 'info', 'extra'], ['--version'], ['{f}', '--version'], [], ['{f}', 'index', '--no-backup'],
    ['{f}', 'index', '--on-label-conflict', 'replace'], ['{f}', 'quantity', '--on-existing', 'sum'],
    ['{f}', 'quantity', '--column', 'v'], ['{f}', 'add'], ['{f}', 'add', 'label'], ['{f}', 'update'], ['{f}', 'remove', 'link'],
    ['{n}', 'add', 'label', 'X'], ['{n}', 'rename', 'label', 'A', 'X'], ['{n}', 'update', 'label', 'A', '--move-left'],
]


def quietly(func):
    with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        return func()


def make_other(path):
    real.source('S1').to_file(path, fsync=False)


def case_command(case):
    crash.start()
    res = core.Result()
    d, path = place(blob(case['setup']))
    # The other file, with a link in both directions.
    other = os.path.join(d, 'elsewhere', 'other.toron')
    make_other(other)
    raw_other = read_bytes(other)
    sub = {'f': path, 'g': other, 'n': os.path.join(d, 'none.toron')}
    argv = [a.format(**sub) for a in case['argv']]
    watch = Watch(d, path)
    for stdin in (None, ''):
        if stdin == '' and len(argv) > 1 and argv[1] in ('index', 'quantity', 'mapping'):
            continue        # an import
        with watch:
            status, out, err = quietly(lambda: cli.run(argv, stdin))
        bad = watch.problems()
        if read_bytes(other) != raw_other or sorted(os.listdir(os.path.join(d, 'elsewhere'))) != ['other.toron']:
            bad.append('the other file was changed')
        res.count('transitions')
        res.count('states')
        res.outcome((tuple(case['argv'][:2]), status))
        if bad:
            res.fail(f'command:{core.digest(case)}', f'toron {" ".join(case["argv"])} on {case["setup"]} (status {status}, '
                     f'{err!r}): ' + '; '.join(bad), case)
    shutil.rmtree(d)
    return res


# --------------------------------------------------------------------------
# Things that are not Toron files
# --------------------------------------------------------------------------
ODD_FILES = ['missing', 'empty', 'text', 'truncated', 'directory', 'other database', 'no directory', 'header only']


def case_odd(case):
    crash.start()
    res = core.Result()
    for kind in KINDS:
        d, path = place(blob('populated'))
        what = case['file']
        raw = read_bytes(path)
        if what == 'missing':
            os.unlink(path)
        elif what == 'no directory':
            path = os.path.join(d, 'no', 'file')
        elif what == 'directory':
            os.unlink(path)
            os.mkdir(path)
        elif what == 'other database':
            import sqlite3
            os.unlink(path)
            con = sqlite3.connect(path)
            con.execute('CREATE TABLE t(x)')
            con.commit()
            con.close()
        else:
            with open(path, 'wb') as f:
                f.write({'empty': b'', 'text': b'just text\n' * 100, 'truncated': raw[:5000],
                         'header only': raw[:100]}[what])
        before = {n: (read_bytes(os.path.join(d, n)) if os.path.isfile(os.path.join(d, n)) else None)
                  for n in os.listdir(d)}
        try:
            open_kind(path, kind)
            got = None
        except Exception as err:
            got = c06.outcome(err)
        after = {n: (read_bytes(os.path.join(d, n)) if os.path.isfile(os.path.join(d, n)) else None)
                 for n in os.listdir(d)}
        res.count('transitions')
        res.count('states')
        res.outcome((what, kind, got and got[:30]))
        if after != before:
            res.fail(f'odd:{what}:{kind}', f'opening ({kind}) something that is no Toron file ({what}) changed it or left '
                     f'files: {sorted(before)} -> {sorted(after)} ({got})', dict(case))
        if got is None and what != 'truncated':
            res.fail(f'odd:{what}:{kind}', f'opening ({kind}) something that is no Toron file ({what}) succeeded', dict(case))
        shutil.rmtree(d, ignore_errors=True)
    return res


FUNCS = {'acts': case_acts, 'rights': case_rights, 'command': case_command, 'odd': case_odd}


def run_case(case):
    return FUNCS[case['func']](case)


def explore(ctx):
    crash.start()
    for s in SETUPS:
        blob(s)
    cases = []
    for s in SETUPS + ('odd', 'nine', 'holes'):
        for kind in KINDS:
            cases += [{'func': 'acts', 'setup': s, 'kind': kind, 'acts': [r]} for r in READS]
            if kind != 'rw':
                cases += [{'func': 'acts', 'setup': s, 'kind': kind, 'acts': [o]} for o in writes(s)]
    for s in SETUPS if ctx.thorough else ('populated',):
        first = writes(s) + list(READS) if ctx.thorough else c06.PROBES
        second = (c06.PROBES if s == 'populated' else writes(s)) + ['disaggregated', 'save', 'part of the rows, drive']
        for kind in ('ro', 'memory', 'drive') if ctx.thorough else ('ro',):
            cases += [{'func': 'acts', 'setup': s, 'kind': kind, 'acts': [a, b], 'look': False} for a in first for b in second]
    ctx.sample(cases[0])
    ctx.run(run_case, cases, label='calls')
    rights = []
    for s in ('populated', 'fullmaps') if ctx.thorough else ('populated',):
        for file in (0o444, 0o644, 0o666, 0o600, 0o400):
            for dir_ in (0o555, 0o755, 0o777, 0o711):
                for kind in KINDS:
                    acts = writes(s) + ['disaggregated', 'quantities', 'save', 'mappings', 'repr', 'part of the rows, drive']
                    # Each call on its own where it could matter, all together elsewhere.
                    if ctx.thorough:
                        rights += [{'func': 'rights', 'setup': s, 'kind': kind, 'file': file, 'dir': dir_, 'acts': [a]}
                                   for a in acts]
                    if kind in ('memory', 'drive'):
                        acts = acts[-6:]
                    rights.append({'func': 'rights', 'setup': s, 'kind': kind, 'file': file, 'dir': dir_, 'acts': acts})
    ctx.run(run_case, rights, batch=4, label='permissions')
    ctx.run(run_case, [{'func': 'command', 'setup': s, 'argv': a} for s in SETUPS + ('odd', 'holes') for a in COMMANDS],
            batch=4, label='commands')
    ctx.run(run_case, [{'func': 'odd', 'file': f} for f in ODD_FILES], batch=1, label='other files')
    ctx.counts['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
