"""C20: concurrent users of one bound file are serialised."""
import os
import sqlite3
from .. import core, oldformat, real, sched
from ..real import op, L, S, SET
from . import c04, c06

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'two clients, each with one call of the API, on one file; the second client starts at any storage call of the '
    'first and each may be interrupted a bounded number of times (quick: one preemption, thorough: two, at the calls '
    'where the held lock can change, plus one preemption at every storage call)',
    'clients are threads with connections of their own, scheduled at the calls that reach SQLite; a locked database '
    'makes a call fail at once (time ran out), wait for the other client to finish, or try again after each of its steps',
    'the locking of SQLite itself is taken as it behaves on this machine (rollback journal, local file system)',
]

WRITES = {s: [o for x, o in c04.OPS if x == s] for s in ('populated', 'droppable', 'fullmaps', 'columns', 'empty')}
H, F_, A_, M1, M2 = c04.H, c04.F_, c04.A_, c04.M1, c04.M2
WRITES['populated'] = WRITES['populated'] + [
    # Pairs that collide: the same names, the same records.
    op('insert_index', [H, ['a2', 'b2'], ['a4', 'b4']]),
    op('delete_index', [['index_id', 'A', 'B'], [1, 'a1', 'b1'], [2, 'a1', 'b2']]),
    op('add_link', S('S1'), 'm3', is_default=True, selectors=['[cat="z"]']),
    op('set_registered_attributes', ['sex', 'cat', 'zip']),
    op('add_partition_definitions', SET('B'), SET('A')),
    op('insert_weights', 'w2', [H + ['w2'], ['a1', 'b1', 5.0], ['a1', 'b2', 7.0]], on_conflict='replace'),
    op('edit_weight_group', 'w1', name='w2b', selectors=['[sex]']),
]
WRITES['empty'] = WRITES['empty'] + [
    op('add_index_columns', 'B', 'C'), op('insert_index', [['A'], ['a1']]),
    op('add_weight_group', 'w1', 'other', make_default=True), op('add_link', S('S1'), 'm1')]
WRITES['columns'] = WRITES['columns'] + [
    op('insert_index', [H, ['a1', 'b1'], ['a9', 'b9']]), op('add_weight_group', 'w1'),
    op('add_index_columns', 'C'), op('set_registered_attributes', ['cat']),
    op('rename_index_columns', {'A': 'D'})]
WRITES['droppable'] = WRITES['droppable'] + [
    op('rename_index_columns', {'B': 'D'}), op('delete_index', A='a1'), op('add_index_columns', 'C'),
    op('insert_mappings2', S('S1'), 'm1', [M1, [3, 1, F_, 1.0], [2, 1, A_, 3.0]]),
    op('insert_index', [H, ['a1', 'b2'], ['a3', 'b1']])]
WRITES['fullmaps'] = WRITES['fullmaps'] + [
    op('insert_index', [H, ['a2', 'b2']]), op('drop_link', S('S1'), 'm1'), op('drop_weight_group', 'w1'),
    op('insert_quantities2', value_column='v', on_existing='sum', data=[
        H + ['cat', 'sex', 'v'], ['a1', 'b1', 'x', 'm', 1.5], ['a1', '', 'y', '', 2.0]])]

# The operations every other one is paired with in the quick check.
CORE = {'populated': ['set_domain', 'add_index_columns', 'rename_index_columns', 'insert_index', 'update_index',
                      'delete_index', 'drop_weight_group', 'insert_weights', 'add_link', 'edit_link', 'drop_link',
                      'insert_mappings2', 'insert_quantities2', 'set_registered_attributes']}


# ... and every other pair that touches the same kind of data.
FAMILIES = [
    {'add_weight_group', 'edit_weight_group', 'drop_weight_group', 'default', 'insert_weights', 'update_weights',
     'delete_weights'},
    {'add_link', 'edit_link', 'drop_link', 'insert_mappings', 'insert_mappings2', 'update_mappings', 'delete_mappings',
     'reify_mappings'},
    {'change_label_order', 'rename_label_column', 'rename_index_columns', 'legacy_rename', 'add_index_columns'},
    {'set_registered_attributes', 'change_attribute_order', 'insert_quantities', 'insert_quantities2',
     'delete_quantities_without_index', 'delete_unmatched_quantities', 'set_domain'},
    {'add_partition_definition', 'add_partition_definitions', 'drop_partition_definitions', 'add_index_columns'},
]


def related(a, b):
    return any(a in f and b in f for f in FAMILIES)


def rows_of(reader):
    try:
        return list(reader.columns), sorted(reader, key=repr)
    finally:
        reader.close()


READS = {
    'domain': lambda sp: sp.domain,
    'index': lambda sp: list(sp.select_index(header=True)),
    'index of a1': lambda sp: list(sp.select_index(A='a1')),
    'weights': lambda sp: sorted(((r[0].id, r[0].labels, sorted(r[1].items()), r[2])
                                  for r in sp.select_weights('w1').data), key=repr),
    'mappings': lambda sp: sorted(sp.select_mappings(real.source('S1'), 'm1', header=True), key=repr),
    'quantities': lambda sp: sorted(sp.select_quantities2(), key=repr),
    'old quantities': lambda sp: sorted(sp.select_quantities(), key=repr),
    'unmatched': lambda sp: sorted(sp.select_unmatched_quantities(), key=repr),
    'without index': lambda sp: sorted(sp.select_quantities_without_index(), key=repr),
    'disaggregated': lambda sp: rows_of(sp()),
    'quantized': lambda sp: rows_of(sp(quantize=True)),
    'selected': lambda sp: rows_of(sp('[cat="x"]', sum_by_attrs='cat')),
    'groups': lambda sp: sp.weight_groups,
    'links': lambda sp: sp.links,
    'names': lambda sp: (sp.index_columns,),
    'attributes': lambda sp: sp.get_registered_attributes(),
    'partitions': lambda sp: sorted(map(sorted, sp.partition_definitions)),
    'repr': lambda sp: repr(sp).split('\n')[1:],
    'copy': lambda sp: c06.full_dump(sp),
}

# Reading the file itself.
FILE_READS = {
    'file': lambda path: c06.full_dump(real.read_file(path)),
    'cached file': lambda path: c06.full_dump(real.read_file(path, cache_to_drive=True)),
    'other user': lambda path: c06.full_dump(real.bind_file(path, mode='ro')),
}

# Answers made by one query; the others are composed of several.
SINGLE = {'domain', 'groups', 'links', 'names', 'attributes', 'partitions', 'copy', *FILE_READS}

_BLOBS = {}


def blob(setup):
    if setup not in _BLOBS:
        if setup in ('old 0.2.0', 'old 0.3.0'):
            base = real.restore_file(c04.snap('populated'))
            path = oldformat.downgrade(base, setup[4:])
            os.unlink(base)
            _BLOBS[setup] = real.snapshot(path)
            os.unlink(path)
        else:
            _BLOBS[setup] = c04.snap(setup)
    return _BLOBS[setup]


def prepare(space, act, path):
    """The call as a function of nothing; set-up that is not part of it is done now."""
    if act in FILE_READS if isinstance(act, str) else False:
        return lambda: ('value', FILE_READS[act](path))
    if isinstance(act, str):
        return lambda: ('value', READS[act](space))
    name, args, kwds = act
    if name == 'default':
        group = space.get_weight_group(args[0])
        if group is not None:
            return lambda: space.set_default_weight_group(group)

    def job():
        err = real.call(space, act)
        if err is not None:
            raise err
    return job


def attempt(job):
    """('ok', value) or ('error', class, is it a lock)"""
    try:
        value = job()
    except Exception as err:
        locked = 'database is locked' in str(err)
        return ('error', type(err).__name__, str(err)[:200], locked)
    return ('ok', value[1] if isinstance(value, tuple) and value[0] == 'value' else None)


def clients(r, acts):
    funcs = []
    for job, act in zip(r.jobs, acts):
        def func(job=job):
            return attempt(job)
        # What is done with the file before the first call that reaches SQLite counts too.
        func.pause_first = isinstance(act, str) and act in FILE_READS
        funcs.append(func)
    return funcs


def contents(path):
    return real.raw_dump(path, volatile=True)


class Run:
    """Two clients on a fresh copy of the file."""

    def __init__(self, setup, acts):
        self.path = real.restore_file(blob(setup))
        self.spaces = [real.bind_file(self.path, mode='rw') for _ in acts]
        self.jobs = [prepare(sp, a, self.path) for sp, a in zip(self.spaces, acts)]

    def finish(self):
        try:
            return contents(self.path)
        finally:
            for p in (self.path, self.path + '-journal'):
                if os.path.exists(p):
                    os.unlink(p)


_SERIAL = {}


def serial(setup, acts, order):
    """(outcomes in order, contents) of running acts one after the other."""
    key = core.digest((setup, acts, order))
    if key not in _SERIAL:
        if len(_SERIAL) > 20000:
            _SERIAL.clear()
        r = Run(setup, acts)
        outs = {i: attempt(r.jobs[i]) for i in order}
        _SERIAL[key] = outs, r.finish()
    return _SERIAL[key]


def describe(act):
    return f'read {act}' if isinstance(act, str) else c06.show([act])


def interesting(log):
    """Points before which the lock held may differ from the one before."""
    out = [0]
    last, since = None, 99
    for i, (what, state) in enumerate(log):
        word = what.lstrip()[:11].upper()
        setup = word.startswith(('CREATE TEMP', 'PRAGMA'))
        since += 1
        if state != last:
            out += [i, i + 1]
            if state and state[0]:
                since = 0
        elif since <= 3:
            out.append(i + 1)
        elif state and not state[0] and not setup and word not in ('CLOSE', 'NEXT'):
            out.append(i)
        last = state
    return sorted({i for i in out if i < len(log)})


def straddles(order, reader):
    """Did the other client commit between the reader's first and last point?"""
    mine = [i for i, (who, state) in enumerate(order) if who == reader]
    if not mine:
        return False
    state = None
    for i, (who, now) in enumerate(order[:mine[-1]]):
        if who != reader:
            if i > mine[0] and now != state and not (now and now[0]):
                return True
            state = now
    return False


def one_run(res, case, plan, policy):
    setup, acts = case['setup'], case['acts']
    r = Run(setup, acts)
    s = sched.run(clients(r, acts), plan, policy, bool(case.get('spill')))
    outs = [c.result for c in s.clients]
    res.count('transitions')
    res.count('states')
    mini = {**case, 'plans': [[plan, policy]]}
    what = f'{describe(acts[0])} and {describe(acts[1])} [{setup}], schedule {plan}, {policy}{", spilling" if case.get("spill") else ""}'
    name = f'pair:{setup}:{core.digest([acts, plan, policy])}'
    for c, out in zip(s.clients, outs):
        if not isinstance(out, tuple):
            res.fail(name, f'{what}: unexpected end {out!r}', mini)
            r.finish()
            return s
    got = r.finish()
    worked = [i for i in (0, 1) if outs[i][0] == 'ok']
    mixed = [i for i in (0, 1) if isinstance(acts[i], str) and acts[i] not in SINGLE and straddles(s.order, i)]
    if mixed:
        res.count('composite_reads_across_a_commit')
    orders = {0: [()], 1: [tuple(worked)], 2: [(0, 1), (1, 0)]}[len(worked)]
    matched = False
    wants = []
    for order in orders:
        w_outs, want = serial(setup, acts, order)
        if all(w_outs[i][0] == 'ok' for i in order):
            wants.append((order, w_outs, want))
            # Each answer must be one the serial order gives.
            if want == got and all(w_outs[i][1] == outs[i][1] for i in order if i not in mixed):
                matched = True
                res.outcome((acts[0] if isinstance(acts[0], str) else acts[0][0], [o[0] for o in outs], order))
                break
    if not matched:
        text = f'{what}: outcomes {[o[:3] for o in outs]}; no serial order of the successful calls gives this'
        for order, w_outs, want in wants:
            text += f'\n  order {order}: ' + '; '.join(
                [f'{k}: got {got[k]!r}, serial {want[k]!r}'[:700] for k in want if got[k] != want[k]]
                + [f'answer {i}: got {outs[i][1]!r}, serial {w_outs[i][1]!r}'[:900] for i in order
                   if w_outs[i][1] != outs[i][1]])
        if not wants:
            text += '\n  (every order makes one of them fail)'
        res.fail(name, text, mini)
        return s
    # An error that is not about a lock has a reason in some serial order.
    for i in (0, 1):
        if outs[i][0] == 'error' and not outs[i][3] and i not in mixed:
            res.count('refused')
            other = 1 - i
            reasons = [serial(setup, acts, o)[0][i] for o in ((i,), (other, i))]
            if not any(w[:2] == outs[i][:2] for w in reasons):
                res.count('unserial_errors')
                if case.get('strict', True):
                    res.fail(name, f'{what}: client {i} failed with {outs[i][1]}: {outs[i][2]}; alone or after the other '
                                   f'call it gives {[w[:3] for w in reasons]}', mini)
    for i in (0, 1):
        if outs[i][0] == 'error' and outs[i][3]:
            res.count('locked')
    return s


def case_pair(case):
    res = core.Result()
    setup, acts = case['setup'], case['acts']
    if case.get('plans'):
        for plan, policy in case['plans']:
            one_run(res, case, plan, policy)
        return res
    # The points of the first client (and of the second) when alone.
    logs = []
    for first in (0, 1):
        r = Run(setup, acts)
        s = sched.run(clients(r, acts), [(first, None), (1 - first, None)], spill=bool(case.get('spill')))
        logs.append(s.clients[first].log)
        r.finish()
    for first in (0, 1):
        if case.get('quick') and isinstance(acts[first], str) and acts[first] not in SINGLE:
            continue    # the answer may combine two states
        a = range(len(logs[first])) if case.get('every') else interesting(logs[first])
        b = interesting(logs[1 - first])
        plans = [[(first, i)] + [(1 - first, None)] for i in a]
        if case.get('depth', 1) > 1:
            plans = [[(first, i), (1 - first, j), (first, None)] for i in a for j in b if i and j]
        if case.get('depth', 1) > 2:
            plans = [p[:2] + [(first, k), (1 - first, None)] for p in plans for k in (1, 2, 4, 8, 16)]
        for plan in plans:
            s = one_run(res, case, plan, 'late')
            if any(c.locked or getattr(c, 'waited', False) for c in s.clients):
                one_run(res, case, plan, 'fail')
                if not case.get('quick'):
                    one_run(res, case, plan, 'early')
            if len(res.violations) > 5:
                return res
    return res


def case_open(case):
    """Two clients open the same old file, or create the same new one."""
    res = core.Result()
    old = case['old']
    name = f'open:{old}:{core.digest(case)}'

    def fresh():
        path = real.restore_file(blob(f'old {old}'))
        return path

    def opener(path, mode):
        def job():
            sp = real.bind_file(path, mode=mode) if mode in ('rw', 'rwc') else real.read_file(path)
            return ('value', None)
        return job
    path = fresh()
    real.bind_file(path, mode='rw')
    want = oldformat.dump(path)
    os.unlink(path)

    def run(plan, policy):
        path = fresh()
        s = sched.run([lambda m=m: attempt(opener(path, m)) for m in case['modes']], plan, policy)
        outs = [c.result for c in s.clients]
        res.count('transitions')
        res.count('states')
        text = f'two clients opening one {old} file {case["modes"]}, schedule {plan}, {policy}: {[o[:3] for o in outs]}'
        got = oldformat.dump(path)
        modifies = [i for i in (0, 1) if case['modes'][i] != 'read' and outs[i][0] == 'ok']
        if modifies and got != want:
            res.fail(name, text + '; the file is not the upgraded file', {**case, 'plans': [[plan, policy]]})
        try:
            real.bind_file(path, mode='rw')
            if oldformat.dump(path) != want:
                res.fail(name, text + '; opening it afterwards does not give the upgraded file',
                         {**case, 'plans': [[plan, policy]]})
        except Exception as err:
            res.fail(name, text + f'; it cannot be opened afterwards: {err!r}', {**case, 'plans': [[plan, policy]]})
        for p in (path, path + '-journal'):
            if os.path.exists(p):
                os.unlink(p)
        res.outcome(([o[0] for o in outs],))
        return s
    if case.get('plans'):
        for plan, policy in case['plans']:
            run(plan, policy)
        return res
    if 'points' in case:
        n = case['points']
    else:
        n = res.data = [len(run([(k, None)], 'late').clients[k].log) for k in (0, 1)]
        return res
    first, i = case['first'], case['at']
    plans = [[(first, i), (1 - first, None)]]
    plans += [[(first, i), (1 - first, j), (first, None)] for j in range(1 + i % case['step'], n[1 - first], case['step'])]
    for plan in plans:
        for policy in ('late', 'fail', 'early'):
            s = run(plan, policy)
            if not any(c.waited for c in s.clients):
                break
            if len(res.violations) > 5:
                return res
    return res


FUNCS = {'pair': case_pair, 'open': case_open}


def run_case(case):
    return FUNCS[case['func']](case)


def explore(ctx):
    for s in list(WRITES) + ['old 0.2.0', 'old 0.3.0']:
        blob(s)
    cases = []
    for s, ops in WRITES.items():
        for i, a in enumerate(ops):
            for b in ops[i:]:
                wanted = s not in CORE or a[0] in CORE[s] and b[0] in CORE[s] or related(a[0], b[0])
                if ctx.thorough or wanted:
                    cases.append({'func': 'pair', 'setup': s, 'acts': [a, b]})
            if s in ('populated', 'fullmaps', 'droppable'):
                for r in READS:
                    if ctx.thorough or s == 'populated' and a[0] in CORE[s]:
                        cases.append({'func': 'pair', 'setup': s, 'acts': [r, a]})
            if s in ('populated', 'fullmaps', 'droppable', 'columns'):
                for r in FILE_READS:
                    if ctx.thorough or s not in CORE or a[0] in CORE[s]:
                        cases.append({'func': 'pair', 'setup': s, 'acts': [r, a]})
                for r in list(FILE_READS) + ['copy']:
                    if ctx.thorough or s not in CORE or a[0] in CORE[s]:
                        cases.append({'func': 'pair', 'setup': s, 'acts': [r, a], 'spill': True})
    if not ctx.thorough:
        cases = [dict(c, quick=True) for c in cases]
    ctx.sample(cases[0])
    ctx.cov['pairs'] = len(cases)
    ctx.run(run_case, cases, batch=4, label='pairs')
    opens = []
    for case, n in ctx.map(run_case, [{'func': 'open', 'old': v, 'modes': m, 'step': 1 if ctx.thorough else 9}
                                      for v in ('0.2.0', '0.3.0') for m in (['rw', 'rw'], ['rw', 'read'], ['read', 'rw'])],
                           batch=1, label='opening'):
        opens += [dict(case, points=n, first=k, at=i) for k in (0, 1) for i in range(n[k] + 1)] if n else []
    ctx.cov['openings'] = len(opens)
    ctx.run(run_case, opens, batch=4, label='opening together')
    if ctx.thorough:
        ctx.run(run_case, [dict(c, every=True) for c in cases], batch=2, label='every point')
        ctx.run(run_case, [dict(c, depth=2) for c in cases], batch=1, label='two preemptions')
        core_cases = [c for c in cases if c['setup'] not in CORE or all(
            isinstance(a, list) and a[0] in CORE[c['setup']] for a in c['acts'])]
        ctx.run(run_case, [dict(c, depth=3) for c in core_cases], batch=1, label='three preemptions')
    ctx.counts['traces_validated_against_impl'] = ctx.counts.get('transitions', 0)
