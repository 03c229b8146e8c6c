"""Exhaustive exploration of operation sequences, real code against model.

A *machine* is a check's configuration: set-ups (operation lists that lead to
an initial state), an alphabet of operations, a depth, and which areas of the
observation belong to the property after which operations.  ``explore_machine``
performs a breadth-first search over the real code's states: two sequences that
leave byte-for-byte the same logical database contents (all tables, without row
numbers nobody can see) are merged.  After every operation the outcome (result
or refusal) and the complete observation are compared with the model.
"""
import os
import pickle
import traceback
import warnings
from . import core, real
from .model import SpaceModel, Refused, Unspecified


def run_op(space, model, operation, res, relevant, case, tag=''):
    """Apply one operation to both sides.

    Returns (new model, observation, dump path) or None if the branch must not
    be continued (violation, divergence elsewhere, or unspecified)."""
    name = operation[0]
    try:
        new, refused = real.model_call(model, operation), None
    except Refused as err:
        new, refused = model, err
    except Unspecified:
        res.count('unspecified')
        return None
    err = real.call(space, operation)
    res.count('transitions')
    res.count('refused' if refused else 'accepted')
    if (err is None) != (refused is None):
        if relevant(name, 'outcome'):
            if err is None:
                msg = f'{name} succeeded but must be refused ({refused})'
            else:
                msg = f'{name} raised {type(err).__name__}: {err}'
            res.fail(f'{name}:outcome:{core.digest(case)}', f'{msg}\n  operations: {case["ops"]}', case)
        else:
            res.count('diverged')
        return None
    path = real.save(space)
    try:
        obs = real.observe(space, path)
        diffs = real.compare(new, obs)
    except Exception:
        os.unlink(path)
        if relevant(name, 'observe'):
            res.fail(f'{name}:observe:{core.digest(case)}',
                     f'state cannot be read after {name}:\n{traceback.format_exc(limit=-4)}'
                     f'\n  operations: {case["ops"]}', case)
        else:
            res.count('diverged')
        return None
    mine = [d for d in diffs if relevant(name, d[0])]
    if mine:
        os.unlink(path)
        areas = sorted({a for a, m in mine})
        res.fail(f'{name}:{",".join(areas)}:{core.digest(case)}',
                 f'after {tag}{operation!r}:\n' + '\n'.join(f'[{a}] {m}' for a, m in mine)
                 + f'\n  operations: {case["ops"]}', case)
        return None
    if diffs:
        os.unlink(path)
        res.count('diverged')
        return None
    return new, obs, path


def run_path(case, relevant, extra=()):
    """Replay a whole sequence on one space (no snapshots in between)."""
    res = core.Result()
    mode = case.get('mode', 'memory')
    if mode == 'memory':
        space = real.DataSpace()
    elif mode == 'drive':
        space = real.DataSpace(cache_to_drive=True)
    else:
        space = real.bind_file(core.scratch_path('.toron'), mode='rwc')
    model = SpaceModel()
    for operation in case['setup']:
        err = real.call(space, operation)
        if err is not None:
            res.fail(f'setup:{operation[0]}', f'set-up failed: {operation!r}: {err!r}', case)
            return res
        model = real.model_call(model, operation)
    for operation in case['ops']:
        out = run_op(space, model, operation, res, relevant, case)
        if out is None:
            break
        model, obs, path = out
        os.unlink(path)
        for func in extra:
            func(space, model, obs, res, case)
    return res


def build(setup):
    space, model = real.DataSpace(), SpaceModel()
    for operation in setup:
        err = real.call(space, operation)
        if err is not None:
            raise RuntimeError(f'set-up failed: {operation!r}: {err!r}')
        model = real.model_call(model, operation)
    return space, model


def _expand(job):
    res = core.Result()
    machine = _MACHINE
    children = []
    model0 = pickle.loads(job['model'])
    lo, hi = job['range']
    for operation in machine['ops'][lo:hi]:
        if len(job['path']) and not machine['follow'](job['path'][-1], operation):
            continue
        real.forget_bound()
        case = {'machine': machine['name'], 'mode': machine['mode'], 'setup': machine['setups'][job['setup']],
                'ops': job['path'] + [operation]}
        try:
            space = real.restore(job['snap'], machine['mode'])
            out = run_op(space, model0, operation, res, machine['relevant'], case)
        except core.HangError:
            raise
        except Exception:
            res.fail(f'exc:{operation[0]}:{core.digest(case)}',
                     traceback.format_exc(limit=-6), case)
            continue
        if out is None:
            continue
        model, obs, path = out
        key = core.digest((job['setup'], real.state_key(obs['dump'])))
        res.outcome(key)
        children.append((key, case['ops'], real.snapshot(path) if not job['leaf'] else None,
                         pickle.dumps(model) if not job['leaf'] else None))
        os.unlink(path)
        for extra in machine['extra']:
            extra(space, model, obs, res, case)
    res.data = [(k, p, s, m) for k, p, s, m in children]
    return res


_MACHINE = None


def explore_machine(ctx, name, setups, ops, depth, relevant, extra=(), follow=None,
                    mode='memory'):
    """BFS over all operation sequences up to *depth* from every set-up."""
    global _MACHINE
    _MACHINE = {'name': name, 'setups': setups, 'ops': ops, 'relevant': relevant,
                'extra': list(extra), 'mode': mode,
                'follow': follow or (lambda a, b: True)}
    seen = set()
    frontier = []
    for n, setup in enumerate(setups):
        try:
            space, model = build(setup)
            path = real.save(space)
        except Exception:
            res = core.Result()
            res.fail(f'setup:{name}:{n}', f'set-up of {name} failed\n'
                     + traceback.format_exc(limit=-5),
                     {'machine': name, 'setup': setup, 'ops': []})
            ctx.absorb(res.violations, res.counts, res.outcomes)
            continue
        res = core.Result()
        obs = real.observe(space, path)
        diffs = real.compare(model, obs)
        mine = [d for d in diffs if relevant(setup[-1][0] if setup else '', d[0])]
        if mine:
            res.fail(f'setup:{name}:{n}:{mine[0][0]}', f'after the set-up: {mine!r}',
                     {'machine': name, 'setup': setup, 'ops': []})
        ctx.absorb(res.violations, res.counts, res.outcomes)
        if diffs:
            ctx.counts['diverged'] = ctx.counts.get('diverged', 0) + 1
            continue
        key = core.digest((n, real.state_key(obs['dump'])))
        seen.add(key)
        frontier.append({'setup': n, 'path': [], 'snap': real.snapshot(path),
                         'model': pickle.dumps(model)})
        os.unlink(path)
    states = len(frontier)
    for level in range(1, depth + 1):
        leaf = level == depth
        chunk = max(1, min(64, len(frontier) * len(ops) // (core.WORKERS * 8) or 1))
        jobs = [dict(f, leaf=leaf, range=(lo, lo + chunk))
                for f in frontier for lo in range(0, len(ops), chunk)]
        frontier = []
        batch = max(1, min(4, len(jobs) // (core.WORKERS * 8) or 1))
        for job, data in ctx.map(_expand, jobs, batch=batch, label=f'{name} depth {level}'):
            for key, path, snap, model in data or ():
                if key in seen:
                    continue
                seen.add(key)
                states += 1
                if states in (2, 40, 900):
                    ctx.sample({'machine': name, 'ops': path})
                if not leaf:
                    frontier.append({'setup': job['setup'], 'path': path,
                                     'snap': snap, 'model': model})
        if ctx.stopped() or ctx.out_of_time():
            break
    ctx.counts['states'] = ctx.counts.get('states', 0) + states
    ctx.cov.setdefault('machines', {})[name] = {
        'setups': len(setups), 'alphabet': len(ops), 'depth': depth, 'states': states}
    return states
