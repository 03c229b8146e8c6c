"""Batches of rows of every kind, for operations that take rows."""
import itertools

from .real import op


def mixed(ctx, *methods, most=2, setups=('full',)):
    """{set-up: operations} for every sequence of up to *most* rows (three in thorough runs)."""
    from .checks.c26 import OPS, SETUPS
    out = {}
    for o in OPS:
        if o['method'] not in methods or o['setup'] not in setups:
            continue
        for n in range(1, 1 + max(most, 3 if ctx.thorough else 0)):
            for rows in itertools.product(o['rows'], repeat=n):
                data = [o['header']] + [list(r) for r in rows]
                if 'quantities' in o['method']:
                    step = op(o['method'], data=data, **o['kwds'])
                else:
                    step = op(o['method'], *o['args'], data, **o['kwds'])
                out.setdefault(o['setup'], []).append(step)
    return [(SETUPS[name], steps) for name, steps in out.items()]
