"""Small concrete spaces and the oracle for disaggregating them."""
import itertools
import math
from . import core, real, selq
from .model import closure, UNDEFINED


def build(cols, records, defs=(), attrs=('cat',), groups=(), quantities=(), domain='', **load):
    """A real space.  groups: [(name, selector trees or None, {record: weight})],
    the first one is the default.  quantities: [(labels, {attr: value}, value)]."""
    sp = real.DataSpace()
    sp.add_index_columns(*cols)
    if records:
        sp.insert_index([list(cols)] + [list(r) for r in records])
    if defs:
        sp.add_partition_definitions(*[set(d) for d in defs])
    for n, (name, trees, weights) in enumerate(groups):
        sp.add_weight_group(name, selectors=[selq.text(t) for t in trees] if trees else None,
                            make_default=n == 0)
        if weights:
            sp.insert_weights(name, [list(cols) + [name]] + [list(r) + [w] for r, w in weights.items()])
    if domain:
        sp.set_domain(domain)
    if attrs:
        sp.set_registered_attributes(list(attrs))
    add_quantities(sp, cols, attrs, quantities, **load)
    return sp


def add_quantities(sp, cols, attrs, quantities, **load):
    if quantities:
        sp.insert_quantities2(value_column='value_', data=[list(cols) + list(attrs) + ['value_']] + [
            list(lab) + [a.get(k, '') for k in attrs] + [v] for lab, a, v in quantities], **load)


def agrees(record, location):
    return all(l == '' or l == r for r, l in zip(record, location))


def levels(cols, defs):
    """Bit tuples of the structure."""
    return sorted({tuple(int(c in s) for c in cols) for s in closure(list(map(frozenset, defs)) + [frozenset(cols)])},
                  reverse=True)


def locations(cols, level, universe):
    """Every location at *level* made of the labels in use."""
    per_col = [sorted({u[i] for u in universe}) if b else [''] for i, b in enumerate(level)]
    return list(itertools.product(*per_col))


def shares(records, location, weights):
    """{record: exact share} of a location, or None if nothing matches.
    The undefined record only receives something when nothing else matches."""
    matched = [r for r in records if agrees(r, location)]
    if not matched:
        und = (UNDEFINED,) * len(location)
        return {und: 1.0} if agrees(und, location) else None
    total = math.fsum(weights[r] for r in matched)
    if total:
        return {r: weights[r] / total for r in matched}
    return {r: 1 / len(matched) for r in matched}


def read(reader, ncols):
    """{(record, attributes)}: value} of a reader; a repeated row is an error."""
    cols = reader.columns
    out = {}
    for row in reader:
        attrs = tuple((k, v) for k, v in zip(cols[ncols:-1], row[ncols:-1]) if v is not None)
        key = (tuple(row[:ncols]), attrs)
        if key in out:
            raise AssertionError(f'row {key} occurs twice')
        out[key] = row[-1]
    return out


def expected(records, quantities, choose, weights, domain='', keep=lambda a: True):
    """Oracle for a whole space; None when reading must be refused."""
    out = {}
    for lab, attrs, v in quantities:
        if not keep(attrs):
            continue
        attrs = dict(attrs)
        if domain:
            attrs['domain'] = domain
        part = shares(records, lab, weights[choose(attrs)])
        if part is None:
            return None
        for r, s in part.items():
            key = (r, tuple(sorted(attrs.items())))
            out.setdefault(key, []).append(v * s)
    return {k: math.fsum(v) for k, v in out.items()}


def differ(got, want, tol=1e-9):
    """First disagreement; rows of zero may be absent on either side."""
    most = max((abs(w) for w in want.values()), default=0.0)
    for k in sorted(set(got) | set(want), key=repr):
        g, w = got.get(k, 0.0), want.get(k, 0.0)
        if g is None or not math.isclose(g, w, rel_tol=tol, abs_tol=tol * most):
            return f'{k}: got {g!r}, expected {w!r}'
    return None
