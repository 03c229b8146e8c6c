"""The real side of the lockstep: run operations on toron, observe, compare.

Everything is observed through the public API, except the stored derived
fields that the API does not show directly (proportion, granularity, mapping
level, and rows that belong to nothing).  Those are read from the file
``DataSpace.to_file()`` writes.
"""
import json
import math
import os
import sqlite3
import warnings
import zlib
from . import core
from .model import UNDEFINED

core.setup_environment()
import toron  # noqa: E402
from toron.dal1 import label_manager  # noqa: E402
from toron import DataSpace, read_file, bind_file  # noqa: E402

warnings.simplefilter('ignore')


# --------------------------------------------------------------------------
# Operations as data
# --------------------------------------------------------------------------
def op(name, /, *args, **kwds):
    """A JSON-able operation: [method, args, kwds]."""
    return [name, list(args), kwds]


def S(name):
    return {'$space': name}


def L(bits):
    return {'$level': [int(b) for b in bits]}


def SET(*names):
    return {'$set': list(names)}


def pack(bits):
    """Bit flags as stored: left aligned, padded to bytes."""
    bits = list(bits)
    while bits and not bits[-1]:
        bits.pop()
    bits += [0] * (-len(bits) % 8)
    return bytes(sum(b << (7 - i) for i, b in enumerate(bits[p:p + 8]))
                 for p in range(0, len(bits), 8))


def unpack(blob, n):
    bits = [(byte >> (7 - i)) & 1 for byte in bytes(blob or b'') for i in range(8)]
    return tuple((bits + [0] * n)[:n])


def decode(x, target):
    """Turn the JSON form into call arguments for 'model' or 'real'."""
    if isinstance(x, dict):
        if '$space' in x:
            return x['$space'] if target == 'model' else source(x['$space'])
        if '$prefix' in x:
            name, n = x['$prefix']
            return ('prefix', name, n) if target == 'model' else source(name).unique_id[:n]
        if '$level' in x:
            return tuple(x['$level']) if target == 'model' else pack(x['$level'])
        if '$set' in x:
            return frozenset(x['$set']) if target == 'model' else set(x['$set'])
        if '$float' in x:
            return float(x['$float'])
        return {k: decode(v, target) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [decode(v, target) for v in x]
    return x


def F(text):
    """A float that JSON cannot spell (inf, nan)."""
    return {'$float': text}


# --------------------------------------------------------------------------
# Source spaces that links come from
# --------------------------------------------------------------------------
SOURCES = {}
SOURCE_IDS = {}


def make_source(name, n):
    # Sources are also looked at by clients that run in other threads.
    connect = sqlite3.connect
    sqlite3.connect = lambda *args, **kwds: connect(*args, check_same_thread=False, **kwds)
    try:
        sp = DataSpace()
    finally:
        sqlite3.connect = connect
    sp.add_index_columns('X')
    if n:
        sp.insert_index([('X',)] + [(f'{name}x{i}',) for i in range(1, n + 1)])
    SOURCES[name] = sp
    SOURCE_IDS[sp.unique_id] = name
    return sp


def source(name):
    return SOURCES[name]


make_source('S1', 3)
make_source('S2', 2)


_FINGERPRINT = {}


def fingerprint(ids):
    """The fingerprint the library itself gives a space holding exactly *ids*."""
    ids = frozenset(i for i in ids if i)
    if ids not in _FINGERPRINT:
        sp = DataSpace()
        sp.add_index_columns('X')
        top = max(ids, default=0)
        if top:
            sp.insert_index([('X',)] + [(f'x{i}',) for i in range(1, top + 1)])
            for i in range(1, top + 1):
                if i not in ids:
                    sp.delete_index(X=f'x{i}')
        _FINGERPRINT[ids] = sp.select_weights('none').index_hash
    return _FINGERPRINT[ids]


# --------------------------------------------------------------------------
# Running one operation
# --------------------------------------------------------------------------
LEGACY = {'legacy_rename': label_manager.legacy_rename_labels,
          'legacy_drop': label_manager.legacy_drop_labels}


def call(space, operation):
    """Run one operation; returns None or the exception it raised."""
    name, args, kwds = operation
    args = decode(args, 'real')
    kwds = decode(kwds, 'real')
    try:
        if 'make_default' not in kwds and name == 'default':
            group = space.get_weight_group(args[0])
            if group is None:
                return KeyError(args[0])
            name, args = 'set_default_weight_group', [group]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if name in LEGACY:
                LEGACY[name](space, *args, **kwds)
            else:
                getattr(space, name)(*args, **kwds)
    except Exception as err:
        return err
    return None


def model_call(model, operation):
    name, args, kwds = operation
    return model.apply(name, decode(args, 'model'), decode(kwds, 'model'))


# --------------------------------------------------------------------------
# Snapshots and raw dumps
# --------------------------------------------------------------------------
TABLES = ('label_index', 'label_location', 'label_structure', 'weight_group', 'weight',
          'attribute_group', 'quantity', 'link', 'mapping', 'property', 'sqlite_sequence')
OWN_ID = {'weight': 1, 'mapping': 1, 'quantity': 1, 'label_structure': 1}


def save(space):
    path = core.scratch_path('.toron')
    space.to_file(path, fsync=False)
    return path


def raw_dump(path, volatile=False):
    """All rows of all tables.  Without *volatile* the fields that differ
    between two otherwise identical spaces are left out."""
    con = sqlite3.connect(path)
    try:
        out = {}
        for table in TABLES:
            cur = con.execute(f'SELECT * FROM {table}')
            names = [d[0] for d in cur.description]
            rows = cur.fetchall()
            if table == 'property':
                fixed = []
                for k, v in rows:
                    if not volatile and k in ('unique_id', 'created_date'):
                        continue
                    v = json.loads(v) if isinstance(v, (str, bytes)) else v
                    if k == 'partition_definitions':
                        v = sorted(sorted(x) for x in v)
                    fixed.append((k, json.dumps(v, sort_keys=True)))
                rows = sorted(fixed)
            elif table == 'label_structure':
                rows = sorted((r[1:] for r in rows), key=repr)
            elif table == 'sqlite_sequence':
                rows = sorted(rows)
            else:
                rows = sorted(rows, key=lambda r: r[0])
                if table in OWN_ID and not volatile:
                    rows = [r[1:] for r in rows]
            out[table] = (names, rows)
        out['schema'] = sorted(
            (r[0], r[1], ' '.join((r[2] or '').split())) for r in con.execute(
                "SELECT type, name, sql FROM sqlite_master WHERE name NOT LIKE 'sqlite_%'"))
        out['broken_fk'] = con.execute('PRAGMA foreign_key_check').fetchall()
        return out
    finally:
        con.close()


def state_key(dump):
    return core.digest(dump)


def snapshot(path):
    with open(path, 'rb') as f:
        return zlib.compress(f.read(), 1)


def restore_file(blob):
    path = core.scratch_path('.toron')
    with open(path, 'wb') as f:
        f.write(zlib.decompress(blob))
    return path


def restore(blob, mode='memory'):
    path = restore_file(blob)
    if mode == 'memory':
        sp = read_file(path)
        os.unlink(path)
    elif mode == 'drive':
        sp = read_file(path, cache_to_drive=True)
        os.unlink(path)
    else:
        sp = bind_file(path, mode='rw')
        BOUND.append(path)
    return sp


BOUND = []


def forget_bound():
    """Remove the files that bound spaces of finished cases used."""
    while BOUND:
        path = BOUND.pop()
        if os.path.exists(path):
            os.unlink(path)


# --------------------------------------------------------------------------
# Observation
# --------------------------------------------------------------------------
def observe(space, path=None):
    """Everything visible of *space* as plain data (by area)."""
    own = path is None
    if own:
        path = save(space)
    dump = raw_dump(path)
    if own:
        os.unlink(path)
    o = {'dump': dump}
    rows = list(space.select_index(header=True))
    o['header'] = rows[0]
    o['index'] = sorted(rows[1:])
    o['cols'] = list(space.index_columns)
    o['display'] = list(space.get_label_columns())
    o['attrs'] = list(space.get_registered_attributes())
    o['domain'] = space.domain
    o['hash'] = space.select_weights('').index_hash
    groups = space.weight_groups
    o['groups'] = {g.name: (g.description, g.selectors or None) for g in groups}
    o['complete'] = {g.name: bool(g.is_complete) for g in groups}
    default = space.get_default_weight_group()
    o['default'] = default.name if default is not None else None
    o['weights'] = {g.name: sorted(((r[0].id,) + tuple(r[0].labels), r[1], r[2])
                                   for r in space.select_weights(g.name).data)
                    for g in groups}
    links = space.links
    by_id = {l.id: (SOURCE_IDS.get(l.other_unique_id, l.other_unique_id), l.name) for l in links}
    o['links'] = {by_id[l.id]: {'desc': l.description, 'sel': l.selectors or None,
                                'default': bool(l.is_default), 'props': l.user_properties or None,
                                'hint': l.other_filename_hint} for l in links}
    o['link_hash'] = {by_id[l.id]: l.other_index_hash for l in links}
    o['link_complete'] = {by_id[l.id]: bool(l.is_locally_complete) for l in links}
    o['shown_mappings'] = {}
    for l in links:
        rows = list(space.select_mappings(l.other_unique_id, l.name, header=True))
        o['shown_mappings'][by_id[l.id]] = (rows[0], sorted(rows[1:], key=repr))
    n = len(o['cols'])
    names, rows = dump['mapping']
    pos = {k: i for i, k in enumerate(names[1:])}
    o['mappings'] = {}
    o['orphans'] = [tuple(map(str, r)) for r in dump['broken_fk']]
    for r in rows:
        lk = by_id.get(r[pos['link_id']])
        if lk is None:
            o['orphans'].append(('mapping', 'no link'))
            continue
        o['mappings'][(lk, r[pos['other_index_id']], r[pos['index_id']],
                       unpack(r[pos['mapping_level']], n))] = \
            (r[pos['mapping_value']], r[pos['proportion']])
    group_ids = {g.id for g in groups}
    for r in dump['weight'][1]:
        if r[0] not in group_ids:
            o['orphans'].append(('weight', 'no group'))
    o['pdefs'] = space.partition_definitions
    cols = dump['label_structure'][0][2:]
    o['structure'] = [(frozenset(c for c, b in zip(cols, r[1:]) if b), r[0])
                      for r in dump['label_structure'][1]]
    o['structure_cols'] = cols
    o['quantities'] = quantity_rows(space.select_quantities(), o['cols'], None)
    o['quantities2'] = (quantity_rows(space.select_quantities2(), o['cols'], o['attrs'])
                        if o['attrs'] else None)
    o['unmatched'] = quantity_rows(space.select_unmatched_quantities(), o['cols'], None)
    o['noindex'] = quantity_rows(space.select_quantities_without_index(), o['cols'], None)
    return o


def quantity_rows(rows, cols, attrs):
    rows = iter(rows)
    header = list(next(rows))
    out = []
    extra = 1 if header[0] == 'domain' else 0
    for r in rows:
        d = dict(zip(header, r))
        names = header[extra + len(cols):-1]
        out.append((d.get('domain', '') if extra else '', tuple(d[c] for c in cols),
                    tuple(sorted((a, d[a]) for a in names if d[a] is not None)), r[-1]))
    return header, sorted(out, key=repr)


def close(a, b):
    if a is None or b is None:
        return a is b
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)


def same_rows(got, want):
    """Compare sorted row lists whose last item is a number."""
    if len(got) != len(want):
        return False
    return all(g[:-1] == w[:-1] and close(g[-1], w[-1]) for g, w in zip(got, want))


def compare(model, o, flags=True):
    """List of (area, message) where the observation disagrees with the model."""
    bad = []

    def check(area, what, got, want):
        if got != want:
            bad.append((area, f'{what}: got {got!r}, expected {want!r}'))

    und = model.undefined()
    want = sorted([(0,) + und] + [(i,) + lab for i, lab in model.idx.items()])
    check('index', 'index records', o['index'], want)
    check('index', 'index header', tuple(o['header']), ('index_id',) + tuple(model.cols))
    check('columns', 'label columns', o['cols'], model.cols)
    check('columns', 'display order', o['display'], model.display())
    check('attrs', 'registered attributes', o['attrs'], model.attrs)
    check('domain', 'domain', o['domain'], model.domain)
    check('fingerprint', f'fingerprint of ids {sorted(model.idx)}', o['hash'],
          fingerprint(model.idx))

    # Weights.
    check('groups', 'weight groups', o['groups'],
          {g['name']: (g['desc'], g['sel']) for g in model.groups})
    check('groups', 'default weight group', o['default'],
          next((g['name'] for g in model.groups if g['key'] == model.default), None))
    for g in model.groups:
        got = o['weights'].get(g['name'])
        want = sorted(((i,) + lab, {'weight': g['name']}, model.w.get((g['key'], i)))
                      for i, lab in model.idx.items())
        if got is None or not same_rows(got, want):
            bad.append(('weights', f'weights of {g["name"]!r}: got {got!r}, expected {want!r}'))
        if model.idx and not g['forced'] and flags:
            check('complete', f'completeness of group {g["name"]!r}',
                  o['complete'].get(g['name']), model.group_complete(g))

    # Links.
    check('links', 'links', o['links'],
          {(l['src'], l['name']): {'desc': l['desc'], 'sel': l['sel'], 'default': l['default'],
                                   'props': l['props'] or None, 'hint': l['hint']}
           for l in model.links})
    want = {}
    for l in model.links:
        name = (l['src'], l['name'])
        for k, p in model.proportions(l).items():
            want[(name,) + k] = (model.m[(l['key'],) + k], p)
        if flags:
            if model.idx:
                check('link_complete', f'completeness of link {name}',
                      o['link_complete'].get(name), model.link_complete(l))
            if l['loaded']:
                check('link_hash', f'source fingerprint of link {name}',
                      o['link_hash'].get(name), fingerprint(model.link_others(l)))
        # What select_mappings() shows.
        header = ('other_index_id', l['name'], 'index_id') + tuple(model.cols) + ('ambiguous_fields',)
        rows = []
        for i, lab in model.idx.items():
            mine = [(k, v) for k, v in model.m.items() if k[0] == l['key'] and k[2] == i]
            for (_, other, _, lv), v in mine:
                amb = ', '.join(c for c, b in zip(model.cols, lv) if not b) or None
                rows.append((other, v, i) + lab + (amb,))
            if not mine:
                rows.append((None, None, i) + lab + (None,))
        got = o['shown_mappings'].get(name)
        if got is not None:
            rows.sort(key=repr)
            if tuple(got[0]) != header or len(got[1]) != len(rows) or any(
                    a[0] != b[0] or a[2:] != b[2:] or not close(a[1], b[1])
                    for a, b in zip(got[1], rows)):
                bad.append(('mappings', f'select_mappings {name}: got {got!r}, '
                                        f'expected {(header, rows)!r}'))
    got = o['mappings']
    if set(got) != set(want) or any(not close(got[k][0], want[k][0]) for k in want):
        bad.append(('mappings', f'mappings: got {got!r}, expected {want!r}'))
    elif any(not close(got[k][1], want[k][1]) for k in want):
        bad.append(('proportion', f'proportions: got {got!r}, expected {want!r}'))

    # Partitions.
    key = lambda s: (len(s), sorted(s))
    check('pdefs', 'partition definitions',
          sorted((sorted(p) for p in o['pdefs']), key=key),
          sorted((sorted(p) for p in model.pdefs), key=key))
    if len(o['structure']) != len({s for s, g in o['structure']}):
        bad.append(('structure', f'duplicate structure rows {o["structure"]!r}'))
    check('structure', 'structure columns', list(o['structure_cols']), model.cols)
    if model.cols:
        want_s = sorted((sorted(x) for x in model.structure()), key=key)
        got_s = sorted((sorted(s) for s, g in o['structure']), key=key)
        check('structure', 'structure', got_s, want_s)
        for s, g in o['structure']:
            if not close(g, model.granularity(s)):
                bad.append(('granularity', f'granularity of {sorted(s)}: got {g!r}, '
                                           f'expected {model.granularity(s)!r}'))

    # Quantities.
    def rows(keys, attrs=None):
        out = []
        for (lab, a) in keys:
            items = tuple(sorted((k, v) for k, v in a if attrs is None or k in attrs))
            out.append((model.domain, lab, items, model.q[(lab, a)]))
        return sorted(out, key=repr)

    for area, name, keys, attrs in (
            ('quantities', 'quantities', model.q, None),
            ('quantities', 'quantities2', model.q, model.attrs),
            ('unmatched', 'unmatched', model.unmatched() if model.cols else [], None),
            ('unmatched', 'noindex', model.without_index() if model.cols else [], None)):
        if o[name] is None:
            continue
        header, got = o[name]
        want = rows(keys, attrs)
        sort = lambda r: (r[1], r[2], float(r[3]))
        if not same_rows(sorted(got, key=sort), sorted(want, key=sort)):
            bad.append((area, f'{name}: got {got!r}, expected {want!r}'))
        if name == 'quantities2':
            check(area, 'header', header, (['domain'] if model.domain else [])
                  + model.cols + model.attrs + ['quantity'])
        else:
            start = (['domain'] if model.domain else []) + model.cols
            check(area, f'first and last columns of {name}', header[:len(start)] + header[-1:] +
                  [c for c in header if c == 'domain'], start + ['quantity'] + start[:int(bool(model.domain))])
    if o['orphans']:
        bad.append(('orphans', f'rows that belong to nothing: {o["orphans"]!r}'))
    return bad
