"""Reference model of one data space: plain dictionaries, no SQL, no caching.

Every public modifying method of ``toron.DataSpace`` that the checks use has a
method here with the same name and the same arguments, written from the
documented behaviour.  ``apply`` is all-or-nothing by construction: it works on
a copy and raises ``Refused`` if the real call is expected to raise.

Derived facts (completeness flags, fingerprints, proportions, partition
structure, granularity) are *not* stored: they are computed from the primary
facts each time, which is exactly the property under test for the real code
(where they are stored and maintained incrementally).
"""
import copy
import math
from itertools import combinations


class Refused(Exception):
    """The operation must raise and must have no effect."""


class Unspecified(Exception):
    """Behaviour not pinned down by the specification; do not explore."""


UNDEFINED = '-'
RESERVED = {'domain', 'index_id', 'value', 'weight',
            '_location_id', '_structure_id', '_granularity'}


def irreducible(sets):
    """The sets that are not unions of the others (minimal generators)."""
    out = []
    for s in sorted(set(frozenset(x) for x in sets), key=lambda x: (len(x), sorted(x))):
        smaller = [t for t in out if t < s]
        if s and frozenset().union(*smaller) != s:
            out.append(s)
    return out


def closure(sets):
    """All unions of the given sets, including the empty union."""
    sets = list(sets)
    out = set()
    for n in range(len(sets) + 1):
        for combo in combinations(sets, n):
            out.add(frozenset().union(*combo))
    return out


def tabular(data, columns=None):
    data = list(data)
    if not data:
        return [], tuple(columns or ())
    if isinstance(data[0], dict):
        columns = tuple(columns or data[0].keys())
        return [tuple(r.get(c) for c in columns) for r in data], columns
    if columns:
        return [tuple(r) for r in data], tuple(columns)
    return [tuple(r) for r in data[1:]], tuple(data[0])


def number(x):
    """The value as SQLite's numeric column would hold it, or None."""
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return None if x != x else x
    if isinstance(x, str):
        try:
            v = float(x)
        except ValueError:
            return None
        if math.isnan(v) or math.isinf(v) or '_' in x:
            return None
        return v
    return None


class SpaceModel:
    def __init__(self):
        self.cols = []
        self.order = None
        self.idx = {}            # id -> labels (without the undefined record)
        self.next_id = 1
        self.groups = []         # dicts: key, name, desc, sel, forced
        self.next_group = 1
        self.default = None      # group key
        self.w = {}              # (group key, id) -> value
        self.links = []          # dicts: key, src, name, desc, sel, default, loaded, hint, props
        self.next_link = 1
        self.m = {}              # (link key, other, id, level) -> value
        self.pdefs = []
        self.attrs = []
        self.domain = ''
        self.q = {}              # (labels, frozenset(attr items)) -> value

    # -- bookkeeping ------------------------------------------------------
    def clone(self):
        return copy.deepcopy(self)

    def apply(self, name, args, kwds):
        """Return the state after the call (self unchanged) or raise."""
        new = self.clone()
        getattr(new, 'op_' + name)(*args, **kwds)
        return new

    def undefined(self):
        return (UNDEFINED,) * len(self.cols)

    def full(self):
        return (1,) * len(self.cols)

    def match(self, criteria, include_undefined=True):
        """Ids of records whose labels agree with the criteria."""
        out = []
        for i, labels in [(0, self.undefined())] + sorted(self.idx.items()):
            if i == 0 and not include_undefined:
                continue
            row = dict(zip(self.cols, labels))
            row['index_id'] = i
            if all(k in row and row[k] == v for k, v in criteria.items()):
                out.append(i)
        return out

    def labels(self, i):
        return self.undefined() if i == 0 else self.idx[i]

    def structure(self):
        return closure(self.pdefs)

    def level_names(self, level):
        return frozenset(c for c, b in zip(self.cols, level) if b)

    def granularity(self, names):
        pos = [i for i, c in enumerate(self.cols) if c in names]
        n = len(self.idx)
        if not pos or not n:
            return None
        blocks = {}
        for labels in self.idx.values():
            key = tuple(labels[p] for p in pos)
            blocks[key] = blocks.get(key, 0) + 1
        return math.log2(n) - sum(c / n * math.log2(c) for c in blocks.values())

    # -- derived facts ----------------------------------------------------
    def group_complete(self, g):
        return all((g['key'], i) in self.w for i in self.idx)

    def link_complete(self, lk):
        mapped = {i for (l, o, i, lv) in self.m if l == lk['key']}
        return all(i in mapped for i in self.idx)

    def link_others(self, lk):
        return {0} | {o for (l, o, i, lv) in self.m if l == lk['key']}

    def proportions(self, lk):
        """{(other, id, level): proportion}"""
        rows = {k[1:]: v for k, v in self.m.items() if k[0] == lk['key']}
        out = {}
        for (o, i, lv), v in rows.items():
            if o == 0:
                out[(o, i, lv)] = 0.0
                continue
            group = [x for k, x in rows.items() if k[0] == o]
            total = math.fsum(group)
            out[(o, i, lv)] = v / total if total else 1 / len(group)
        return out

    # -- label columns ----------------------------------------------------
    def _check_new_columns(self, names):
        names = list(names)
        for n in names:
            if n in RESERVED or n in self.cols or n in self.attrs:
                raise Refused(n)
        return names

    def op_add_index_columns(self, *columns):
        names = self._check_new_columns(columns)
        low = [c.lower() for c in self.cols + names]
        if len(set(low)) != len(low):
            raise Refused('duplicate column')
        old = frozenset(self.cols)
        old_full = self.full()
        used = any(all(lab) for (lab, a) in self.q) if self.cols else False
        used = used or any(lv == old_full for (l, o, i, lv) in self.m)
        k = len(names)
        self.cols += names
        if self.order is not None:
            self.order = self.order + names
        self.idx = {i: lab + (UNDEFINED,) * k for i, lab in self.idx.items()}
        self.q = {(lab + ('',) * k, a): v for (lab, a), v in self.q.items()}
        self.m = {(l, o, i, lv + (0,) * k): v for (l, o, i, lv), v in self.m.items()}
        whole = frozenset(self.cols)
        self.pdefs = irreducible(self.pdefs + [whole])
        if not used:
            self.pdefs = irreducible([p for p in self.pdefs if p != old] + [whole])

    def _rename(self, mapping):
        for old in mapping:
            if old not in self.cols:
                raise Refused(old)
        self._check_new_columns(mapping.values())
        cols = [mapping.get(c, c) for c in self.cols]
        if len({c.lower() for c in cols}) != len(cols):
            raise Refused('duplicate')
        self.cols = cols
        if self.order is not None:
            self.order = [mapping.get(c, c) for c in self.order]
        self.pdefs = irreducible({mapping.get(c, c) for c in p} for p in self.pdefs)

    def op_rename_index_columns(self, mapping):
        self._rename(mapping)

    def op_rename_label_column(self, old, new):
        self._rename({old: new})

    def op_legacy_rename(self, mapping):
        if set(mapping) - set(self.cols):
            raise Unspecified('unknown label')
        self._rename(mapping)

    def op_legacy_drop(self, *columns):
        self.op_drop_index_columns(*columns)

    def op_drop_index_columns(self, *columns):
        for c in columns:
            if c in RESERVED:
                raise Refused(c)
        keep = [p for p, c in enumerate(self.cols) if c not in columns]
        if not keep:
            raise Refused('all columns')
        dropped = set(self.cols) - {self.cols[p] for p in keep}
        cut = lambda t: tuple(t[p] for p in keep)
        idx = {i: cut(lab) for i, lab in self.idx.items()}
        seen = list(idx.values()) + [(UNDEFINED,) * len(keep)]
        if len(set(seen)) != len(seen):
            raise Refused('records coincide')
        locs = {lab for lab, a in self.q}
        if len({cut(lab) for lab in locs}) != len(locs):
            raise Refused('locations coincide')
        if len({(l, o, i, cut(lv)) for (l, o, i, lv) in self.m}) != len(self.m):
            raise Refused('mapping levels coincide')
        self.cols = [self.cols[p] for p in keep]
        if self.order is not None:
            self.order = [c for c in self.order if c not in dropped]
        self.idx = idx
        self.q = {(cut(lab), a): v for (lab, a), v in self.q.items()}
        self.m = {(l, o, i, cut(lv)): v for (l, o, i, lv), v in self.m.items()}
        self.pdefs = irreducible([p - dropped for p in self.pdefs] + [frozenset(self.cols)])

    @staticmethod
    def _move(seq, name, offset):
        seq = list(seq)
        if name not in seq:
            raise Refused(name)
        pos = seq.index(name)
        new = min(max(0, pos + offset), len(seq) - 1)
        seq.insert(new, seq.pop(pos))
        return seq

    def display(self):
        return list(self.cols) if self.order is None else list(self.order)

    def op_change_label_order(self, label, offset):
        self.order = self._move(self.display(), label, offset)

    def op_set_registered_attributes(self, names):
        names = list(names)
        for n in names:
            if n in RESERVED or n in self.cols or names.count(n) > 1:
                raise Refused(n)
        self.attrs = names

    def op_change_attribute_order(self, name, offset):
        self.attrs = self._move(self.attrs, name, offset)

    def op_set_domain(self, domain):
        self.domain = domain

    # -- partitions -------------------------------------------------------
    def op_add_partition_definitions(self, *definitions):
        if not self.cols:
            raise Refused('no columns')
        if any(set(d) - set(self.cols) for d in definitions):
            raise Refused('unknown label')
        self.pdefs = irreducible(list(self.pdefs) + [frozenset(d) for d in definitions]
                                 + [frozenset(self.cols)])

    def op_add_partition_definition(self, definition):
        if not self.cols or set(definition) - set(self.cols):
            raise Refused('unknown label')
        if frozenset(definition) in self.structure():
            raise Refused('already covered')
        self.op_add_partition_definitions(definition)

    def op_drop_partition_definitions(self, *definitions):
        defs = [frozenset(d) for d in definitions]
        if frozenset(self.cols) in defs:
            raise Refused('whole space')
        self.pdefs = irreducible([p for p in self.pdefs if p not in defs]
                                 + [frozenset(self.cols)])

    # -- index ------------------------------------------------------------
    def _free(self, labels, ignore=None):
        if '' in labels:
            raise Refused('empty label')
        if labels == self.undefined():
            raise Refused('same as undefined')
        if any(lab == labels and i != ignore for i, lab in self.idx.items()):
            raise Refused('duplicate')

    def op_insert_index(self, data, columns=None, *, weights=None,
                        on_label_conflict='abort', on_weight_conflict='abort'):
        rows, columns = tabular(data, columns)
        if weights is not None:
            weights = [weights] if isinstance(weights, str) else list(weights)
            if set(weights) - set(columns):
                raise Refused('weights not in data')
        if not self.cols:
            raise Refused('no label columns')
        has_labels = any(c in self.cols for c in columns)
        if has_labels and any(c not in columns for c in self.cols):
            raise Refused('missing label columns')
        if weights is None:
            groups = list(self.groups)
        else:
            groups = [self._group(n) for n in weights]
        used = [(columns.index(g['name']), g) for g in groups if g['name'] in columns]
        used.sort(key=lambda x: x[0])
        for row in rows:
            if not row:
                continue
            if len(row) < len(columns):
                raise Refused('short row')
            labels = tuple(row[columns.index(c)] for c in self.cols) if has_labels else ()
            if '' in labels:
                continue
            raw = row[columns.index('index_id')] if 'index_id' in columns else ''
            if raw != '':
                try:
                    i = int(raw)
                except (TypeError, ValueError):
                    raise Refused('bad id')
                if i != 0 and i not in self.idx:
                    raise Refused('unknown id')
                if labels and labels != self.labels(i):
                    if on_label_conflict == 'replace':
                        if i == 0:
                            raise Refused('undefined record')
                        self._free(labels, ignore=i)
                        self.idx[i] = labels
                    elif on_label_conflict != 'ignore':
                        raise Refused('label conflict')
            else:
                if not labels:
                    raise Refused('no labels and no id')
                found = [k for k, lab in self.idx.items() if lab == labels]
                if labels == self.undefined():
                    i = 0
                elif found:
                    i = found[0]
                else:
                    i = self.next_id
                    self.next_id += 1
                    self.idx[i] = labels
            for pos, g in used:
                value = row[pos]
                if value is None or value == '':
                    continue
                try:
                    value = float(value)
                except (TypeError, ValueError):
                    raise Refused('bad weight')
                if i == 0 and value == 0:
                    continue                # the undefined record always has a weight of zero
                if (g['key'], i) in self.w:
                    if on_weight_conflict == 'ignore':
                        continue
                    if on_weight_conflict != 'replace':
                        raise Refused('weight conflict')
                if i == 0 or value < 0 or value != value:
                    raise Refused('bad weight')
                if math.isinf(value):
                    raise Unspecified('infinite weight')
                self.w[(g['key'], i)] = value

    def op_update_index(self, data, columns=None, merge_on_conflict=False):
        rows, columns = tabular(data, columns)
        if 'index_id' not in columns:
            raise Refused('index_id required')
        if any(c not in columns for c in self.cols):
            raise Refused('missing columns')
        merged = set()
        for row in rows:
            if '' in row:
                continue
            d = dict(zip(columns, row))
            i = d['index_id']
            if i != 0 and i not in self.idx:
                if i in merged:
                    raise Refused('was merged')
                continue
            labels = tuple(d[c] for c in self.cols)
            if i == 0:
                raise Refused('undefined record')
            others = [k for k, lab in self.idx.items() if lab == labels and k != i]
            if labels == self.undefined():
                others = [0]
            if others:
                if not merge_on_conflict or others == [0]:
                    raise Refused('label conflict')
                self._merge(others[0], i)
                merged.add(others[0])
            self.idx[i] = labels

    def _merge(self, gone, kept):
        for (g, i) in [k for k in self.w if k[1] == gone]:
            v = self.w.pop((g, i))
            self.w[(g, kept)] = self.w.get((g, kept), 0.0) + v
        for (l, o, i, lv) in [k for k in self.m if k[2] == gone]:
            v = self.m.pop((l, o, i, lv))
            self.m[(l, o, kept, lv)] = self.m.get((l, o, kept, lv), 0.0) + v
        del self.idx[gone]

    def _delete_record(self, i):
        if i == 0:
            raise Refused('undefined record')
        if any(k[2] == i and k[3] != self.full() for k in self.m):
            raise Refused('ambiguous mapping')
        del self.idx[i]
        self.w = {k: v for k, v in self.w.items() if k[1] != i}
        self.m = {k: v for k, v in self.m.items() if k[2] != i}

    def op_delete_index(self, data=None, columns=None, **criteria):
        if data and criteria:
            raise Refused('both')
        if data:
            rows, columns = tabular(data, columns)
            if 'index_id' not in columns or any(c not in columns for c in self.cols):
                raise Refused('columns')
            for row in rows:
                d = dict(zip(columns, row))
                i = d['index_id']
                if i != 0 and i not in self.idx:
                    continue
                if self.labels(i) != tuple(d[c] for c in self.cols):
                    continue
                self._delete_record(i)
        elif criteria:
            for i in self.match(criteria):
                self._delete_record(i)
        else:
            raise Refused('neither')

    # -- weights ----------------------------------------------------------
    def _group(self, name):
        for g in self.groups:
            if g['name'] == name:
                return g
        raise Refused(f'no group {name}')

    def op_add_weight_group(self, name, description=None, selectors=None,
                            is_complete=False, *, make_default=None):
        if any(g['name'] == name for g in self.groups):
            raise Refused('exists')
        if make_default is None and not self.groups:
            make_default = True
        key = self.next_group
        self.next_group += 1
        self.groups.append({'key': key, 'name': name, 'desc': description,
                            'sel': self._sel(selectors), 'forced': bool(is_complete)})
        if make_default:
            self.default = key

    @staticmethod
    def _sel(s):
        if isinstance(s, str):
            s = [s]
        return list(s) if s else None

    def op_edit_weight_group(self, existing, /, **changes):
        try:
            g = self._group(existing)
        except Refused:
            return
        if 'name' in changes and changes['name'] != existing and \
                any(x['name'] == changes['name'] for x in self.groups):
            raise Refused('exists')
        for k, v in changes.items():
            if k == 'name':
                g['name'] = v
            elif k == 'description':
                g['desc'] = v
            elif k == 'selectors':
                g['sel'] = self._sel(v)
            else:
                raise Unspecified(k)

    def op_drop_weight_group(self, name):
        try:
            g = self._group(name)
        except Refused:
            return
        self.groups = [x for x in self.groups if x is not g]
        self.w = {k: v for k, v in self.w.items() if k[0] != g['key']}
        if self.default == g['key']:
            self.default = None

    def op_default(self, name):
        self.default = self._group(name)['key']

    def op_insert_weights(self, weight_group_name, data, columns=None,
                          value_column=None, on_conflict='abort'):
        if on_conflict not in ('abort', 'ignore', 'replace', 'sum'):
            raise Refused('policy')
        rows, columns = tabular(data, columns)
        if any(c not in columns for c in self.cols):
            raise Refused('columns')
        try:
            g = self._group(weight_group_name)
        except Refused:
            self.groups.append({'key': self.next_group, 'name': weight_group_name,
                                'desc': None, 'sel': None, 'forced': False})
            self.next_group += 1
            g = self.groups[-1]
        value_column = value_column or weight_group_name
        for row in rows:
            d = dict(zip(columns, row))
            if value_column not in d:
                raise Refused('no value column')
            value = d.pop(value_column)
            try:
                value = float(value)
            except (TypeError, ValueError):
                continue
            if math.isnan(value) or math.isinf(value):
                continue
            labels = tuple(d[c] for c in self.cols)
            if 'index_id' in d:
                i = d['index_id']
                if i != 0 and i not in self.idx:
                    continue
                if self.labels(i) != labels:
                    continue
            else:
                found = self.match(dict(zip(self.cols, labels)))
                if not found:
                    continue
                i = found[0]
            if i == 0:
                continue
            k = (g['key'], i)
            if value < 0:
                raise Refused('negative')
            if k in self.w:
                if on_conflict == 'abort':
                    raise Refused('exists')
                if on_conflict == 'replace':
                    self.w[k] = value
                elif on_conflict == 'sum':
                    self.w[k] += value
            else:
                self.w[k] = value

    def op_update_weights(self, weight_group_name, data, columns=None, value_column=None):
        rows, columns = tabular(data, columns)
        value_column = value_column or weight_group_name
        if 'index_id' not in columns or value_column not in columns \
                or any(c not in columns for c in self.cols):
            raise Refused('columns')
        g = self._group(weight_group_name)
        for row in rows:
            d = dict(zip(columns, row))
            i = d['index_id']
            if i != 0 and i not in self.idx:
                continue
            if self.labels(i) != tuple(d[c] for c in self.cols):
                continue
            v = d[value_column]
            if i == 0 or not isinstance(v, (int, float)) or v < 0 or v != v:
                raise Refused('value')
            if math.isinf(v):
                raise Unspecified('infinite weight')
            self.w[(g['key'], i)] = float(v)

    def op_delete_weights(self, weight_group_name, data=None, columns=None, **criteria):
        if data and criteria:
            raise Refused('both')
        g = self._group(weight_group_name)
        if data:
            rows, columns = tabular(data, columns)
            if 'index_id' not in columns or any(c not in columns for c in self.cols):
                raise Refused('columns')
            for row in rows:
                d = dict(zip(columns, row))
                i = d['index_id']
                if i != 0 and i not in self.idx:
                    continue
                if self.labels(i) == tuple(d[c] for c in self.cols):
                    self.w.pop((g['key'], i), None)
        elif criteria:
            for i in self.match(criteria):
                self.w.pop((g['key'], i), None)
        else:
            raise Refused('neither')

    # -- links ------------------------------------------------------------
    def _link(self, src, name=None):
        if isinstance(src, tuple):   # The first characters of a source's id.
            mine = [l for l in self.links if l['src'] == src[1]] if src[2] >= 7 else []
        else:
            mine = [l for l in self.links if l['src'] == src]
            if not mine:
                hints = {src} if src.endswith('.toron') else {src, src + '.toron'}
                mine = [l for l in self.links if l['hint'] in hints]
                if len({l['src'] for l in mine}) > 1:
                    raise Refused('several sources')
        if not mine:
            raise Refused('no link')
        if name:
            for l in mine:
                if l['name'] == name:
                    return l
            raise Refused('no link')
        if len(mine) == 1:
            return mine[0]
        for l in mine:
            if l['default']:
                return l
        raise Refused('no default link')

    def op_add_link(self, src, name, *, other_filename_hint=None, description=None,
                    selectors=None, is_default=None, user_properties=None):
        mine = [l for l in self.links if l['src'] == src]
        if any(l['name'] == name for l in mine):
            raise Refused('exists')
        if is_default is None:
            is_default = not mine
        if is_default:
            for l in mine:
                l['default'] = False
        self.links.append({'key': self.next_link, 'src': src, 'name': name,
                           'desc': description, 'sel': self._sel(selectors),
                           'default': bool(is_default), 'loaded': False,
                           'hint': other_filename_hint, 'props': user_properties})
        self.next_link += 1

    def op_edit_link(self, src, link_name, **changes):
        lk = self._link(src, link_name)
        mine = [l for l in self.links if l['src'] == src]
        for k, v in changes.items():
            if k == 'name':
                if any(l['name'] == v and l is not lk for l in mine):
                    raise Refused('exists')
                lk['name'] = v
            elif k == 'description':
                lk['desc'] = v
            elif k == 'selectors':
                lk['sel'] = self._sel(v)
            elif k == 'is_default':
                if v:
                    for l in mine:
                        l['default'] = False
                lk['default'] = bool(v)
            elif k == 'user_properties':
                lk['props'] = v
            elif k == 'other_filename_hint':
                lk['hint'] = v
            else:
                raise Unspecified(k)

    def op_drop_link(self, src, link_name):
        lk = self._link(src, link_name)
        self.links = [l for l in self.links if l is not lk]
        self.m = {k: v for k, v in self.m.items() if k[0] != lk['key']}

    # -- mappings ---------------------------------------------------------
    def _level(self, level):
        """The level as a tuple with one flag per column (None: no such level)."""
        n = len(self.cols)
        level = tuple(level)
        if any(level[n:]):
            return None
        return (level + (0,) * n)[:n]

    def _valid_level(self, level):
        level = self._level(level)
        return level is not None and self.level_names(level) in self.structure()

    def op_insert_mappings2(self, src, name, data, columns=None):
        rows, columns = tabular(data, columns)
        lk = self._link(src, name)
        n = 0
        for other, i, level, value in (r[:4] for r in rows):
            if level is None or not self._valid_level(level):
                if level is None or not any(level):
                    raise Unspecified('empty level')
                continue
            if other == 0 and i == 0:
                continue
            k = (lk['key'], other, i, self._level(level))
            v = number(value)
            if k in self.m or v is None or v < 0:
                raise Refused('bad row')
            if i != 0 and i not in self.idx:
                raise Refused('unknown record')
            self.m[k] = float(v)
            n += 1
        if n:
            lk['loaded'] = True

    def _mapping_rows(self, name, data, columns):
        rows, columns = tabular(data, columns)
        if tuple(columns[:3]) != ('other_index_id', name, 'index_id'):
            raise Refused('columns')
        if any(c not in columns for c in self.cols):
            raise Refused('columns')
        for row in rows:
            other, value, i = row[:3]
            d = dict(zip(columns[3:], row[3:]))
            if i != 0 and i not in self.idx:
                continue
            if self.labels(i) != tuple(d[c] for c in self.cols):
                continue
            yield other, value, i, d

    def op_insert_mappings(self, src, name, data, columns=None):
        rows = list(self._mapping_rows(name, data, columns))
        lk = self._link(src, name)
        n = 0
        for other, value, i, d in rows:
            level = d['mapping_level']
            if not level:
                raise Refused('no level')
            if not self._valid_level(level):
                continue
            k = (lk['key'], other, i, self._level(level))
            v = number(value)
            if (other == 0 and i == 0) or k in self.m or v is None or v < 0:
                raise Refused('bad row')
            self.m[k] = float(v)
            n += 1
        if n:
            lk['loaded'] = True

    def op_update_mappings(self, src, name, data, columns=None):
        rows = list(self._mapping_rows(name, data, columns))
        lk = self._link(src, name)
        n = 0
        for other, value, i, d in rows:
            level = d['mapping_level']
            if not level:
                raise Refused('no level')
            if not self._valid_level(level):
                continue
            have = [k for k in self.m if k[:3] == (lk['key'], other, i)]
            if len(have) > 1:
                raise Unspecified('several levels for one pair')
            v = number(value)
            if v is None or v < 0 or (other == 0 and i == 0):
                raise Refused('bad row')
            if have:
                del self.m[have[0]]
            else:
                n += 1
            self.m[(lk['key'], other, i, self._level(level))] = float(v)
        if n:
            lk['loaded'] = True

    def op_delete_mappings(self, src, name=None, data=None, columns=None, **criteria):
        if data and criteria:
            raise Refused('both')
        lk = self._link(src, name)
        n = 0
        if data:
            for other, value, i, d in list(self._mapping_rows(name, data, columns)):
                have = [k for k in self.m if k[:3] == (lk['key'], other, i)]
                if len(have) > 1:
                    raise Unspecified('several levels for one pair')
                if have and self.m[have[0]] == float(value) and have[0][3] == self.full():
                    del self.m[have[0]]
                    n += 1
        elif criteria:
            named = set(criteria)
            for i in self.match(criteria):
                for k in [k for k in self.m if k[0] == lk['key'] and k[2] == i]:
                    if self.level_names(k[3]) <= named:
                        del self.m[k]
                        n += 1
        else:
            raise Refused('neither')
        if n:
            lk['loaded'] = True

    def op_reify_mappings(self, src, name, **criteria):
        lk = self._link(src, name)
        ids = set(self.match(criteria)) if criteria else None
        named = set(criteria)
        new = {}
        changed = []
        for k, v in self.m.items():
            if k[0] == lk['key'] and k[3] != self.full() and \
                    (ids is None or (k[2] in ids and self.level_names(k[3]) <= named)):
                changed.append(((k[0], k[1], k[2], self.full()), v))
            else:
                new[k] = v
        for k, v in changed:
            if k in new:
                raise Refused('already exact')
            new[k] = v
        self.m = new

    # -- quantities -------------------------------------------------------
    def op_insert_quantities2(self, *, value_column, data, columns=None,
                              allow_invalid_label=False, allow_invalid_partition=False,
                              on_existing='abort'):
        rows, columns = tabular(data, columns)
        if not self.attrs:
            raise Refused('no attributes')
        to_load = [a for a in self.attrs if a in columns]
        if any(c not in columns for c in list(self.cols) + [value_column]):
            raise Refused('columns')
        for row in rows:
            d = dict(zip(columns, row))
            if 'domain' in d and d['domain'] != self.domain:
                raise Refused('domain')
            attrs = frozenset((a, d[a]) for a in to_load if d[a])
            labels = tuple(d[c] for c in self.cols)
            if not attrs:
                continue
            level = frozenset(c for c, v in zip(self.cols, labels) if v)
            if level not in self.structure() and not allow_invalid_partition:
                raise Refused('level')
            crit = {c: v for c, v in zip(self.cols, labels) if v}
            if not self.match(crit) and not allow_invalid_label:
                raise Refused('labels')
            k = (labels, attrs)
            v = number(d[value_column])
            if k in self.q:
                if on_existing == 'ignore':
                    continue
                if on_existing == 'replace' and v is not None:
                    self.q[k] = v
                elif on_existing == 'sum' and v is not None:
                    self.q[k] += float(v)
                else:
                    raise Refused('exists')
            elif v is None:
                raise Refused('value')
            else:
                self.q[k] = v

    def op_insert_quantities(self, *, value, attributes, data, columns=None):
        rows, columns = tabular(data, columns)
        attributes = [attributes] if isinstance(attributes, str) else list(attributes)
        need = list(self.cols) + attributes + [value] + (['domain'] if self.domain else [])
        if not self.domain and 'domain' in attributes:
            raise Unspecified('domain as an attribute')
        if self.domain:
            attributes = [a for a in attributes if a != 'domain']
        if any(c not in columns for c in need):
            raise Refused('columns')
        for row in rows:
            d = dict(zip(columns, row))
            if self.domain and d.get('domain') != self.domain:
                continue
            attrs = frozenset((a, d[a]) for a in attributes if d[a])
            if not attrs:
                continue
            k = (tuple(d[c] for c in self.cols), attrs)
            v = number(d[value])
            if v is None or k in self.q:
                raise Refused('bad row')
            self.q[k] = v

    def without_index(self):
        return {k for k in self.q
                if not self.match({c: v for c, v in zip(self.cols, k[0]) if v})}

    def unmatched(self):
        st = self.structure()
        return {k for k in self.q
                if frozenset(c for c, v in zip(self.cols, k[0]) if v) not in st
                } | self.without_index()

    def op_delete_quantities_without_index(self):
        gone = self.without_index()
        self.q = {k: v for k, v in self.q.items() if k not in gone}

    def op_delete_unmatched_quantities(self):
        gone = self.unmatched()
        self.q = {k: v for k, v in self.q.items() if k not in gone}
