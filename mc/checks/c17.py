"""C17: command-line export and import round-trip (C22, C23: index codes, backups)."""
import csv
import io
import itertools
import os
import shutil
import subprocess
import sys
from .. import cli, core, faults, real
from ..core import Result
from ..real import DataSpace, bind_file, pack

LEVEL = 'model_checking'
ASSUMPTIONS = [
    'small scope: up to four defined records, three label columns, two weight groups, two attributes and the '
    'listed label texts',
    'the attributes of the quantities are texts and are registered (the export shows no others)',
    'the unchanged mapping output is imported into files whose link holds no mappings; mappings of source records '
    'that were deleted since cannot be re-created and are left out',
    'no label column is called ambiguous_fields while its file holds ambiguous mappings (the import refuses the '
    'output, which then has two such columns)',
    'both files of a mapping have a default weight group, as the tool demands',
]


# --------------------------------------------------------------------------
# Files
# --------------------------------------------------------------------------
def dump(path):
    return real.raw_dump(path, volatile=True)


def same(a, b):
    """Equal data (identifiers of weights, mappings and quantities aside)."""
    return plain(a) == plain(b)


OWN = {'weight': 1, 'mapping': 1, 'quantity': 1}


def plain(d):
    out = {}
    for table, value in d.items():
        if table in OWN:
            names, rows = value
            rows = sorted((r[1:] for r in rows), key=repr)
            out[table] = (names, [tuple(float(x) if isinstance(x, int) and n.endswith('value') else x
                                        for n, x in zip(names[1:], r)) for r in rows])
        elif table == 'property':
            out[table] = value
        elif table == 'sqlite_sequence':
            out[table] = [r for r in value[1] if r[0] == 'label_index']
        else:
            out[table] = value
    return out


def what_differs(a, b):
    a, b = plain(a), plain(b)
    for t in a:
        if a[t] != b.get(t):
            left = a[t][1] if isinstance(a[t], tuple) else a[t]
            right = b[t][1] if isinstance(b[t], tuple) else b[t]
            return (f'{t}: only before {[x for x in left if x not in right][:4]!r}, '
                    f'only after {[x for x in right if x not in left][:4]!r}')
    return None


class Box:
    """A scratch directory with a file builder."""
    def __init__(self):
        self.dir = core.scratch_dir()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *parts):
        return os.path.join(self.dir, *parts)

    def store(self, space, *parts):
        p = self.path(*parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        space.to_file(p, fsync=False)
        return p

    def copy(self, src, *parts):
        p = self.path(*parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        shutil.copyfile(src, p)
        return p


def rows_of(data):
    return list(csv.reader(io.StringIO(data.decode('utf-8'), newline='')))


def check_backup(r, case, path, before, label, expect=True):
    backup = os.path.join(os.path.dirname(path), 'backup-' + os.path.basename(path))
    if not expect:
        if os.path.exists(backup):
            r.fail(f'nobackup:{label}', f'{label}: a backup was written without being requested', case)
        return
    if not os.path.exists(backup):
        r.fail(f'backup:{label}', f'{label}: no backup of the state before the command', case)
    elif dump(backup) != before:
        r.fail(f'backup:{label}', f'{label}: the backup is not the state before the command: '
               f'{what_differs(before, dump(backup))}', case)


def export(r, case, argv, watched):
    """Run an export; returns its bytes or None.  Must not change the files."""
    before = [open(p, 'rb').read() for p in watched]
    status, out, problem = cli.run(argv)
    r.count('commands')
    if status != 0:
        r.fail('export', f'{argv[1:]}: status {status} {problem!r}', case)
        return None
    if [open(p, 'rb').read() for p in watched] != before:
        r.fail('export-changes', f'{argv[1:]}: the export changed a file', case)
    return out


# --------------------------------------------------------------------------
# The index
# --------------------------------------------------------------------------
def base_space(cols, records, holes=(), groups=(), domain='', order=None, partitions=()):
    sp = DataSpace()
    sp.add_index_columns(*cols)
    if domain:
        sp.set_domain(domain)
    if records:
        sp.insert_index([list(cols)] + [list(x) for x in records])
    for n in holes:
        sp.delete_index(**dict(zip(cols, records[n])))
    for g in groups:
        sp.add_weight_group(g)
    for p in partitions:
        sp.add_partition_definition(set(p))
    if order:
        sp.change_label_order(*order)
    return sp


def index_case(case):
    _, cols, records, holes, weights, domain, order = case
    r = Result()
    groups = list(weights)
    sp = base_space(cols, records, holes, groups, domain, order)
    live = [x for n, x in enumerate(records) if n not in holes]
    ids = [n + 1 for n in range(len(records)) if n not in holes]
    with Box() as box:
        bare = box.store(sp, 'a', 'f.toron')
        for g, values in weights.items():
            rows = [list(x) + [v] for x, v in zip(live, values) if v is not None]
            if rows:
                sp.insert_weights(g, [list(cols) + [g]] + rows)
        full = box.store(sp, 'b', 'f.toron')
        full_dump, bare_dump = dump(full), dump(bare)
        out = export(r, case, [full, 'index'], [full])
        if out is None:
            return r

        # The exported rows show exactly the records and weights.
        table = rows_of(out)
        order_groups = table[0][1 + len(cols):] if table else []
        prefix = domain.replace(' ', '_') + '_' if domain else ''
        if not table or table[0][:1 + len(cols)] != [prefix + 'index_code', *cols] or \
                sorted(order_groups) != sorted(groups):
            r.fail('header', f'exported header {table[:1]!r}', case)
            return r
        got = {}
        for row in table[1:]:
            if len(row) != len(table[0]):
                r.fail('rows', f'exported row {row!r}', case)
                return r
            got[row[0]] = row[1:]
        want = {tuple(x): [weights[g][n] for g in order_groups] for n, x in enumerate(live)}
        for code, row in got.items():
            labels = tuple(row[:len(cols)])
            values = [float(x) if x else None for x in row[len(cols):]]
            if labels == ('-',) * len(cols) and code.startswith('0X'):
                continue
            if labels not in want or values != want.pop(labels):
                r.fail('rows', f'exported row {code!r} {row!r} is not a record of the file', case)
        if want:
            r.fail('rows', f'the export lacks {want!r}', case)
        if len(table) - 1 != len(live) + 1 or len(got) != len(live) + 1:
            r.fail('rows', f'{len(table) - 1} rows with {len(got)} codes for {len(live)} records', case)

        text = out.decode('utf-8')
        # Into the same file: nothing may change.
        for i, policy in enumerate(itertools.product(('abort', 'ignore', 'replace'), repeat=2)):
            p = box.copy(full, f'c{i}', 'f.toron')
            label = f'same file, {policy}'
            status, _, problem = cli.run([p, 'index', '--on-label-conflict', policy[0],
                                          '--on-weight-conflict', policy[1]], text)
            r.count('commands')
            after = dump(p)
            if not same(full_dump, after):
                r.fail(f'same:{policy}', f'{label}: {what_differs(full_dump, after)}', case)
            if status and (policy[1] != 'abort' or problem):
                r.fail(f'same:{policy}', f'{label}: rejected, status {status} {problem!r}', case)
            check_backup(r, case, p, full_dump, label)

        # Into the copy that has no weights.
        p = box.copy(bare, 'd', 'f.toron')
        status, _, problem = cli.run([p, 'index', '--no-backup'], text)
        r.count('commands')
        after = dump(p)
        if status:
            r.fail('bare', f'import into a copy without weights: status {status} {problem!r}', case)
        elif not same(full_dump, after):
            r.fail('bare', f'import into a copy without weights: {what_differs(full_dump, after)}', case)
        check_backup(r, case, p, bare_dump, 'index --no-backup', False)

        # Into an empty file, without the codes.
        p = box.path('e', 'f.toron')
        os.mkdir(box.path('e'))
        q = DataSpace()
        q.add_index_columns(*cols)
        for g in groups:
            q.add_weight_group(g)
        q.to_file(p, fsync=False)
        buf = io.StringIO(newline='')
        csv.writer(buf, lineterminator='\n').writerows(row[1:] for row in table)
        status, _, problem = cli.run([p, 'index', '--no-backup'], buf.getvalue())
        r.count('commands')
        if status:
            r.fail('fresh', f'import into an empty file: status {status} {problem!r}', case)
        else:
            node = bind_file(p, mode='ro')
            have = sorted(tuple(x[1:]) for x in node.select_index())
            need = sorted([tuple(x) for x in live] + [('-',) * len(cols)])
            if have != need:
                r.fail('fresh', f'import into an empty file gives {have!r} instead of {need!r}', case)
            for g in groups:
                have = {tuple(x[:len(cols)]): x[-1] for x in node.select_weights(g)}
                have.pop(('-',) * len(cols), None)
                need = {tuple(x): float(v) for x, v in zip(live, weights[g]) if v is not None}
                have = {k: v for k, v in have.items() if v is not None}
                if have != need:
                    r.fail('fresh', f'weights {g!r} {have!r} instead of {need!r}', case)
            del node
        r.outcome((len(live), len(out)))
    return r


# --------------------------------------------------------------------------
# Mappings
# --------------------------------------------------------------------------
def mapping_files(box, left, right, rows, link, *, drop=(), both=False):
    """(empty1, empty2, full1, full2)"""
    decoys = left.get('decoys')
    left = {k: v for k, v in left.items() if k != 'decoys'}
    one, two = (base_space(**dict(x, groups=['w'])) for x in (left, right))
    if decoys and decoys[0]:
        add_decoys(one, two, left, right, rows, link, decoys[0], 'k')
    two.add_link(one, link)
    one.add_link(two, link)
    if decoys and decoys[1]:
        add_decoys(one, two, left, right, rows, link, decoys[1], 'z')
    e1, e2 = box.store(one, 'e', 'one.toron'), box.store(two, 'e', 'two.toron')
    if rows:
        two.insert_mappings2(one, link, [['other_index_id', 'index_id', 'mapping_level', link]] +
                             [[a, b, pack(level), v] for a, b, level, v in rows])
        if both:
            one.insert_mappings2(two, link, [['other_index_id', 'index_id', 'mapping_level', link]] +
                                 [[b, a, pack([1] * len(left['cols'])), v] for a, b, _, v in rows])
    for labels in drop:
        one.delete_index(**dict(zip(left['cols'], labels)))
    f1, f2 = box.store(one, 'f', 'one.toron'), box.store(two, 'f', 'two.toron')
    if drop:
        e1 = box.copy(f1, 'e', 'one.toron')
    return e1, e2, f1, f2


def add_decoys(one, two, left, right, rows, link, kinds, prefix):
    """Other links of the same files, or of the same name.  They hold the
    pairs which the mapping lacks, or all of its left or right records."""
    pairs = [(a, b) for a in range(len(left['records']) + 1) for b in range(len(right['records']) + 1) if a or b]
    held = {(a, b) for a, b, *_ in rows}
    full = pack([1] * len(right['cols']))
    for kind in kinds:
        source, name = one, f'{prefix}{kind}'
        if kind == 'same name':
            source, name = base_space(**dict(left, groups=['w'])), link
        elif kind == 'default':
            one.add_link(two, name, is_default=True)
        two.add_link(source, name, is_default=True if kind == 'default' else None)
        chosen = [p for p in pairs if p not in held or kind != 'lacking']
        two.insert_mappings2(source, name, [['other_index_id', 'index_id', 'mapping_level', name]] +
                             [[a, b, full, 5.0 + n] for n, (a, b) in enumerate(chosen)])


def mappings(d):
    return sorted(((r[2], r[3], r[4], float(r[5])) for r in d['mapping'][1]), key=repr)


def mapping_case(case):
    _, left, right, rows, link, drop, options = case
    r = Result()
    n1 = len(left['records']) - len(left.get('holes', ())) - len(drop)
    n2 = len(right['records']) - len(right.get('holes', ()))
    with Box() as box:
        e1, e2, f1, f2 = mapping_files(box, left, right, rows, link, drop=drop)
        out = export(r, case, [f1, 'mapping', f2, link], [f1, f2])
        if out is None:
            return r
        text = out.decode('utf-8')
        table = rows_of(out)
        names1, names2 = left['cols'], right['cols']
        shape = table[0]
        coarse = any(not all(level) for _, _, level, _ in rows)
        if len(shape) != len(names1) + len(names2) + 3 + bool(coarse) or \
                shape[1:1 + len(names1)] != names1 or shape[1 + len(names1)] != link or \
                shape[3 + len(names1):3 + len(names1) + len(names2)] != names2:
            r.fail('header', f'exported header {shape!r}', case)
            return r
        # Every mapping is shown, with the labels of its records.
        ids1 = {n + 1: tuple(x) for n, x in enumerate(left['records'])
                if n not in left.get('holes', ()) and x not in drop}
        ids2 = {n + 1: tuple(x) for n, x in enumerate(right['records'])
                if n not in right.get('holes', ())}
        ids1[0], ids2[0] = ('-',) * len(names1), ('-',) * len(names2)
        k = 1 + len(names1)
        got = sorted((row[0].partition('X')[0], tuple(row[1:k]), row[k], row[k + 1].partition('X')[0],
                      tuple(row[k + 2:k + 2 + len(names2)])) for row in table[1:] if row[k] != '')
        want = sorted((str(a), ids1.get(a, ('',) * len(names1)), repr(float(v)), str(b), ids2[b])
                      for a, b, _, v in [(0, 0, None, 0.0)] + list(rows))
        if got != want:
            r.fail('rows', f'exported mappings {got!r} instead of {want!r}', case)
        seen1 = {row[0].partition('X')[0] for row in table[1:] if row[0]}
        seen2 = {row[k + 1].partition('X')[0] for row in table[1:] if row[k + 1]}
        if {str(b) for b in ids2} - seen2:
            r.fail('rows', f'exported mapping lacks records of FILE2: {sorted(seen2)}', case)
        if {str(a) for a in ids1} - seen1:
            r.fail('rows', f'exported mapping lacks records of FILE1: {sorted(seen1)}', case)

        d1, d2 = dump(f1), dump(f2)
        need = sorted((x for x in mappings(d2) if x[0] in ids1), key=repr)
        kept = [(a, b) for a, b, *_ in rows if a in ids1]
        complete = ({a for a, _ in kept if a} | {0} == set(ids1) and
                    {b for _, b in kept if b} | {0} == set(ids2))
        for i, extra in enumerate(options):
            for allow in (False, True):
                a = box.copy(e1, f'g{i}{allow}', 'one.toron')
                b = box.copy(e2, f'g{i}{allow}', 'two.toron')
                before1, before2 = dump(a), dump(b)
                argv = [a, 'mapping', b, link]
                if '--flip' in extra:
                    argv = [b, 'mapping', a, link, '--left']
                argv += [x for x in extra if x != '--flip'] + (['--allow-incomplete'] if allow else [])
                status, _, problem = cli.run(argv, text)
                r.count('commands')
                label = f'{extra} {"incomplete allowed" if allow else ""}'
                after1, after2 = dump(a), dump(b)
                both = '--right' not in extra and '--flip' not in extra
                backup = '--no-backup' not in extra
                check_backup(r, case, a, before1, label, backup)
                check_backup(r, case, b, before2, label, backup)
                if problem is not None:
                    r.fail(f'import:{extra}:{allow}', f'{label}: {problem!r}', case)
                    continue
                if status:
                    if allow or complete:
                        r.fail(f'import:{extra}:{allow}', f'{label}: status {status}', case)
                    if after1 != before1 or after2 != before2:
                        r.fail(f'import:{extra}:{allow}', f'{label}: rejected, but a file was changed', case)
                    continue
                if not complete and not allow and not drop:
                    r.fail(f'incomplete:{extra}', f'{label}: an incomplete mapping was loaded', case)
                if mappings(after2) != need:
                    r.fail(f'import:{extra}:{allow}', f'{label}: mappings {mappings(after2)!r} '
                           f'instead of {need!r}', case)
                elif not drop and rows and not same(after2, d2):
                    r.fail(f'import:{extra}:{allow}', f'{label}: {what_differs(d2, after2)}', case)
                if both:
                    back = {}
                    for x, y, _, v in rows:
                        if x in ids1:
                            back[y, x] = back.get((y, x), 0.0) + v
                    have = {}
                    for y, x, _, v in mappings(after1):
                        have[y, x] = have.get((y, x), 0.0) + v
                    if {k: round(v, 9) for k, v in back.items()} != {k: round(v, 9) for k, v in have.items()}:
                        r.fail(f'back:{extra}:{allow}', f'{label}: the other direction got {have!r} '
                               f'instead of {back!r}', case)
                elif after1 != before1:
                    r.fail(f'other:{extra}:{allow}', f'{label}: FILE1 was changed', case)
        # Into the files that hold the mapping already.
        for flags in (['--right'], ['--right', '--allow-incomplete']):
            status, _, problem = cli.run([f1, 'mapping', f2, link, '--no-backup', *flags], text)
            r.count('commands')
            if not same(d2, dump(f2)) or dump(f1) != d1:
                r.fail('again', f'import into the same files: {what_differs(d2, dump(f2))}', case)
        r.outcome((len(rows), len(table), complete))
    return r


# --------------------------------------------------------------------------
# Quantities
# --------------------------------------------------------------------------
def quantity_case(case):
    _, spec, attrs, rows, order = case
    r = Result()
    cols = spec['cols']
    sp = base_space(**spec)
    sp.set_registered_attributes(attrs)
    if order:
        sp.change_attribute_order(*order)
    with Box() as box:
        bare = box.store(sp, 'a', 'f.toron')
        sp.insert_quantities2(value_column='v', allow_invalid_label=True, allow_invalid_partition=True,
                              data=[list(cols) + list(attrs) + ['v']] + [list(x) for x in rows])
        full = box.store(sp, 'b', 'f.toron')
        full_dump, bare_dump = dump(full), dump(bare)
        out = export(r, case, [full, 'quantity'], [full])
        if out is None:
            return r
        text = out.decode('utf-8')
        table = rows_of(out)
        shown = list(attrs)
        if order:
            shown = sp.get_registered_attributes()
        domain = spec.get('domain')
        if table[0] != (['domain'] if domain else []) + list(cols) + shown + ['quantity']:
            r.fail('header', f'exported header {table[0]!r}', case)
            return r
        pick = [attrs.index(x) for x in shown]
        want = sorted(([domain] if domain else []) + list(x[:len(cols)]) +
                      [x[len(cols) + n] for n in pick] + [repr(float(x[-1]))]
                      for x in rows if any(x[len(cols):-1]))
        if sorted(table[1:]) != want:
            r.fail('rows', f'exported {sorted(table[1:])!r} instead of {want!r}', case)

        def content(path):
            node = bind_file(path, mode='ro')
            return sorted(map(repr, node.select_quantities2(header=True)))

        want = content(full)
        flags = ['--allow-invalid-label', '--allow-invalid-partition']
        for i, extra in enumerate(([], ['--on-existing', 'ignore'], ['--on-existing', 'replace'],
                                   ['--on-existing', 'sum'])):
            p = box.copy(bare, f'c{i}', 'f.toron')
            status, _, problem = cli.run([p, 'quantity', *flags, *extra], text)
            r.count('commands')
            label = f'copy without quantities {extra}'
            if status:
                r.fail(f'bare:{extra}', f'{label}: status {status} {problem!r}', case)
            elif content(p) != want or not same(bare_dump, dict(dump(p), **{t: bare_dump[t] for t in (
                    'quantity', 'attribute_group', 'label_location')})):
                r.fail(f'bare:{extra}', f'{label}: {content(p)!r} instead of {want!r}', case)
            check_backup(r, case, p, bare_dump, label)
        for i, extra in enumerate(([], ['--on-existing', 'ignore'], ['--on-existing', 'replace'])):
            p = box.copy(full, f'd{i}', 'f.toron')
            status, _, problem = cli.run([p, 'quantity', *flags, *extra], text)
            r.count('commands')
            label = f'same file {extra}'
            if problem or (status and extra):
                r.fail(f'same:{extra}', f'{label}: status {status} {problem!r}', case)
            if not same(full_dump, dump(p)):
                r.fail(f'same:{extra}', f'{label}: {what_differs(full_dump, dump(p))}', case)
            check_backup(r, case, p, full_dump, label)
        # Without the options it is either accepted completely or not at all.
        p = box.copy(bare, 'e', 'f.toron')
        status, _, problem = cli.run([p, 'quantity', '--no-backup'], text)
        r.count('commands')
        if problem or (status and dump(p) != bare_dump) or (not status and content(p) != want):
            r.fail('strict', f'strict import: status {status} {problem!r} {content(p)!r}', case)
        check_backup(r, case, p, bare_dump, 'quantity --no-backup', False)
        r.outcome(len(table))
    return r


# --------------------------------------------------------------------------
# Index codes
# --------------------------------------------------------------------------
def alterations(code, alphabet):
    """Every text one edit away from *code*, and some further ones."""
    out = []
    for i in range(len(code) + 1):
        for ch in alphabet:
            out.append(code[:i] + ch + code[i:])
            if i < len(code):
                out.append(code[:i] + ch + code[i + 1:])
        if i < len(code):
            out.append(code[:i] + code[i + 1:])
        if i + 1 < len(code):
            out.append(code[:i] + code[i + 1] + code[i] + code[i + 2:])
            out.append(code[:i])
        out.append(code[i:])
    number, _, check = code.partition('X')
    big = ['9' * 19, '9' * 20, '9' * 30, '-' + '9' * 30, str(2 ** 63), str(2 ** 64 + int(number)), '-' + number]
    out += [b + 'X' + check for b in big]
    out += [number + 'X' + check + check, number + 'X' + '0' * 8, number + 'X', 'X' + check, 'X', '-']
    out = list(dict.fromkeys(x for x in out if x and x != code))
    return out


CODE_SPEC = dict(cols=['A', 'B'], records=[('a1', 'b1'), ('a1', 'b2'), ('a2', 'b1')], groups=['w'])


def import_text(table):
    buf = io.StringIO(newline='')
    csv.writer(buf, lineterminator='\n').writerows(table)
    return buf.getvalue()


_CODE = {}


def code_setup(kind):
    """Files and export the altered codes start from (one per worker process)."""
    key = (os.getpid(), kind)
    if key not in _CODE:
        box = Box()
        if kind == 'index':
            sp = base_space(**CODE_SPEC)
            empty = box.store(sp, 'e', 'f.toron')
            sp.insert_weights('w', [['A', 'B', 'w'], ['a1', 'b1', 1.0], ['a1', 'b2', 2.0], ['a2', 'b1', 4.0]])
            full = box.store(sp, 'f', 'f.toron')
            other = base_space(**CODE_SPEC)
            other.insert_weights('w', [['A', 'B', 'w'], ['a1', 'b1', 1.0], ['a1', 'b2', 2.0], ['a2', 'b1', 4.0]])
            foreign = box.store(other, 'o', 'f.toron')
            table = rows_of(cli.run([full, 'index'])[1])
            alien = rows_of(cli.run([foreign, 'index'])[1])
            _CODE[key] = (box, [empty], [full], table, alien)
        else:
            rows = [(1, 1, (1, 1), 3.0), (2, 2, (1, 1), 5.0), (3, 3, (1, 1), 7.0), (3, 1, (1, 1), 2.0)]
            got = []
            for d in ('x', 'y'):
                sub = Box()
                e1, e2, f1, f2 = mapping_files(sub, CODE_SPEC, CODE_SPEC, rows, 'm')
                got.append((sub, [e1, e2], [f1, f2], rows_of(cli.run([f1, 'mapping', f2, 'm'])[1])))
            _CODE[key] = (box, got[0][1], got[0][2], got[0][3], got[1][3])
    return _CODE[key]


def code_run(box, files, argv_tail, text, kind):
    """Import into copies; (status, problem, dumps before, dumps after)"""
    with Box() as b:
        copies = [b.copy(p, str(i), os.path.basename(p)) for i, p in enumerate(files)]
        before = [dump(p) for p in copies]
        if kind == 'index':
            argv = [copies[0], 'index', '--no-backup', *argv_tail]
        else:
            argv = [copies[0], 'mapping', copies[1], 'm', '--no-backup', *argv_tail]
        status, _, problem = cli.run(argv, text)
        return status, problem, before, [dump(p) for p in copies]


CODE_TAILS = {
    'index': [(), ('--on-label-conflict', 'ignore', '--on-weight-conflict', 'replace'),
              ('--on-label-conflict', 'replace', '--on-weight-conflict', 'replace')],
    'mapping': [('--allow-incomplete',), ('--allow-incomplete', '--match-limit', '9', '--right')],
}


def denotes(text):
    """Number and checksum a code carries, however they are written."""
    number, _, check = text.partition('X')
    try:
        return int(number), int(check, 16)
    except ValueError:
        return None


def code_case(case):
    """Change one code to every near text."""
    _, kind, row, col, alphabet, tail_no = case
    r = Result()
    box, empty, full, table, alien = code_setup(kind)
    tail = CODE_TAILS[kind][tail_no]
    files = full if kind == 'index' and tail else empty
    ok, _, _, good = code_run(box, files, tail, import_text(table), kind)
    if ok:
        r.fail('unaltered', f'{kind} {tail}: the unaltered import fails', case)
        return r
    code = table[row][col]
    for bad in alterations(code, alphabet):
        rows = [list(x) for x in table]
        rows[row][col] = bad
        status, problem, before, after = code_run(box, files, tail, import_text(rows), kind)
        r.count('altered_codes')
        if problem:
            r.fail(f'code:{kind}:{row}:{col}:{bad}:{tail_no}', f'{kind} {tail}: code {code!r} altered to {bad!r} '
                   f'ends with {problem!r}', case)
        elif status and after != before:
            r.fail(f'code:{kind}:{row}:{col}:{bad}:{tail_no}', f'{kind} {tail}: code {code!r} altered to {bad!r} '
                   f'is rejected, but the file was changed', case)
        elif not status and denotes(bad) != denotes(code):
            r.fail(f'code:{kind}:{row}:{col}:{bad}:{tail_no}', f'{kind} {tail}: code {code!r} altered to {bad!r} '
                   f'was accepted', case)
        elif not status and not all(same(a, b) for a, b in zip(after, good)):
            r.fail(f'code:{kind}:{row}:{col}:{bad}:{tail_no}', f'{kind} {tail}: code {code!r} altered to {bad!r} '
                   f'was accepted as something else', case)
        r.outcome((kind, status))
    return r


def foreign_case(case):
    """Codes of another file with the same records in some of the rows."""
    _, kind, col, rows_changed, padding, tail_no = case
    r = Result()
    box, empty, full, table, alien = code_setup(kind)
    tail = CODE_TAILS[kind][tail_no]
    rows = [list(x) for x in table]
    for n in rows_changed:
        rows[n][col] = alien[n][col]
    if padding:
        # Records without a code come first.
        if kind == 'index':
            extra = [['', f'n{i}', f'n{i}', ''] for i in range(padding)]
        else:
            k = 3
            extra = [['', f'n{i}', f'n{i}', '1.0', '', f'n{i}', f'n{i}'] for i in range(padding)]
        rows = rows[:1] + extra + rows[1:]
    status, problem, before, after = code_run(box, empty, tail, import_text(rows), kind)
    r.count('foreign_codes')
    if problem:
        r.fail(f'foreign:{case[1:]!r}', f'{kind} {tail}: foreign codes end with {problem!r}', case)
    if not status:
        r.fail(f'foreign:{case[1:]!r}', f'{kind} {tail}: codes of another file in rows {rows_changed} '
               f'were accepted', case)
    if after != before:
        r.fail(f'foreign:{case[1:]!r}', f'{kind} {tail}: codes of another file in rows {rows_changed} '
               f'changed the file', case)
    return r


def late_case(case):
    """A code after many records without one still identifies its record."""
    _, padding, wrong = case
    r = Result()
    box, empty, full, table, alien = code_setup('index')
    code = (alien if wrong else table)[3][0]
    rows = [table[0]] + [['', f'n{i}', f'n{i}', '1.0'] for i in range(padding)] + [[code, 'new', 'new', '']]
    tail = ['--on-label-conflict', 'replace']
    status, problem, before, after = code_run(box, full, tail, import_text(rows), 'index')
    r.count('late_codes')
    labels = {x[0]: x[1:] for x in after[0]['label_index'][1]}
    if wrong:
        if not status or problem or after != before:
            r.fail(f'late:{padding}:{wrong}', f'a foreign code after {padding} records without code: status '
                   f'{status} {problem!r}, {labels!r}', case)
    elif status or labels.get(2) != ('new', 'new') or len(labels) != 4 + padding:
        r.fail(f'late:{padding}:{wrong}', f'a code after {padding} records without code: status {status} '
               f'{problem!r}, {labels!r}', case)
    return r


# --------------------------------------------------------------------------
# Backups of every command that modifies a file
# --------------------------------------------------------------------------
COMMANDS = [
    # name, arguments after FILE ('@' is the second file), standard input
    ('add label', ['add', 'label', 'N', 'M'], None),
    ('add label twice', ['add', 'label', 'A'], None),
    ('add label reserved', ['add', 'label', 'domain'], None),
    ('add weight', ['add', 'weight', 'nw', '--description', 'd', '--selectors', '[cat]', '--default'], None),
    ('add weight twice', ['add', 'weight', 'w1'], None),
    ('add partition', ['add', 'partition', 'B'], None),
    ('add partition unknown', ['add', 'partition', 'Z'], None),
    ('add attribute', ['add', 'attribute', 'p', 'q'], None),
    ('add attribute label', ['add', 'attribute', 'p', 'A'], None),
    ('add link', ['add', 'link', '@', 'nl'], None),
    ('add link left', ['add', 'link', '@', 'nl', '--left', '--default'], None),
    ('add link twice', ['add', 'link', '@', 'm'], None),
    ('update label', ['update', 'label', 'A', '--move-right', '1'], None),
    ('update label unknown', ['update', 'label', 'Z', '--move-left', '1'], None),
    ('update weight', ['update', 'weight', 'w1', '--description', 'new', '--add-selector', '[sex]'], None),
    ('update weight default', ['update', 'weight', 'w2', '--default'], None),
    ('update weight unknown', ['update', 'weight', 'w9', '--description', 'x'], None),
    ('update attribute', ['update', 'attribute', 'cat', '--move-right', '1'], None),
    ('rename label', ['rename', 'label', 'A', 'AA'], None),
    ('rename label taken', ['rename', 'label', 'A', 'B'], None),
    ('rename domain', ['rename', 'domain', 'fresh'], None),
    ('remove link', ['remove', 'link', '@', 'm'], None),
    ('remove link right', ['remove', 'link', '@', 'm', '--right'], None),
    ('remove link unknown', ['remove', 'link', '@', 'zz'], None),
    ('index', ['index'], 'A,B,w1\nq,q,1\n'),
    ('index conflict', ['index'], 'A,B,w1\nq,q,1\na1,b1,9\n'),
    ('index bad weight', ['index'], 'A,B,w1\nq,q,1\nr,r,x\n'),
    ('index missing column', ['index'], 'A,w1\nq,1\n'),
    ('index empty', ['index'], ''),
    ('quantity', ['quantity'], 'A,B,cat,sex,quantity\na1,b1,n,m,3\n'),
    ('quantity taken', ['quantity'], 'A,B,cat,sex,quantity\na1,b1,n,m,3\na1,b1,x,m,3\n'),
    ('quantity bad label', ['quantity'], 'A,B,cat,sex,quantity\na1,b1,n,m,3\nzz,b1,x,m,3\n'),
    ('quantity other domain', ['quantity'], 'domain,A,B,cat,sex,quantity\ndom,a1,b1,n,m,3\nzz,a1,b1,y,m,3\n'),
    ('quantity bad value', ['quantity', '--on-existing', 'sum'],
     'A,B,cat,sex,quantity\na1,b1,n,m,3\na1,b1,x,m,zz\n'),
    ('mapping', ['mapping', '@', 'k', '--allow-incomplete'], 'A,B,k,A,B\na1,b1,1,a1,b1\n'),
    ('mapping left', ['mapping', '@', 'k', '--left', '--allow-incomplete'], 'A,B,k,A,B\na1,b1,1,a1,b1\n'),
    ('mapping right', ['mapping', '@', 'k', '--right', '--allow-incomplete'], 'A,B,k,A,B\na1,b1,1,a1,b1\n'),
    ('mapping left bad', ['mapping', '@', 'm', '--left', '--allow-incomplete'], 'A,B,m,A,B\na1,b1,1,a1,b1\n'),
    ('mapping incomplete', ['mapping', '@', 'k'], 'A,B,k,A,B\na1,b1,1,a1,b1\n'),
    ('mapping taken', ['mapping', '@', 'm', '--allow-incomplete'], 'A,B,m,A,B\na1,b1,1,a1,b1\n'),
    ('mapping no link', ['mapping', '@', 'zz'], 'A,B,zz,A,B\na1,b1,1,a1,b1\n'),
    ('mapping negative', ['mapping', '@', 'k', '--allow-incomplete'], 'A,B,k,A,B\na1,b1,1,a1,b1\na1,b2,-1,a1,b2\n'),
]
CHANGING = {'add label', 'add weight', 'add partition', 'add attribute', 'add link', 'add link left', 'update label',
            'update weight', 'update weight default', 'update attribute', 'rename label', 'rename domain',
            'remove link', 'remove link right', 'index', 'quantity', 'mapping', 'mapping left', 'mapping right'}


def backup_files(box, where):
    """Two files; FILE1 has everything."""
    one = base_space(**dict(CODE_SPEC, groups=['w1', 'w2'], domain='dom'))
    one.insert_weights('w1', [['A', 'B', 'w1'], ['a1', 'b1', 1.0], ['a1', 'b2', 2.0], ['a2', 'b1', 4.0]])
    one.set_registered_attributes(['cat', 'sex'])
    one.insert_quantities2(value_column='v', data=[['A', 'B', 'cat', 'sex', 'v'], ['a1', 'b1', 'x', 'm', 10.0]])
    two = base_space(**CODE_SPEC)
    for x, y in ((one, two), (two, one)):
        for name in ('m', 'k'):
            x.add_link(y, name)
        x.insert_mappings2(y, 'm', [['other_index_id', 'index_id', 'mapping_level', 'm']] +
                           [[i, i, pack((1, 1)), 1.0] for i in (1, 2, 3)])
    return box.store(one, *where[0]), box.store(two, *where[1])


PLACES = {
    'plain': (('d', 'one.toron'), ('d', 'two.toron')),
    'apart': (('d', 'x.toron'), ('e', 'x.toron')),
    'odd name': (('d é', ' ö n,e'), ('d é', 'backup-z.toron')),
}


def backup_case(case):
    _, n, place, mode, form = case
    name, args, stdin = COMMANDS[n]
    r = Result()
    with Box() as box:
        p1, p2 = backup_files(box, PLACES[place])
        b1, b2 = (os.path.join(os.path.dirname(p), 'backup-' + os.path.basename(p)) for p in (p1, p2))
        two = '@' in args
        if mode == 'stale':       # a backup of an earlier command exists
            for b in (b1, b2):
                base_space(['Q'], [('old',)]).to_file(b, fsync=False)
        elif mode == 'blocked':   # no backup can be written
            for b in (b1, b2):
                os.mkdir(b)
                open(os.path.join(b, 'x'), 'w').close()
        before = dump(p1), dump(p2)
        cwd = os.getcwd()
        if form == 'relative':
            os.chdir(box.dir)
            q1, q2 = os.path.relpath(p1), os.path.relpath(p2)
        elif form == 'here':
            os.chdir(os.path.dirname(p1))
            q1, q2 = os.path.basename(p1), os.path.relpath(p2)
        else:
            q1, q2 = p1, p2
        try:
            argv = [q1] + [q2 if x == '@' else x for x in args] + (['--no-backup'] if mode == 'none' else [])
            status, _, problem = cli.run(argv, stdin)
        finally:
            os.chdir(cwd)
        r.count('commands')
        r.count('backup_cases')
        after = dump(p1), dump(p2)
        key = f'{name}:{place}:{mode}:{form}'
        if mode == 'blocked':
            if not status or after != before:
                r.fail(f'blocked:{key}', f'{name}: the backup cannot be written, yet the command went on '
                       f'(status {status})', case)
            return r
        if name in CHANGING:
            if status or after == before:
                r.fail(f'command:{key}', f'{name}: status {status} {problem!r}, '
                       f'{"unchanged" if after == before else "changed"}', case)
        elif not status and after != before:
            r.fail(f'command:{key}', f'{name}: accepted', case)
        elif status and after != before:
            r.fail(f'command:{key}', f'{name}: fails with status {status} but changed a file: '
                   f'{what_differs(before[0], after[0]) or what_differs(before[1], after[1])}', case)
        for p, d, involved in ((p1, before[0], True), (p2, before[1], two)):
            if mode == 'none' or not involved:
                if mode != 'stale':
                    check_backup(r, case, p, d, key, False)
            elif status and not os.path.exists(b1):
                pass              # rejected before anything was done
            else:
                check_backup(r, case, p, d, key)
        left = sorted(x for d in {os.path.dirname(p1), os.path.dirname(p2)} for x in os.listdir(d))
        allowed = {os.path.basename(x) for x in (p1, p2, b1, b2)}
        if set(left) - allowed:
            r.fail(f'litter:{key}', f'{name}: leaves {sorted(set(left) - allowed)}', case)
        r.outcome((name, status))
    return r


def fault_case(case):
    """Every command with a failure at one statement after another."""
    _, n, kind = case
    name, args, stdin = COMMANDS[n]
    r = Result()
    with Box() as box:
        p1, p2 = backup_files(box, PLACES['plain'])
        b1, b2 = (os.path.join(os.path.dirname(p), 'backup-' + os.path.basename(p)) for p in (p1, p2))
        clean = [open(p, 'rb').read() for p in (p1, p2)]
        before = dump(p1), dump(p2)
        argv = [p1] + [p2 if x == '@' else x for x in args]

        def restore():
            for f in os.listdir(os.path.dirname(p1)):
                os.unlink(os.path.join(os.path.dirname(p1), f))
            for p, data in zip((p1, p2), clean):
                with open(p, 'wb') as f:
                    f.write(data)

        usual, _, _ = cli.run(argv, stdin)
        good = dump(p1), dump(p2)
        at, fired = 0, True
        while fired:
            at += 1
            restore()
            if kind == 'interrupt':
                with faults.interrupt_events(at) as plan:
                    try:
                        status, _, problem = cli.run(argv, stdin)
                    except KeyboardInterrupt as e:
                        status, problem = 130, e
            else:
                faults.install()
                try:
                    with faults.sql_events(at, kind, 2) as plan:
                        status, _, problem = cli.run(argv, stdin)
                finally:
                    faults.uninstall()
            fired = plan.fired
            del plan
            problem = repr(problem)
            r.count('commands')
            r.count('faults')
            after = dump(p1), dump(p2)
            key = f'{name}:{kind}:{at}'
            where = f'{name} with {kind} at event {at} (status {status}, {problem})'
            for i, (p, b) in enumerate(((p1, b1), (p2, b2))):
                if after[i] == before[i]:
                    if status == 0 and good[i] != before[i] and not (name in TOLERANT):
                        r.fail(f'fault:{key}', f'{where}: claims success, but FILE{i + 1} is unchanged', case)
                    continue
                if not os.path.exists(b) or dump(b) != before[i]:
                    r.fail(f'fault:{key}', f'{where}: FILE{i + 1} changed without a good backup', case)
                if status and name not in COMPOSED and kind not in ('interrupt', 'abort'):   # may strike the commit itself
                    r.fail(f'fault:{key}', f'{where}: failed but changed FILE{i + 1}: '
                           f'{what_differs(before[i], after[i])}', case)
                elif name not in STEPS and not same(after[i], good[i]):
                    r.fail(f'fault:{key}', f'{where}: FILE{i + 1} is neither as before nor as it should be: '
                           f'{what_differs(good[i], after[i])}', case)
        r.outcome((name, usual))
    return r


STEPS = {'update weight'}                                  # several changes of one file
COMPOSED = {'add link', 'remove link', 'mapping', 'mapping left', 'mapping right', 'update weight'}   # both files, one after the other
TOLERANT = {'remove link'}                                 # removes what it can


def init_case(case):
    """Creating a file never replaces one."""
    _, situation, domain, mode = case
    r = Result()
    with Box() as box:
        p1, p2 = backup_files(box, PLACES['plain'])
        before = dump(p1), dump(p2)
        old = os.path.join(box.path('d'), 'other.txt')
        with open(old, 'w') as f:
            f.write('text')
        path = {'new': box.path('d', 'new.toron'), 'taken': p1, 'foreign': old, 'directory': box.path('d'),
                'nowhere': box.path('none', 'new.toron'), 'blank': box.path('d', ' '), 'odd': box.path('d', 'é ,n')}[situation]
        cwd = os.getcwd()
        if mode == 'relative':
            os.chdir(box.dir)
            path = os.path.relpath(path)
        try:
            status, _, problem = cli.run([path, 'init'] + (['--domain', domain] if domain else []))
            made = os.path.exists(path)
            if situation in ('new', 'odd'):
                node = bind_file(path, mode='ro') if made else None
                name = domain or os.path.splitext(os.path.basename(path))[0]
                if status or node is None or node.domain != name or list(node.index_columns):
                    r.fail(f'init:{case[1:]!r}', f'init of a new file: status {status} {problem!r}', case)
                del node
        finally:
            os.chdir(cwd)
        r.count('commands')
        if situation not in ('new', 'odd') and (not status or problem):
            r.fail(f'init:{case[1:]!r}', f'init with {situation} path: status {status} {problem!r}', case)
        allowed = {'one.toron', 'two.toron', 'other.txt'} | ({os.path.basename(path)} if situation in ('new', 'odd') else set())
        if (dump(p1), dump(p2)) != before or open(old).read() != 'text' or set(os.listdir(box.path('d'))) != allowed:
            r.fail(f'init:{case[1:]!r}', f'init with {situation} path changed other files', case)
        r.outcome((situation, status))
    return r


def half_case(case):
    """Commands that change both files, refused because of what one of them (or both) already holds."""
    _, what, holders, mode = case
    r = Result()
    with Box() as box:
        one, two = (base_space(**dict(CODE_SPEC, groups=['w'])) for _ in range(2))
        for x in (one, two):
            x.insert_weights('w', [['A', 'B', 'w'], ['a1', 'b1', 1.0], ['a1', 'b2', 2.0], ['a2', 'b1', 4.0]])
        spaces = {'1': (one, two), '2': (two, one)}
        if what == 'mapping':
            for x, y in spaces.values():
                x.add_link(y, 'm')
            for h in holders:
                x, y = spaces[h]
                x.insert_mappings2(y, 'm', [['other_index_id', 'index_id', 'mapping_level', 'm'],
                                            [2, 2, pack((1, 1)), 1.0]])
            args, stdin = ['mapping', '@', 'm'], 'A,B,m,A,B\na1,b1,1,a1,b1\na1,b2,1,a1,b2\na2,b1,1,a2,b1\n'
        else:
            for h in holders:
                x, y = spaces[h]
                x.add_link(y, 'm')
            args, stdin = ['add', 'link', '@', 'm'], None
        p1, p2 = box.store(one, 'd', 'one.toron'), box.store(two, 'd', 'two.toron')
        before = dump(p1), dump(p2)
        status, _, problem = cli.run([p1] + [p2 if x == '@' else x for x in args] +
                                     (['--no-backup'] if mode == 'none' else []), stdin)
        r.count('commands')
        r.count('half_cases')
        after = dump(p1), dump(p2)
        key = f'half:{what}:{holders}:{mode}'
        if bool(status) != bool(holders):
            r.fail(key, f'{what} with a conflict in {holders or "no file"}: status {status} {problem!r}', case)
        if status and after != before:
            r.fail(key, f'{what} with a conflict in FILE{"+".join(holders)}: fails with status {status}, but '
                   f'changed a file: {what_differs(before[0], after[0]) or what_differs(before[1], after[1])}', case)
        r.outcome((what, holders, status))
    return r


def clash_case(case):
    """FILE2 has the name FILE1's backup would get."""
    _, args, stdin, swap = case
    r = Result()
    with Box() as box:
        p1, p2 = backup_files(box, (('d', 'x.toron'), ('d', 'backup-x.toron')))
        before = dump(p1), dump(p2)
        q1, q2 = (p2, p1) if swap else (p1, p2)
        status, _, problem = cli.run([q1] + [q2 if x == '@' else x for x in args], stdin)
        r.count('commands')
        kept = [dump(os.path.join(box.path('d'), x)) for x in os.listdir(box.path('d'))]
        for n in (0, 1):
            if before[n] not in kept:
                r.fail(f'clash:{args[0]}:{swap}', f'{args}: the state of FILE{n + 1} before the command is lost '
                       f'(status {status})', case)
    return r


# --------------------------------------------------------------------------
# The real program, with pipes
# --------------------------------------------------------------------------
PROGRAM = [sys.executable, '-c', 'import sys; from toron.cli.main import main; sys.exit(main(sys.argv[1:]))']


def piped(argv, stdin, env):
    """Run the program; stdin None: a terminal."""
    environ = dict(os.environ, PYTHONPATH=os.path.join(core.REPO, 'src'), **env)
    if stdin is None:
        leader, follower = os.openpty()
        try:
            done = subprocess.run(PROGRAM + argv, stdin=follower, capture_output=True, env=environ, timeout=120)
        finally:
            os.close(leader)
            os.close(follower)
    else:
        done = subprocess.run(PROGRAM + argv, input=stdin, capture_output=True, env=environ, timeout=120)
    return done.returncode, done.stdout, done.stderr


ENVIRONMENTS = {
    'utf8': {'PYTHONUTF8': '1'},
    'C': {'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'},
    'latin1': {'PYTHONIOENCODING': 'latin-1'},
    'cp1252': {'PYTHONIOENCODING': 'cp1252:replace'},
}


def process_case(case):
    _, kind, labels, env = case
    r = Result()
    env = ENVIRONMENTS[env]
    cols = ['A', 'B']
    records = [(x, 'b') for x in labels]
    spec = dict(cols=cols, records=records, groups=['w'])
    with Box() as box:
        if kind == 'index':
            sp = base_space(**spec)
            sp.insert_weights('w', [['A', 'B', 'w']] + [[*x, 1.5] for x in records])
            full = box.store(sp, 'f.toron')
            status, out, err = piped([full, 'index'], None, env)
            if status:
                r.fail('process-export', f'status {status} {err!r}', case)
                return r
            table = rows_of(out)
            if sorted(tuple(x[1:3]) for x in table[1:]) != sorted(records + [('-', '-')]):
                r.fail('process-export', f'{table!r}', case)
            before = dump(full)
            status, _, err = piped([full, 'index', '--on-weight-conflict', 'replace'], out, env)
            if status or not same(before, dump(full)):
                r.fail('process-same', f'index import into the same file: status {status} {err[-300:]!r} '
                       f'{what_differs(before, dump(full))}', case)
            fresh = DataSpace()
            fresh.add_index_columns(*cols)
            fresh.add_weight_group('w')
            path = box.store(fresh, 'n.toron')
            text = import_text([x[1:] for x in table]).encode('utf-8')
            status, _, err = piped([path, 'index'], text, env)
            have = sorted(tuple(x[1:]) for x in bind_file(path, mode='ro').select_index())
            if status or have != sorted(records + [('-', '-')]):
                r.fail('process-fresh', f'index import into an empty file: status {status} {err[-300:]!r} {have!r}',
                       case)
        elif kind == 'quantity':
            sp = base_space(**spec)
            sp.set_registered_attributes(['cat'])
            bare = box.store(sp, 'e.toron')
            sp.insert_quantities2(value_column='v', data=[['A', 'B', 'cat', 'v']] +
                                  [[*x, y, 2.5] for x in records for y in labels])
            full = box.store(sp, 'f.toron')
            status, out, err = piped([full, 'quantity'], None, env)
            if status:
                r.fail('process-export', f'status {status} {err!r}', case)
                return r
            status, _, err = piped([bare, 'quantity'], out, env)
            want = sorted(map(repr, sp.select_quantities2()))
            have = sorted(map(repr, bind_file(bare, mode='ro').select_quantities2()))
            if status or want != have:
                r.fail('process-quantity', f'quantity import: status {status} {err[-300:]!r} {have!r} instead of '
                       f'{want!r}', case)
        else:
            n = len(records)
            e1, e2, f1, f2 = mapping_files(box, spec, spec, [(i, i, (1, 1), 2.0) for i in range(1, n + 1)], 'm')
            status, out, err = piped([f1, 'mapping', f2, 'm'], None, env)
            if status:
                r.fail('process-export', f'status {status} {err!r}', case)
                return r
            status, _, err = piped([e1, 'mapping', e2, 'm', '--right'], out, env)
            if status or mappings(dump(e2)) != mappings(dump(f2)):
                r.fail('process-mapping', f'mapping import: status {status} {err[-300:]!r}', case)
            # The same by labels alone.
            e1, e2, f1, f2 = mapping_files(box, spec, spec, [], 'm')
            text = import_text([[c for i, c in enumerate(row) if i not in (0, 4)] for row in rows_of(out)])
            status, _, err = piped([e1, 'mapping', e2, 'm', '--right'], text.encode('utf-8'), env)
            have = [x[:2] + x[3:] for x in mappings(dump(e2))]
            if status or have != [(i, i, 2.0) for i in range(1, n + 1)]:
                r.fail('process-mapping', f'mapping import by labels: status {status} {err[-300:]!r} {have!r}', case)
        r.count('commands', 3)
        r.outcome((kind, len(out)))
    return r


KINDS = {'index': index_case, 'mapping': mapping_case, 'quantity': quantity_case, 'code': code_case,
         'foreign': foreign_case, 'late': late_case, 'backup': backup_case, 'clash': clash_case, 'half': half_case,
         'fault': fault_case, 'init': init_case,
         'process': process_case}


def tuples(x):
    return [tuple(i) for i in x]


def run_case(case):
    kind = case[0]
    case = list(case)
    if kind == 'index':
        case[2] = tuples(case[2])
    elif kind == 'mapping':
        for n in (1, 2):
            case[n] = dict(case[n], records=tuples(case[n]['records']))
        case[3] = [(a, b, tuple(level), v) for a, b, level, v in case[3]]
        case[5] = tuples(case[5])
    elif kind == 'quantity':
        case[1] = dict(case[1], records=tuples(case[1]['records']))
    return KINDS[kind](case)


# --------------------------------------------------------------------------
# Enumeration
# --------------------------------------------------------------------------
TEXTS = ['a', '01', '1', '1.0', 'a,b', 'say "hi"', '"', 'line\nbreak', 'car\rriage', 'both\r\nends', ' lead',
         'trail ', 'é', '日本', '😀', "it's", 'index_code', '99999999999999999999XAB', '5X', '=1+1', '-', '--x',
         'NULL', ';', '\t', 'a\\b', '1XABCDEF01', '\ufeffbom', 'nul\x00byte']
VALUES = [1.0, 0.0, 0.1, 1e300, 5e-324, 1 / 3, 12345678901234567.0]


def index_cases(thorough):
    w1 = {'w': [1.0, 2.5, 0.1]}
    for x in TEXTS:
        if x != '-':
            yield ['index', ['A'], [(x,)], [], {}, '', None]
        for y in TEXTS:
            if x == y:
                continue
            if thorough or TEXTS.index(y) == (TEXTS.index(x) + 1) % len(TEXTS):
                yield ['index', ['A', 'B'], [(x, y), (y, x), (x, 'x')], [], w1, '', None]
    recs = [('a', 'x'), ('a', 'y'), ('b', 'x')]
    states = [None, 0.0, 2.5] if thorough else [None, 2.5]
    for v1 in itertools.product(states, repeat=3):
        for v2 in itertools.product(states, repeat=3):
            yield ['index', ['A', 'B'], recs, [], {'w': list(v1), 'v2': list(v2)}, '', None]
    for v in VALUES:
        yield ['index', ['A', 'B'], recs, [], {'w': [v, 1.0, None]}, '', None]
    for holes in ([0], [1], [2], [0, 1], [1, 2], [0, 1, 2]):
        live = 3 - len(holes)
        yield ['index', ['A', 'B'], recs, holes, {'w': [1.0] * live}, '', None]
    for domain in ('dom', 'my dom', 'a,b', 'é "q"', 'x\ny'):
        yield ['index', ['A', 'B'], recs, [], w1, domain, None]
    for cols in (['index_code', 'B'], ['A', 'dom_index_code'], ['a b', 'x,y'], ['"q"', 'é'], ['unique_id', '1']):
        for domain in ('', 'dom'):
            yield ['index', cols, recs, [], w1, domain, None]
    for order in (('A', 1), ('C', -1), ('C', -2)):
        yield ['index', ['A', 'B', 'C'], [('a', 'b', 'c'), ('c', 'b', 'a')], [], {'w': [1.0, 2.0]}, '', order]
    for names in (('index_code',), ('dom_index_code', 'w'), ('a,b', 'w"')):
        for domain in ('', 'dom'):
            yield ['index', ['A', 'B'], recs, [], {n: [1.0, 2.0, None] for n in names}, domain, None]
    yield ['index', ['A', 'B'], [], [], {'w': []}, '', None]
    many = [(f'r{i}', str(i)) for i in range(12)]
    yield ['index', ['A', 'B'], many, [], {'w': [float(i) for i in range(12)]}, '', None]


def mapping_cases(thorough):
    two = dict(cols=['A', 'B'], records=[('a', 'x'), ('a', 'y')])
    three = dict(cols=['A', 'B'], records=[('a', 'x'), ('a', 'y'), ('b', 'x')], partitions=[['A']])
    one = dict(cols=['A'], records=[('p',)])
    cols1 = dict(cols=['P', 'Q'], records=[('a', 'x'), ('a', 'y'), ('b', 'z')])
    options = [['--right'], ['--right', '--flip'], [], ['--right', '--match-limit', '9', '--no-backup'],
               ['--right', '--match-limit', '9', '--allow-overlapping']]
    options[1] = ['--flip']
    short = options[:2] + options[4:]
    full = (1, 1)
    # All sets of pairs.
    pairs = [(a, b) for a in range(3) for b in range(3) if a or b]
    for k in range(len(pairs) + 1 if thorough else 4):
        for chosen in itertools.combinations(pairs, k):
            rows = [(a, b, full, VALUES[n % len(VALUES)]) for n, (a, b) in enumerate(chosen)]
            yield ['mapping', two, two, rows, 'm', [], options if thorough else short]
    for k in range(4):
        for chosen in itertools.combinations([(0, 1), (1, 0), (1, 1)], k):
            yield ['mapping', one, one, [(a, b, (1,), 2.0) for a, b in chosen], 'm', [], options]
            yield ['mapping', one, dict(one, records=[]), [(a, 0, (1,), 2.0) for a, b in chosen if a and not b],
                   'm', [], options]
    # Other links, before and after.
    for k in range(len(pairs) + 1 if thorough else 3):
        for chosen in itertools.combinations(pairs, k):
            rows = [(a, b, full, VALUES[n % len(VALUES)]) for n, (a, b) in enumerate(chosen)]
            for before in ([], ['lacking'], ['default'], ['same name']):
                for after in ([], ['lacking'], ['default'], ['same name']):
                    if before != after and (thorough or k < 2 or before == [] or after == []):
                        yield ['mapping', dict(two, decoys=[before, after]), two, rows, 'm', [], short[:2]]
    # Levels: every pair unmapped, exact, coarse or both.
    pairs = [(1, 1), (1, 2), (2, 3), (3, 3)] if not thorough else [(1, 1), (1, 2), (2, 2), (2, 3), (3, 3)]
    for kinds in itertools.product(range(4), repeat=len(pairs)):
        rows = []
        for (a, b), kind in zip(pairs, kinds):
            if kind in (1, 3):
                rows.append((a, b, full, 1.5))
            if kind in (2, 3):
                rows.append((a, b, (1, 0), 4.0))
        yield ['mapping', cols1, three, rows, 'm', [], short]
        if thorough:
            yield ['mapping', three, three, rows, 'm', [], options]
    many = dict(cols=['A', 'B', 'C'], records=[('a', 'x', '1'), ('a', 'y', '2')],
                partitions=[['A'], ['A', 'B'], ['C'], ['B', 'C']])
    for l1 in ((1, 1, 1), (1, 0, 0), (1, 1, 0), (0, 0, 1), (0, 1, 1)):
        for l2 in ((1, 1, 1), (1, 0, 0), (1, 1, 0), (0, 0, 1), (0, 1, 1)):
            yield ['mapping', two, many, [(1, 1, l1, 1.0), (2, 2, l2, 2.0)], 'm', [], options]
    # Levels of two bytes.
    cols = list('ABCDEFGHIJ')
    wide = dict(cols=cols, records=[tuple('p' * 9 + c) for c in 'xy'],
                partitions=[['A'], ['A', 'I', 'J'], ['J'], ['B', 'H'], ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'H']])
    levels = [tuple(int(c in names) for c in cols) for names in ('ABCDEFGHIJ', 'A', 'AIJ', 'J', 'BH', 'ABCDEFGH')]
    for l1, l2 in itertools.product(levels, repeat=2):
        yield ['mapping', two, wide, [(1, 1, l1, 1.0), (2, 2, l2, 2.0)], 'm', [], short]
    # Texts.
    for i, x in enumerate(TEXTS):
        y = TEXTS[(i + 1) % len(TEXTS)]
        sp = dict(cols=['A', 'B'], records=[(x, y), (y, x)])
        yield ['mapping', sp, sp, [(1, 1, full, 1.0), (2, 2, full, 2.0)], 'm', [], options]
        yield ['mapping', sp, sp, [(1, 2, full, 1.0)], 'm', [], options]
    # Names.
    exact = [(1, 1, full, 1.0), (2, 2, full, 2.0)]
    for names1 in (['A', 'B'], ['m', 'B'], ['A', 'index_code'], ['1', '2'], ['ambiguous_fields', 'B']):
        for names2 in (['A', 'B'], ['m', 'B'], ['A', 'm'], ['A', 'index_code'], ['A', 'ambiguous_fields'],
                       ['x, y', 'z'], ['p --> q', 'z']):
            for records in ([('a', 'x'), ('b', 'y')], [('1', '2'), ('3', '4')]):
                for rows in (exact, exact[:1], [(1, 1, (1, 0), 1.0), (2, 2, (1, 0), 3.0)]):
                    if 'ambiguous_fields' in names2 and not all(rows[0][2]):
                        continue    # see ASSUMPTIONS
                    yield ['mapping', dict(cols=names1, records=records),
                           dict(cols=names2, records=records, partitions=[[names2[0]]]), rows, 'm', [], short]
    for domain1, domain2 in itertools.product(('', 'd', 'my dom', 'a,b\n'), repeat=2):
        yield ['mapping', dict(two, domain=domain1), dict(two, domain=domain2), exact, 'm', [], short]
    for link in ('my link', 'l,k', 'index_code', 'A', 'x"y', 'é'):
        yield ['mapping', two, two, exact, link, [], short]
    # Deleted records.
    for drop in ([('a', 'x')], [('b', 'z')], [('a', 'x'), ('a', 'y')]):
        for k in range(1, 4):
            for chosen in itertools.combinations([(1, 1), (2, 2), (3, 3), (3, 1)], k):
                yield ['mapping', cols1, three, [(a, b, full, 1.0) for a, b in chosen], 'm', drop, short]
    for holes1, holes2 in itertools.product(([], [0], [1]), repeat=2):
        rows = [(a, b, full, 1.0) for a, b in ((1, 1), (2, 2), (3, 3)) if a - 1 not in holes1 and b - 1 not in holes2]
        yield ['mapping', dict(cols1, holes=holes1), dict(three, holes=holes2), rows, 'm', [], options]


def quantity_cases(thorough):
    spec = dict(cols=['A', 'B'], records=[('a', 'x'), ('a', 'y'), ('b', 'x')], partitions=[['A']])
    lines = [('a', 'x', 'p', '', 1.0), ('a', 'x', 'p', 'q', 2.5), ('a', '', 'p', '', 0.1), ('', 'x', 'p', '', 3.0),
             ('zz', 'x', '', 'q', 4.0), ('b', 'x', '', 'q', -5.0), ('', '', 'p', 'q', 1e300),
             ('a', 'y', '', '', 9.0)]
    for k in range(len(lines) + 1 if thorough else 4):
        for chosen in itertools.combinations(lines, k):
            yield ['quantity', spec, ['cat', 'sex'], chosen, None]
    for domain in ('dom', 'my dom', 'a,b', 'é "q"', 'x\ny', ' pad '):
        yield ['quantity', dict(spec, domain=domain), ['cat', 'sex'], lines[:3], None]
    for order in (('cat', 1), ('sex', -1)):
        yield ['quantity', spec, ['cat', 'sex'], lines[:3], order]
    for i, x in enumerate(TEXTS):
        y = TEXTS[(i + 1) % len(TEXTS)]
        sp = dict(cols=['A', 'B'], records=[(x, y), (y, x)], partitions=[['A']])
        yield ['quantity', sp, ['cat', 'sex'], [(x, y, x, y, 1.0), (y, x, y, '', 2.0), (x, '', x, '', 3.0)], None]
    for attrs in (['a b', 'c,d'], ['é', '1'], ['"', 'x']):
        yield ['quantity', spec, attrs, lines[:3], None]
    for v in VALUES:
        yield ['quantity', spec, ['cat', 'sex'], [('a', 'x', 'p', '', v)], None]
    for n in (0, 1, 2):
        yield ['quantity', dict(cols=['A', 'B', 'C'], records=[('a', 'b', 'c')], order=('A', n)), ['cat'],
               [('a', 'b', 'c', 'p', 1.0)], None]


def walk(ctx, phases, what):
    sys.unraisablehook = lambda unraisable: None    # cursors of refused imports complain when collected
    for name, cases in phases:
        n = ctx.run(run_case, cases, batch=1 if name in ('code', 'process', 'foreign256', 'fault') else None, label=name)
        ctx.cov[name] = n
        if ctx.stopped() or ctx.out_of_time():
            break
    ctx.counts['transitions'] = sum(ctx.counts.get(k, 0) for k in ('commands', 'foreign_codes', 'late_codes',
                                                                   'altered_codes'))
    ctx.counts['states'] = sum(ctx.cov.get(name, 0) for name, _ in phases)
    ctx.counts['traces_validated_against_impl'] = ctx.counts['transitions']
    ctx.cov.update({'what': what, 'evidence_unit': 'command runs'})


def explore(ctx):
    thorough = ctx.thorough
    walk(ctx, [
        ('index', list(index_cases(thorough))),
        ('mapping', list(mapping_cases(thorough))),
        ('quantity', list(quantity_cases(thorough))),
        ('process', [['process', kind, [x, 'plain'] if not thorough else [x, x + '!'], env]
                     for kind in ('index', 'mapping', 'quantity')
                     for env in ENVIRONMENTS
                     for x in TEXTS if '\0' not in x and x != '-' and
                     (thorough or x in ('car\rriage', 'both\r\nends', '日本', 'a,b'))]),
    ], 'every listed file content exported and re-imported with every listed option')
