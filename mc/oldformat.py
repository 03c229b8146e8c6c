"""Write files of the older formats (schema versions 0.2.0 and 0.3.0).

The tables of 0.2.0 are those of the repository's own migration tests; the
contents come from a file of the current format, so that an upgraded file can
be compared with the file it was made from.
"""
import json
import os
import sqlite3
from . import core, real

COPY = ('weight_group', 'weight', 'attribute_group')


def quote(name):
    return '"' + name.replace('"', '""') + '"'


DDL_020 = """
CREATE TABLE weight_group(
    weight_group_id INTEGER PRIMARY KEY,
    name TEXT NOT NULL,
    description TEXT,
    selectors TEXT_SELECTORS,
    is_complete INTEGER NOT NULL CHECK (is_complete IN (0, 1)) DEFAULT 0,
    UNIQUE (name)
);
CREATE TABLE weight(
    weight_id INTEGER PRIMARY KEY,
    weight_group_id INTEGER,
    index_id INTEGER CHECK (index_id > 0),
    weight_value REAL NOT NULL,
    FOREIGN KEY(weight_group_id) REFERENCES weight_group(weight_group_id) ON DELETE CASCADE,
    FOREIGN KEY(index_id) REFERENCES node_index(index_id) DEFERRABLE INITIALLY DEFERRED,
    UNIQUE (index_id, weight_group_id)
);
CREATE TABLE attribute_group(
    attribute_group_id INTEGER PRIMARY KEY,
    attributes TEXT_ATTRIBUTES NOT NULL,
    UNIQUE (attributes)
);
CREATE TABLE quantity(
    quantity_id INTEGER PRIMARY KEY,
    _location_id INTEGER,
    attribute_group_id INTEGER,
    quantity_value NUMERIC NOT NULL,
    FOREIGN KEY(_location_id) REFERENCES location(_location_id) ON DELETE CASCADE,
    FOREIGN KEY(attribute_group_id) REFERENCES attribute_group(attribute_group_id) ON DELETE CASCADE
);
CREATE TABLE crosswalk(
    crosswalk_id INTEGER PRIMARY KEY,
    other_unique_id TEXT NOT NULL,
    other_filename_hint TEXT,
    name TEXT NOT NULL,
    description TEXT,
    selectors TEXT_SELECTORS,
    is_default INTEGER CHECK (is_default IS NULL OR is_default=1) DEFAULT NULL,
    user_properties TEXT_USERPROPERTIES,
    other_index_hash TEXT,
    is_locally_complete INTEGER NOT NULL CHECK (is_locally_complete IN (0, 1)) DEFAULT 0,
    UNIQUE (name, other_unique_id),
    UNIQUE (is_default, other_unique_id)
);
CREATE TABLE relation(
    relation_id INTEGER PRIMARY KEY,
    crosswalk_id INTEGER,
    other_index_id INTEGER NOT NULL CHECK (TYPEOF(other_index_id) = "integer"),
    index_id INTEGER,
    mapping_level BLOB_BITFLAGS,
    relation_value REAL NOT NULL CHECK (TYPEOF(relation_value) = "real" AND 0.0 <= relation_value),
    proportion REAL CHECK (0.0 <= proportion AND proportion <= 1.0),
    FOREIGN KEY(crosswalk_id) REFERENCES crosswalk(crosswalk_id) ON DELETE CASCADE,
    FOREIGN KEY(index_id) REFERENCES node_index(index_id) DEFERRABLE INITIALLY DEFERRED,
    UNIQUE (crosswalk_id, other_index_id, index_id)
);
CREATE TABLE property(
    key TEXT PRIMARY KEY NOT NULL,
    value TEXT_JSON
);
CREATE TRIGGER trigger_on_update_for_undefined
    BEFORE UPDATE ON main.node_index FOR EACH ROW WHEN OLD.index_id = 0
    BEGIN
        SELECT RAISE(FAIL, 'cannot modify undefined record (index_id 0)');
    END;
CREATE TRIGGER trigger_on_delete_for_undefined
    BEFORE DELETE ON main.node_index FOR EACH ROW WHEN OLD.index_id = 0
    BEGIN
        SELECT RAISE(FAIL, 'cannot delete undefined record (index_id 0)');
    END;
"""

# How 0.2.0 spelled the domain, and what it is now.
DOMAINS = {
    'plain': lambda d: {'domain': d},
    'empty': lambda d: {},
    'absent': lambda d: None,
    'two': lambda d: {'foo': 'bar', 'baz': 'qux'},
    'other': lambda d: {'state': 'OH'},
    'odd': lambda d: {'domain': d, 'a"b': "it's", 'ü': '\\'},
}


def domain_now(style, d):
    return {'plain': d, 'empty': '', 'absent': '', 'two': 'baz_qux_foo_bar', 'other': 'state_OH',
            'odd': f'a"b_it\'s_domain_{d}_ü_\\'}[style]


def rows(con, table):
    cur = con.execute(f'SELECT * FROM {table}')
    return [d[0] for d in cur.description], cur.fetchall()


def downgrade(path, version, *, domain='plain', null_levels='whole', split=True, undefined=True, constraints=True,
              quoted=True, page_size=None):
    """The path of a new file of format *version* with the contents of *path*."""
    out = core.scratch_path('.toron')
    src = sqlite3.connect(path)
    con = sqlite3.connect(out, isolation_level=None)
    try:
        con.execute('PRAGMA foreign_keys=OFF')
        if page_size:
            con.execute(f'PRAGMA page_size={page_size}')
        if version == '0.3.0':
            src.backup(con)
            con.execute("DELETE FROM property WHERE key IN ('user_properties', 'created_date')")
            con.execute("UPDATE property SET value=? WHERE key='toron_schema_version'",
                        ('"0.3.0"' if quoted else '0.3.0',))
            return out
        assert version == '0.2.0'
        con.execute(f'PRAGMA application_id={src.execute("PRAGMA application_id").fetchone()[0]}')
        con.execute(f'PRAGMA user_version={src.execute("PRAGMA user_version").fetchone()[0]}')
        con.execute('BEGIN')
        labels = [r[1] for r in src.execute('PRAGMA table_info(label_index)')][1:]
        q = [quote(c) for c in labels]

        def columns(text):
            return ''.join(', ' + text.format(c) for c in q)
        con.execute('CREATE TABLE node_index(index_id INTEGER PRIMARY KEY AUTOINCREMENT'
                    + columns("{0} TEXT NOT NULL CHECK ({0} != '') DEFAULT '-'") + ')')
        con.execute('CREATE TABLE location(_location_id INTEGER PRIMARY KEY' + columns("{0} TEXT NOT NULL DEFAULT ''") + ')')
        con.execute('CREATE TABLE structure(_structure_id INTEGER PRIMARY KEY, _granularity REAL'
                    + columns('{0} INTEGER NOT NULL CHECK ({0} IN (0, 1)) DEFAULT 0') + ')')
        for statement in split_script(DDL_020):
            con.execute(statement)

        def copy(old, new, change=lambda r: r):
            names, data = rows(src, old)
            for r in data:
                r = change(r)
                if r is not None:
                    con.execute(f'INSERT INTO {new} VALUES ({", ".join("?" * len(r))})', r)
        copy('label_index', 'node_index')
        copy('label_location', 'location')
        copy('label_structure', 'structure')
        for t in COPY:
            copy(t, t)
        copy('link', 'crosswalk')
        whole = real.pack([1] * len(labels))

        def relation(r):
            level = None if null_levels == 'whole' and r[4] == whole else r[4]
            return r[:4] + (level,) + r[5:]
        copy('mapping', 'relation', relation)
        top = con.execute('SELECT MAX(relation_id) FROM relation').fetchone()[0] or 0
        if undefined:
            for (link,) in src.execute('SELECT link_id FROM link').fetchall():
                top += 1
                con.execute('INSERT INTO relation VALUES (?, ?, 0, 0, NULL, 0.0, 1.0)', (top, link))
        # 0.2.0 kept several values for one location and attribute group.
        extra = src.execute('SELECT MAX(quantity_id) FROM quantity').fetchone()[0] or 0
        names, data = rows(src, 'quantity')
        later = []
        for k, (qid, loc, group, value) in enumerate(data):
            if split and value is not None:
                part = 0.25 * (k + 1)
                for v in ([part] if k % 2 else [part, -part / 2]):
                    later.append((loc, group, v))
                    value -= v
            con.execute('INSERT INTO quantity VALUES (?, ?, ?, ?)', (qid, loc, group, value))
        for loc, group, v in later:
            extra += 1
            con.execute('INSERT INTO quantity VALUES (?, ?, ?, ?)', (extra, loc, group, v))
        names, data = rows(src, 'property')
        text = None
        for k, v in data:
            if k in ('user_properties', 'created_date', 'registered_attributes'):
                continue
            if k == 'toron_schema_version':
                v = '"0.2.0"' if quoted else '0.2.0'
            elif k == 'partition_definitions':
                k = 'discrete_categories'
            elif k == 'domain':
                text = json.loads(v)
                continue
            con.execute('INSERT INTO property VALUES (?, ?)', (k, v))
        d = DOMAINS[domain](text or '')
        if d is not None:
            con.execute("INSERT INTO property VALUES ('domain', ?)", (json.dumps(d),))
        if constraints and labels:
            c = ', '.join(q)
            con.execute(f'CREATE UNIQUE INDEX unique_index_label_columns ON node_index({c})')
            con.execute(f'CREATE UNIQUE INDEX unique_location_label_columns ON location({c})')
            con.execute(f'CREATE UNIQUE INDEX unique_structure_label_columns ON structure({c})')
        con.execute('DELETE FROM sqlite_sequence')
        for name, seq in src.execute('SELECT name, seq FROM sqlite_sequence').fetchall():
            con.execute('INSERT INTO sqlite_sequence VALUES (?, ?)', (
                {'label_index': 'node_index'}.get(name, name), seq))
        con.execute('COMMIT')
        return out
    finally:
        con.close()
        src.close()


def split_script(text):
    out, part = [], ''
    for piece in text.split(';'):
        part += piece + ';'
        if sqlite3.complete_statement(part):
            out.append(part)
            part = ''
    return out


def dump(path):
    """All rows of all tables whatever the format, and the schema."""
    con = sqlite3.connect(f'file:{path}?mode=ro', uri=True)
    try:
        out = {}
        for kind, name, sql in con.execute('SELECT type, name, sql FROM sqlite_master').fetchall():
            out[f'{kind} {name}'] = ' '.join((sql or '').split())
            if kind == 'table':
                data = con.execute(f'SELECT * FROM {quote(name)}').fetchall()
                if name == 'property':
                    data = [(k, '<now>' if k == 'created_date' else v) for k, v in data]
                out[f'rows {name}'] = sorted(data, key=repr)
        for pragma in ('application_id', 'user_version', 'foreign_key_check', 'integrity_check'):
            out[pragma] = con.execute(f'PRAGMA {pragma}').fetchall()
        return out
    finally:
        con.close()


def structure(path):
    """Tables, columns, keys and triggers, however they are spelled."""
    con = sqlite3.connect(f'file:{path}?mode=ro', uri=True)
    try:
        out = {}
        for kind, name in con.execute("SELECT type, name FROM sqlite_master WHERE name NOT LIKE 'sqlite_%'").fetchall():
            item = out[kind, name] = {}
            if kind == 'table':
                item['columns'] = [tuple(r[1:]) for r in con.execute(f'PRAGMA table_info({quote(name)})')]
                item['keys'] = sorted(r[2:] for r in con.execute(f'PRAGMA foreign_key_list({quote(name)})'))
                item['unique'] = sorted(
                    (r[2], r[3], [c[2] for c in con.execute(f'PRAGMA index_info({quote(r[1])})')])
                    for r in con.execute(f'PRAGMA index_list({quote(name)})').fetchall())
        out['application'] = [con.execute(f'PRAGMA {p}').fetchone()[0] for p in ('application_id', 'user_version')]
        return out
    finally:
        con.close()
