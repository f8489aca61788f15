"""Files of earlier formats: writes them, reads what they hold without the code
under test, and opens them in every way, disturbed or not (spec/Migrate.tla).
"""
import hashlib
import json
import os
import random
import shutil
import signal
import sqlite3

import common
import faults
import gen
import observe
import space
from observe import _num, _fix, _sels, _bits, canon

from toron import DataSpace, read_file, bind_file

MODES = ('mem', 'drive', 'ro', 'rw', 'rwc')
OLD = '''
CREATE TABLE node_index(index_id INTEGER PRIMARY KEY AUTOINCREMENT{index});
CREATE TABLE location(_location_id INTEGER PRIMARY KEY{location});
CREATE TABLE structure(_structure_id INTEGER PRIMARY KEY, _granularity REAL{structure});
CREATE TABLE weight_group(weight_group_id INTEGER PRIMARY KEY, name TEXT NOT NULL, description TEXT, selectors TEXT_SELECTORS,
    is_complete INTEGER NOT NULL CHECK (is_complete IN (0, 1)) DEFAULT 0, UNIQUE (name));
CREATE TABLE weight(weight_id INTEGER PRIMARY KEY, weight_group_id INTEGER, index_id INTEGER CHECK (index_id > 0),
    weight_value REAL NOT NULL,
    FOREIGN KEY(weight_group_id) REFERENCES weight_group(weight_group_id) ON DELETE CASCADE,
    FOREIGN KEY(index_id) REFERENCES node_index(index_id) DEFERRABLE INITIALLY DEFERRED,
    UNIQUE (index_id, weight_group_id));
CREATE TABLE attribute_group(attribute_group_id INTEGER PRIMARY KEY, attributes TEXT_ATTRIBUTES NOT NULL, UNIQUE (attributes));
CREATE TABLE quantity(quantity_id INTEGER PRIMARY KEY, _location_id INTEGER, attribute_group_id INTEGER,
    quantity_value NUMERIC NOT NULL,
    FOREIGN KEY(_location_id) REFERENCES location(_location_id) ON DELETE CASCADE,
    FOREIGN KEY(attribute_group_id) REFERENCES attribute_group(attribute_group_id) ON DELETE CASCADE);
CREATE TABLE crosswalk(crosswalk_id INTEGER PRIMARY KEY, other_unique_id TEXT NOT NULL, other_filename_hint TEXT,
    name TEXT NOT NULL, description TEXT, selectors TEXT_SELECTORS,
    is_default INTEGER CHECK (is_default IS NULL OR is_default=1) DEFAULT NULL, user_properties TEXT_USERPROPERTIES,
    other_index_hash TEXT, is_locally_complete INTEGER NOT NULL CHECK (is_locally_complete IN (0, 1)) DEFAULT 0,
    UNIQUE (name, other_unique_id), UNIQUE (is_default, other_unique_id));
CREATE TABLE relation(relation_id INTEGER PRIMARY KEY, crosswalk_id INTEGER,
    other_index_id INTEGER NOT NULL CHECK (TYPEOF(other_index_id) = 'integer'), index_id INTEGER,
    mapping_level BLOB_BITFLAGS,
    relation_value REAL NOT NULL CHECK (TYPEOF(relation_value) = 'real' AND 0.0 <= relation_value),
    proportion REAL CHECK (0.0 <= proportion AND proportion <= 1.0),
    FOREIGN KEY(crosswalk_id) REFERENCES crosswalk(crosswalk_id) ON DELETE CASCADE,
    FOREIGN KEY(index_id) REFERENCES node_index(index_id) DEFERRABLE INITIALLY DEFERRED,
    UNIQUE (crosswalk_id, other_index_id, index_id));
CREATE TABLE property(key TEXT PRIMARY KEY NOT NULL, value TEXT_JSON);
'''
TRIGGERS = '''
CREATE TRIGGER trigger_on_update_for_undefined BEFORE UPDATE ON main.node_index FOR EACH ROW WHEN OLD.index_id = 0
    BEGIN SELECT RAISE(FAIL, 'cannot modify undefined record (index_id 0)'); END;
CREATE TRIGGER trigger_on_delete_for_undefined BEFORE DELETE ON main.node_index FOR EACH ROW WHEN OLD.index_id = 0
    BEGIN SELECT RAISE(FAIL, 'cannot delete undefined record (index_id 0)'); END;
'''
FLAWS = ('version', 'noversion', 'orphan', 'orphanloc', 'nullq', 'dom', 'orphanlink')


def quoted(c):
    return '"' + c.replace('"', '""') + '"'


def to_020(src, dst, r):
    """Rewrite the current file src as a file of version 0.2.0."""
    a, b = sqlite3.connect(src), sqlite3.connect(dst)
    q = lambda sql: a.execute(sql).fetchall()
    cols = [x[1] for x in q("pragma table_info('label_index')")][1:]
    defs = lambda t: ''.join(', ' + t.format(c=quoted(c)) for c in cols)
    b.executescript(OLD.format(index=defs("{c} TEXT NOT NULL CHECK ({c} != '') DEFAULT '-'"),
                               location=defs("{c} TEXT NOT NULL DEFAULT ''"),
                               structure=defs('{c} INTEGER NOT NULL CHECK ({c} IN (0, 1)) DEFAULT 0')))

    def put(table, rows):
        for x in rows:
            b.execute(f'insert into {table} values ({",".join("?" * len(x))})', x)
    put('node_index', q('select * from label_index'))
    put('location', q('select * from label_location'))
    put('structure', q('select * from label_structure'))
    for t in ('weight_group', 'weight', 'attribute_group'):
        put(t, q('select * from ' + t))
    put('crosswalk', q('select * from link'))
    parts = []
    for _, l, g, v in q('select * from quantity'):
        n = r.choice([1, 1, 2, 3])
        cut = [r.randrange(-3, 9) * observe.UNIT for _ in range(n - 1)]
        parts += [(l, g, x) for x in cut + [v - sum(cut)]]
    r.shuffle(parts)
    put('quantity', [(k + 1, *x) for k, x in enumerate(parts)])
    pairs, rows = set(), []
    maps = q('select * from mapping')
    r.shuffle(maps)
    full = space.bits_to_bytes([1] * len(cols))
    for _, l, o, i, lv, v, p in maps:
        if (l, o, i) not in pairs:
            pairs.add((l, o, i))
            rows.append([l, o, i, None if bytes(lv) == full and r.random() < 0.6 else lv, float(v), p])
    for x in rows:
        if x[1] != 0 and x[5] is not None:
            same = [y[4] for y in rows if y[0] == x[0] and y[1] == x[1]]
            x[5] = x[4] / sum(same) if sum(same) else 1 / len(same)
    for (l,) in q('select link_id from link'):
        if r.random() < 0.5:
            rows.append([l, 0, 0, r.choice([None, full]), float(r.choice([0, 3])) * observe.UNIT, 1.0])
    r.shuffle(rows)
    put('relation', [(k + 1, *x) for k, x in enumerate(rows)])
    for k, v in q('select key, value from property'):
        if k == 'toron_schema_version':
            v = '"0.2.0"'
        elif k == 'partition_definitions':
            k = 'discrete_categories'
        elif k == 'domain':
            d = json.loads(v)
            if r.random() < 0.3:
                d2 = r.choice([{'foo': d or 'z', 'baz': 'qux'}, {'b': 'x', 'a': d or 'y', 'C': "q'"}, {'other': 'one'}, {}])
            else:
                d2 = {'domain': d}
            if not d and r.random() < 0.5:
                continue
            v = json.dumps(d2)
        elif k in ('registered_attributes', 'user_properties', 'created_date', 'label_display_order'):
            continue
        put('property', [(k, v)])
    if cols:
        names = ', '.join(quoted(c) for c in cols)
        for t, n in (('index', 'node_index'), ('location', 'location'), ('structure', 'structure')):
            b.execute(f'create unique index unique_{t}_label_columns on {n}({names})')
    b.executescript(TRIGGERS)
    b.execute('delete from sqlite_sequence')
    b.execute('insert into sqlite_sequence values (?, ?)',
              ('node_index', max([x[0] for x in q("select seq from sqlite_sequence where name='label_index'")] + [0])))
    for x in ('application_id', 'user_version'):
        b.execute(f'pragma {x} = {q("pragma " + x)[0][0]}')
    b.commit()
    a.close()
    b.close()


def to_030(src, dst, r):
    shutil.copyfile(src, dst)
    con = sqlite3.connect(dst)
    con.execute("delete from property where key in ('user_properties', 'created_date')")
    con.execute("update property set value='\"0.3.0\"' where key='toron_schema_version'")
    con.commit()
    con.close()


def spoil(path, ver, flaw, r):
    """Make a file that cannot be migrated; False when it has nothing to spoil."""
    con = sqlite3.connect(path)
    one = lambda sql: con.execute(sql).rowcount > 0
    idx, loc, mp, lk = ('node_index', 'location', 'relation', 'crosswalk') if ver == '0.2.0' else \
        ('label_index', 'label_location', 'mapping', 'link')
    try:
        if flaw == 'version':
            return one(f"update property set value='{json.dumps(r.choice(['0.1.0', '0.4.0', '0.2.1', '1.0', '0.3']))}' "
                       "where key='toron_schema_version'")
        if flaw == 'noversion':
            return one("delete from property where key='toron_schema_version'")
        if flaw == 'orphan':
            return one('update weight set index_id=9999 where weight_id=(select max(weight_id) from weight)') if r.random() < 0.5 else \
                one(f'update {mp} set index_id=9999 where rowid=(select max(rowid) from {mp} where index_id>0)')
        if flaw == 'orphanloc':
            return one('update quantity set _location_id=9999 where quantity_id=(select max(quantity_id) from quantity)')
        if flaw == 'orphanlink':
            return one(f'update {mp} set {lk}_id=9999 where rowid=(select max(rowid) from {mp} where index_id>0)')
        if flaw == 'nullq' and ver == '0.2.0':
            return one('update quantity set _location_id=NULL where quantity_id=(select max(quantity_id) from quantity)')
        if flaw == 'dom' and ver == '0.2.0':
            return one("update property set value='" + r.choice(['"d1"', '["a", "b"]', '7']) + "' where key='domain'")
        return False
    finally:
        con.commit()
        con.close()


def version(con):
    row = con.execute("select value from property where key='toron_schema_version'").fetchone()
    return json.loads(row[0]) if row else ''


def extras(con, link):
    """What a space carries besides the state of the specification."""
    val = [con.execute("select value from property where key='unique_id'").fetchall(),
           con.execute("select value from property where key='toron_app_version'").fetchall(),
           sorted(con.execute(f'select other_unique_id, name, user_properties from {link}').fetchall(), key=repr)]
    return hashlib.sha1(repr(val).encode('utf-8', 'surrogatepass')).hexdigest()


def read_old(path, memo):
    """The content of a file of an earlier format (spec/Migrate.tla)."""
    con = sqlite3.connect(path)
    q = lambda sql: con.execute(sql).fetchall()
    try:
        tables = {x[0] for x in q("select name from sqlite_master where type='table'")}
        v2 = 'node_index' in tables
        idx, loc, st, mp, lk = ('node_index', 'location', 'structure', 'relation', 'crosswalk') if v2 else \
            ('label_index', 'label_location', 'label_structure', 'mapping', 'link')
        prop = {k: (None if v is None else json.loads(v)) for k, v in q('select key, value from property')}
        cols = [x[1] for x in q(f"pragma table_info('{idx}')")][1:]
        n = len(cols)
        o = {'ver': prop.get('toron_schema_version', ''), 'cols': cols}
        d = prop.get('domain')
        o['domk'] = 'none' if d is None else 'map' if isinstance(d, dict) else 'other'
        o['domd'] = [[k, str(d[k])] for k in sorted(d)] if isinstance(d, dict) else []
        o['dom'] = d if isinstance(d, str) else ''
        disp = list(prop.get('label_display_order') or [])
        o['disp'] = disp + [c for c in cols if c not in disp]
        o['attrs'] = list(prop.get('registered_attributes') or [])
        index = q(f'select * from {idx}')
        o['idx'] = canon([[x[0], list(x[1:])] for x in index])
        memo.learn([x[0] for x in index])
        o['seq'] = max([x[0] for x in q(f"select seq from sqlite_sequence where name='{idx}'")] + [0])
        o['ih'] = memo.decode(prop.get('index_hash'))
        groups = {x[0]: x for x in q('select weight_group_id, name, description, selectors, is_complete from weight_group')}
        gname = lambda k: groups[k][1] if k in groups else '#orphan'
        o['grp'] = canon([[g[1], g[2] or '', _sels(g[3]), bool(g[4])] for g in groups.values()])
        k = prop.get('default_weight_group_id')
        o['dflt'] = '' if k is None else gname(k)
        o['wt'] = canon([[gname(a), b, _num(c)] for a, b, c in q('select weight_group_id, index_id, weight_value from weight')])
        links = {x[0]: x for x in q(f'select {lk}_id, other_unique_id, other_filename_hint, name, description, selectors, '
                                    f'is_default, other_index_hash, is_locally_complete from {lk}')}
        maps = q(f'select * from {mp}')
        for k in links:
            memo.learn({0} | {m[2] for m in maps if m[1] == k})
        lid = lambda k: [links[k][1], links[k][3]] if k in links else ['#orphan', '#orphan']
        o['lnk'] = canon([[l[1], l[3], l[2] or '', l[4] or '', _sels(l[5]), bool(l[6]), bool(l[8]), memo.decode(l[7])]
                          for l in links.values()])
        o['rel'] = canon([lid(m[1]) + [m[2], m[3], [-1] if m[4] is None else _bits(m[4], n), _num(m[5]), _fix(m[6], common.SCALE)]
                          for m in maps])
        pd = prop.get('discrete_categories' if v2 else 'partition_definitions') or []
        o['pd'] = canon([[1 if c in x else 0 for c in cols] for x in pd])
        o['st'] = canon([[list(x[2:]), _fix(x[1], 1000000)] for x in q(f'select * from {st}')])
        locs = {x[0]: list(x[1:]) for x in q(f'select * from {loc}')}
        o['loc'] = canon(list(locs.values()))
        ags = {x[0]: sorted([k, v] for k, v in json.loads(x[1]).items()) for x in q('select * from attribute_group')}
        o['ag'] = canon(list(ags.values()))
        missing = lambda k: ['#null'] if k is None else ['#orphan']
        o['q'] = canon([[locs.get(a, missing(a)), ags.get(b, [['#orphan', '']]), _num(c)]
                        for a, b, c in q('select _location_id, attribute_group_id, quantity_value from quantity')])
        o['alpha'] = sorted({k for x in ags.values() for k, _ in x})
        o['x'] = extras(con, lk)
        return o
    finally:
        con.close()


def shape(con):
    """The tables, columns, keys, indexes and triggers of a file."""
    out = []
    for (t,) in sorted(con.execute("select name from sqlite_master where type='table'").fetchall()):
        out.append([t, sorted(x[1:4] + x[5:] for x in con.execute(f"pragma table_info('{t}')")),
                    sorted(x[2:] for x in con.execute(f"pragma foreign_key_list('{t}')")),
                    sorted(([x[2], x[4]] + [[c[2] for c in con.execute(f"pragma index_info('{x[1]}')")]])
                           for x in con.execute(f"pragma index_list('{t}')"))])
    out.append(sorted(con.execute("select name from sqlite_master where type='trigger'").fetchall()))
    out.append([con.execute('pragma ' + x).fetchone() for x in ('application_id', 'user_version')])
    out.append(sorted(x for x, in con.execute("select key from property where key in "
                                              "('user_properties', 'created_date', 'toron_schema_version')")))
    out.append(version(con))
    return hashlib.sha1(repr(out).encode('utf-8', 'surrogatepass')).hexdigest()


def sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def write_old(o, path):
    """Write the file that holds the content o printed by TLC."""
    v2 = o['ver'] != '0.3.0'
    sp = DataSpace()
    sp.add_index_columns(*o['cols'])
    sp.to_file(path if not v2 else path + '.c', fsync=False)
    if v2:
        to_020(path + '.c', path, random.Random(0))
        os.unlink(path + '.c')
    con = sqlite3.connect(path)
    idx, loc, st, mp, lk = ('node_index', 'location', 'structure', 'relation', 'crosswalk') if v2 else \
        ('label_index', 'label_location', 'label_structure', 'mapping', 'link')
    put = lambda t, x: con.execute(f'insert into {t} values ({",".join("?" * len(x))})', x)
    prop = {'toron_schema_version': o['ver'], 'index_hash': common.ids_hash(o['ih']), 'default_weight_group_id': 1,
            'discrete_categories' if v2 else 'partition_definitions': [[c for c, b in zip(o['cols'], x) if b] for x in o['pd']]}
    if not v2:
        prop.update(domain=o['dom'], registered_attributes=o['attrs'])
    elif o['domk'] != 'none':
        prop['domain'] = {k: v for k, v in o['domd']} if o['domk'] == 'map' else ['x']
    for k in ('domain', 'registered_attributes', 'label_display_order'):
        con.execute('delete from property where key=?', (k,))
    if not v2:
        con.execute("delete from property where key in ('user_properties', 'created_date')")
    for k, v in prop.items():
        con.execute('insert or replace into property values (?, ?)', (k, json.dumps(v)))
    if not o['ver']:
        con.execute("delete from property where key='toron_schema_version'")
    for i, lab in o['idx']:
        if i:
            put(idx, [i] + lab)
    con.execute('delete from sqlite_sequence')
    con.execute('insert into sqlite_sequence values (?, ?)', (idx, o['seq']))
    con.execute(f'delete from {st}')
    for k, (b, g) in enumerate(o['st']):
        put(st, [k + 1, None if g == -1 else g / 1000000] + b)
    for name, desc, sels, full in o['grp']:
        put('weight_group', [1, name, None, None, int(full)])
    for k, (g, i, v) in enumerate(o['wt']):
        put('weight', [k + 1, 1, i, v])
    for u, nm, hint, desc, sels, dflt, full, ih in o['lnk']:
        put(lk, [1, u, hint, nm, None, None, 1, None, common.ids_hash(ih), int(full)])
    for k, x in enumerate(o['rel']):
        put(mp, [k + 1, 1, x[2], x[3], None if x[4] == [-1] else space.bits_to_bytes(x[4]), float(x[5]), x[6] / common.SCALE])
    locs, ags = {}, {}
    for x in o['loc']:
        locs[tuple(x)] = len(locs) + 1
        put(loc, [len(locs)] + x)
    for x in o['ag']:
        ags[json.dumps(sorted(x))] = len(ags) + 1
        put('attribute_group', [len(ags), json.dumps(dict(x), sort_keys=True)])
    for k, (lab, at, v) in enumerate(o['q']):
        put('quantity', [k + 1, locs[tuple(lab)], ags[json.dumps(sorted(at))], v])
    con.commit()
    con.close()


class Attic:
    """Old files made from one random space, opened one after another."""

    def __init__(self, seed, workdir, length):
        self.seed = seed
        self.r = random.Random(seed * 3 + 2)
        self.dir = workdir
        self.g = gen.Gen(seed, 'mixed', boom=0)
        self.others = {u: space.make_other(u, workdir) for u in gen.UIDS}
        self.sub = space.Subject(workdir, self.others, 'rw')
        self.memo = self.sub.memo
        self.init, self.used = self.sub.state, self.sub.used
        for make in self.g.script(self.sub.state):
            ev = make(self.sub.state)
            ev.setdefault('fs', self.r.randrange(1 << 30))
            self.sub.run(ev)
        for _ in range(length):
            ev = self.g.event(self.sub.state)
            if ev['op'] != 'reopen':
                self.sub.run(ev)
        self.form = self.expected_shape()
        self.evs = []
        self.n = 0

    def expected_shape(self):
        con = sqlite3.connect(self.sub.file)
        try:
            return shape(con)
        finally:
            con.close()

    def old_file(self, ver, flaw, seed):
        self.n += 1
        r = random.Random(seed)
        if isinstance(ver, dict):
            path = os.path.join(self.dir, f'o{self.n}', 'old.toron')
            os.mkdir(os.path.dirname(path))
            write_old(ver, path)
            return path
        base = os.path.join(self.dir, f'o{self.n}')
        os.mkdir(base)
        path = os.path.join(base, r.choice(['old.toron', 'ö ld.toron', 'o%23l?d.toron']))
        (to_020 if ver == '0.2.0' else to_030)(self.sub.file, path, r)
        if flaw:
            spoil(path, ver, flaw, r)
        return path

    @staticmethod
    def open(path, m):
        if m in ('mem', 'drive'):
            return read_file(path, **({'cache_to_drive': True} if m == 'drive' else {}))
        return bind_file(path, mode=m)

    def content(self, path, ev):
        """Note the content of a file of the current format."""
        con = sqlite3.connect(path)
        try:
            ev['x'] = extras(con, 'link')
            ev['fmt'] = shape(con)
            ev['wfmt'] = self.form
        finally:
            con.close()
        state = observe.read_state(path, self.memo)
        ev['d'] = observe.delta(None, state)
        return state

    def disk(self, path, ev, before):
        """What has become of the file."""
        ev['same'] = sha(path) == before
        try:
            if ev['same']:
                ev['disk'] = 'old'
                return
            con = sqlite3.connect(path)
            try:
                if con.execute('pragma integrity_check').fetchall() != [('ok',)]:
                    raise sqlite3.DatabaseError('damaged')
                v = version(con)
            finally:
                con.close()
            if v == ev['old']['ver']:
                ev['disk'] = 'old'
                ev['left'] = read_old(path, self.memo)
            else:
                ev['disk'] = 'new'
                if not ev['d']:
                    self.content(path, ev)
        except Exception as err:
            ev['disk'] = 'bad'
            ev['why'] = f'{type(err).__name__}: {err}'[:160]

    def run(self, ver, flaw, m, seed, more=0):
        """Open an old file; go on working with what it became."""
        path = self.old_file(ver, flaw, seed)
        ev = {'op': 'migrate', 'm': m, 'res': 'ok', 'd': {}, 'old': read_old(path, self.memo), 'flaw': flaw or '',
              'x': '', 'fmt': '', 'wfmt': ''}
        before = sha(path)
        sp = sub = None
        try:
            sp = self.open(path, m)
        except Exception as err:
            ev['res'] = 'err'
            ev['why'] = f'{type(err).__name__}: {err}'[:160]
        if sp is not None:
            sub = space.Subject.__new__(space.Subject)
            sub.dir, sub.others, sub.memo, sub.count, sub.sp = os.path.dirname(path), self.others, self.memo, 0, sp
            sub.mode, sub.file = (m, None) if m in ('mem', 'drive') else ('rw', path)
            seen = path
            if sub.file is None:
                seen = os.path.join(sub.dir, 'seen')
                sp.to_file(seen, fsync=False)
            sub.state = self.content(seen, ev)
            sub.used = max([ev['old']['seq']] + [x[0] for x in sub.state['idx']])
        self.disk(path, ev, before)
        self.evs.append(ev)
        if sub is not None:
            for _ in range(more):
                self.evs.append(sub.run(self.g.event(sub.state)))
            sub.close()
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)

    def disturb(self, ver, m, seed, kind, at):
        """Open an old file while something goes wrong."""
        path = self.old_file(ver, None, seed)
        base = os.path.dirname(path)
        ev = {'op': 'migfault', 'm': m, 'res': 'ok', 'd': {}, 'old': read_old(path, self.memo), 'kind': kind, 'at': at,
              'x': '', 'fmt': '', 'wfmt': ''}
        before = sha(path)
        seen = os.path.join(base, 'seen')

        def job(inj):
            inj.armed = True
            if kind in ('limit', 'killwrite'):
                import resource
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if kind == 'limit' else signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (at * 1024, resource.RLIM_INFINITY))
            try:
                sp = self.open(path, m)
                res, why = 'ok', ''
            except BaseException as err:
                res, why = 'err', f'{type(err).__name__}: {err}'[:160]
            inj.armed = False
            if kind in ('limit', 'killwrite'):
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            if res == 'ok' and kind != 'full':
                sp.to_file(seen, fsync=False)
            return {'res': res, 'why': why, 'nexec': inj.nexec, 'nstep': inj.nstep}
        out = faults.run_child(job, ('count' if kind in ('limit', 'killwrite') else kind, at), os.path.join(base, 'out.json'))
        if out is None:
            out = {'res': 'killed', 'why': '', 'nexec': 0, 'nstep': 0}
        ev['res'], ev['why'] = out['res'], out['why']
        if os.path.exists(seen):
            self.content(seen, ev)
        if out['res'] == 'killed':      # whoever comes next finds it in order
            con = sqlite3.connect(path)
            con.execute('select count(*) from property').fetchall()
            con.close()
        self.disk(path, ev, before)
        self.evs.append(ev)
        shutil.rmtree(base, ignore_errors=True)
        return out

    def trace(self):
        return {'kind': 'migrate', 'seed': self.seed, 'init': self.init, 'used': self.used, 'evs': self.evs, 'opts': self.opts}


def record(seed, workdir, opts):
    r = random.Random(seed + 1)
    with observe.unit(r.choice(observe.UNITS) if r.random() < 0.25 else 1.0):
        return _record(seed, workdir, opts)


def _record(seed, workdir, opts):
    a = Attic(seed, workdir, opts.get('length', 14))
    a.opts = opts
    r = a.r
    flaws = list(FLAWS)
    r.shuffle(flaws)
    for k in range(opts.get('opens', 6)):
        ver = r.choice(['0.2.0', '0.2.0', '0.3.0'])
        a.run(ver, None, r.choice(['mem', 'drive', 'rw', 'rw', 'rwc', 'ro']), r.randrange(1 << 30), opts.get('more', 6))
        if k % 2 == 0 and flaws:
            a.run(r.choice(['0.2.0', '0.3.0']), flaws.pop(), r.choice(MODES), r.randrange(1 << 30), 1)
    for k in range(opts.get('faults', 1)):
        ver, m, fs = r.choice(['0.2.0', '0.2.0', '0.3.0']), r.choice(['rw', 'rw', 'rwc', 'mem', 'drive']), r.randrange(1 << 30)
        out = a.disturb(ver, m, fs, 'count', 0)
        budget = opts.get('budget', 4)
        some = lambda n: sorted(r.sample(range(1, n + 1), min(budget, n)))
        for at in some(out['nexec']):
            a.disturb(ver, m, fs, r.choice(['error', 'error', 'ctrlc', 'killexec']), at)
        for at in some(out['nstep']):
            a.disturb(ver, m, fs, r.choice(['interrupt', 'kill']), at)
        for at in some(60):
            a.disturb(ver, m, fs, r.choice(['limit', 'killwrite']), at)
        a.disturb(ver, m, fs, 'full', r.randrange(0, 3))
    a.sub.close()
    return a.trace()


def record_cases(cases, workdir, seed=1):
    """Open the contents printed by TLC, each twice."""
    a = Attic.__new__(Attic)
    a.seed, a.r, a.dir, a.n, a.evs, a.opts = seed, random.Random(seed), workdir, 0, [], {}
    a.g = gen.Gen(seed, 'mixed', boom=0)
    a.others = {u: space.make_other(u, workdir) for u in gen.UIDS}
    a.sub = space.Subject(workdir, a.others, 'rw')
    a.memo, a.init, a.used = a.sub.memo, a.sub.state, a.sub.used
    a.sub.sp.add_index_columns('A', 'B')
    a.form = a.expected_shape()
    for o in cases:
        a.run(o, None, 'rw', 0, 2)
        a.run(o, None, a.r.choice(['mem', 'drive', 'ro', 'rwc']), 0, 2)
    a.sub.close()
    return dict(a.trace(), cases=cases)


def owners(op, clause):
    if op in ('migrate', 'migfault'):
        own = {'C15'}
        if clause in ('migr:disk', 'migr:changed', 'accepted', 'refused'):
            own |= {'C14'} if op == 'migrate' else {'C08'}
        return own
    import own as rules
    return rules.owners(op, clause) | {'C15'}


def replay(doc):
    import engines
    tr = doc['trace']
    with common.Scratch() as d:
        out = record_cases(tr['cases'], d, tr['seed']) if 'cases' in tr else record(tr['seed'], d, tr['opts'])
    fails, _, _ = engines.validate([out], 'Trace_Space')
    for f in fails:
        print(json.dumps(out['evs'][f['i'] - 1])[:2500])
        print('differs:', f['bad'])
    if not fails:
        print('no difference on this run')
    return 1 if fails else 0
