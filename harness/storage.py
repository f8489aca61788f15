"""Histories of files and the spaces opened on them (spec/Storage.tla).

Everything happens in one scratch directory, in a child process without
privileges (so that file permissions mean something).
"""
import errno
import gc
import hashlib
import json
import os
import pathlib
import random
import signal
import sqlite3
import sys

import common
import gen
import observe
import space

from toron import DataSpace, read_file, bind_file

NOBODY = 65534
NAMES = ['a.toron', 'b c.toron', 'q?x.toron', 'h#1%20.toron', 'ü.toron', "o'k.toron", 'no_suffix', 'x.dat', '[y].toron', 'a&b=c;d.toron']
MODES = ('ro', 'rw', 'rwc')
JUNK = ('empty', 'text', 'zeros', 'sqlite', 'stolen', 'cut', 'format', 'app')


class Points:
    """Counts the points of a save at which something can go wrong: calls of
    the operating system, SQL statements, groups of SQLite's own steps."""
    STRIDE = 25

    def __init__(self):
        self.kind, self.at, self.n = None, 0, 0
        self.fired = False

    def arm(self, kind, at):
        self.kind, self.at, self.n, self.fired = kind, at, 0, False

    def disarm(self):
        self.kind = None
        return self.n

    def hit(self):
        if self.kind is None:
            return False
        self.n += 1
        if self.n != self.at or self.fired:
            return False
        if self.kind == 'kill':
            os.kill(os.getpid(), signal.SIGKILL)
        return self.kind in ('error', 'ctrlc')

    def call(self, real):
        def wrapper(*args, **kwds):
            if self.hit():
                self.fired = True
                if self.kind == 'ctrlc':
                    raise KeyboardInterrupt
                raise OSError(errno.ENOSPC, 'No space left on device')
            return real(*args, **kwds)
        return wrapper

    def statement(self):
        if self.hit():
            self.fired = True
            if self.kind == 'ctrlc':
                raise KeyboardInterrupt
            raise sqlite3.OperationalError('disk I/O error')

    def step(self):
        if self.hit():
            self.fired = True
            return 1
        return 0

    def install(self):
        pts = self
        for name in ('open', 'replace', 'rename', 'link', 'chmod', 'fchmod', 'fsync', 'fdatasync', 'truncate', 'write', 'sendfile'):
            if hasattr(os, name):
                setattr(os, name, self.call(getattr(os, name)))
        real = sqlite3.connect

        class Cursor(sqlite3.Cursor):
            def execute(self, sql, *args):
                pts.statement()
                return super().execute(sql, *args)

            def executescript(self, sql):
                pts.statement()
                return super().executescript(sql)

        classes = {}

        def connect(*args, **kwds):
            base = kwds.pop('factory', None) or sqlite3.Connection
            if base not in classes:
                def cursor(con, factory=Cursor, base=base):
                    return base.cursor(con, factory)

                def backup(con, *a, base=base, **k):
                    pts.statement()
                    return base.backup(con, *a, **k)
                classes[base] = type('Faulty' + base.__name__, (base,), {'cursor': cursor, 'backup': backup})
            con = real(*args, factory=classes[base], **kwds)
            con.set_progress_handler(pts.step, pts.STRIDE)
            return con
        sqlite3.connect = sqlite3.dbapi2.connect = connect
        self.plain = real
        return self


def view(sp):
    """Everything a space reports about itself, as text."""
    out = [str(sp).split('\n')[1:], sp.domain, sp.index_columns, sp.get_label_columns(), sp.max_index_id,
           sorted(sorted(x) for x in sp.partition_definitions), sp.get_registered_attributes()]
    has = bool(sp.index_columns)
    if has:
        out.append(sorted(map(list, sp.select_index())))
    groups = sorted(sp.weight_groups, key=lambda g: g.name)
    d = sp.get_default_weight_group()
    out.append([d.name if d else None, [[g.name, g.description, g.selectors, g.is_complete] for g in groups]])
    if has:
        for g in groups:
            out.append([g.name, sorted(map(list, sp.select_weights(g.name)), key=repr)])
    links = sorted(sp.links, key=lambda l: (l.other_unique_id, l.name))
    for l in links:
        out.append([l.other_unique_id, l.other_filename_hint, l.name, l.description, l.selectors, l.is_default,
                    l.user_properties, l.other_index_hash, l.is_locally_complete])
        if has:
            out.append(sorted(map(repr, sp.select_mappings(l.other_unique_id, l.name))))
    if has:
        for rows in (sp.select_quantities(), sp.select_quantities_without_index(), sp.select_unmatched_quantities()):
            out.append(sorted(map(repr, rows)))
    return repr(out)


OTHERS = []         # two spaces to link to


class Stop(Exception):
    pass


def modify(sp, seed, inside=None):
    """One modification chosen by seed from what sp shows; may be refused."""
    r = random.Random(seed)
    cols = list(sp.index_columns)
    vals = ['A', 'B', 'C', 'x y', "O'N", 'é']
    row = lambda: [r.choice(vals) for _ in cols]
    groups = sorted(g.name for g in sp.weight_groups)
    links = sorted((l.other_unique_id, l.name) for l in sp.links)
    ids = [x[0] for x in sp.select_index(header=False)] if cols else []

    def source(rows, bad=None):
        for k, x in enumerate(rows):
            if inside and k == max(1, len(rows) - 1):
                inside()
            if bad is not None and k == bad:
                raise Stop('no more data')
            yield x
    kind = r.choice(['domain', 'index', 'index', 'index', 'boom', 'attrs', 'group', 'weights', 'part', 'delete', 'rename',
                     'addcol', 'qty', 'qty', 'link', 'maps', 'upd', 'dropwg', 'droplink', 'dropcol', 'same', 'junk', 'dflt'])
    if inside:
        kind = r.choice(['index', 'qty', 'boom', 'upd', 'weights'])
    if kind == 'domain':
        sp.set_domain(r.choice(['d1', 'd2', 'dö', '']))
    elif kind == 'attrs':
        sp.set_registered_attributes(r.sample(['category', 'year', 'sex', 'a b'], r.randrange(4)))
    elif kind == 'addcol' or not cols:
        sp.add_index_columns(r.choice(['A', 'B', 'zone', 'Town hall']))
    elif kind == 'index':
        rows = [row() + [r.randrange(9)] for _ in range(r.randrange(1, 5))] if groups else [row() for _ in range(r.randrange(1, 5))]
        sp.insert_index(source([cols + groups[:1]] + rows), on_label_conflict='ignore', on_weight_conflict='replace')
    elif kind == 'boom':
        rows = [row() for _ in range(4)]
        sp.insert_index(source([cols] + rows, 3), on_label_conflict='ignore')
    elif kind == 'junk':
        sp.insert_index(source([cols + ['index_id']] + [row() + ['zz']]))
    elif kind == 'group':
        sp.add_weight_group(r.choice(['pop', 'area', 'w']), make_default=r.random() < 0.5)
    elif kind == 'dflt':
        sp.set_default_weight_group(sp.get_weight_group(r.choice(groups or ['pop'])))
    elif kind == 'weights' and groups:
        rows = [x for x in sp.select_index(header=False) if x[0] and r.random() < 0.7]
        g = r.choice(groups)
        sp.insert_weights(g, source([['index_id'] + cols + [g]] + [list(x) + [r.randrange(9)] for x in rows]), on_conflict='replace')
    elif kind == 'part':
        sp.add_partition_definition(set(r.sample(cols, r.randrange(1, len(cols) + 1))))
    elif kind == 'delete':
        sp.delete_index(**{cols[0]: r.choice(vals)})
    elif kind == 'upd' and len(ids) > 1:
        rows = [[r.choice(ids[1:])] + row()]
        sp.update_index(source([['index_id'] + cols] + rows), merge_on_conflict=r.random() < 0.5)
    elif kind == 'rename':
        sp.rename_label_column(cols[0], r.choice(['A', 'B', 'N']))
    elif kind == 'dropcol':
        sp.drop_index_columns(r.choice(cols))
    elif kind == 'qty':
        rows = [row() + ['t', r.randrange(9)] for _ in range(3)]
        sp.insert_quantities2(value_column='value', data=source([cols + ['category', 'value']] + rows), on_existing='replace')
    elif kind == 'link':
        sp.add_link(r.choice(OTHERS), r.choice(['edge', 'pop']), other_filename_hint=r.choice(['o.toron', None]))
    elif kind == 'maps' and links:
        u, nm = r.choice(links)
        n = len(cols)
        level = space.bits_to_bytes([1] * n)
        rows = [[r.randrange(4), r.choice(ids), level, r.randrange(5)] for _ in range(3)]
        sp.insert_mappings2(u, nm, source(rows), ['other_index_id', 'index_id', 'mapping_level', nm])
    elif kind == 'dropwg' and groups:
        sp.drop_weight_group(r.choice(groups))
    elif kind == 'droplink' and links:
        sp.drop_link(*r.choice(links))
    elif kind == 'same':
        sp.set_domain(sp.domain)
    else:
        sp.set_domain(sp.domain + 'x')


class World:
    PATHS = ('p1', 'p2', 'p3', 'p4')
    HANDLES = ('x1', 'x2', 'x3', 'x4')

    def __init__(self, seed, workdir, opts=None):
        self.r = random.Random(seed)
        self.seed = seed
        self.opts = opts or {}
        self.root = workdir
        self.base = os.path.join(workdir, 'm')
        self.tmp = os.path.join(workdir, 't')
        for d in (self.base, os.path.join(self.base, 's'), self.tmp):
            os.mkdir(d)
        names = self.r.sample(NAMES, 3)
        self.path = dict(zip(self.PATHS, [os.path.join(self.base, n) for n in names] + [os.path.join(self.base, 's', 'in.toron')]))
        self.dirs = {p: os.path.dirname(q) for p, q in self.path.items()}
        self.hand = {}
        self.meta = {x: {'m': 'no', 'p': '', 'u': 0} for x in self.HANDLES}
        self.num = {}
        self.back = {}
        self.sha = {}
        self.evs = []
        self.rwc = set()        # paths with an open 'rwc' handle
        self.pts = None

    # -- observation ---------------------------------------------------------
    def number(self, kind, text):
        return self.num.setdefault((kind, hashlib.sha256(text.encode('utf-8', 'surrogatepass')).digest()), len(self.num) + 1)

    def dump(self, path):
        uri = 'file:' + path.replace('%', '%25').replace('?', '%3f').replace('#', '%23') + '?mode=ro&immutable=1'
        con = sqlite3.connect(uri, uri=True)
        try:
            if con.execute('pragma integrity_check').fetchall() != [('ok',)]:
                raise sqlite3.DatabaseError('damaged')
            con.execute('select value from property').fetchall()
            return '\n'.join(con.iterdump()) + repr([con.execute('pragma ' + x).fetchone() for x in ('application_id', 'user_version')])
        finally:
            con.close()

    def look(self, p):
        path = self.path[p]
        out = {'k': 'none', 'c': 0, 'w': True, 'v': 0, 'u': 0, 'touched': False}
        sha = None
        if os.path.isdir(path):
            out['k'] = 'dir'
            sha = 'dir'
        elif os.path.exists(path):
            with open(path, 'rb') as f:
                data = f.read()
            sha = hashlib.sha256(data).hexdigest()
            out['w'] = os.access(path, os.W_OK)
            out['k'] = 'junk'
            if self.magic(data):
                try:
                    out['c'] = self.number('c', self.dump(path))
                    out['k'] = 'toron'
                except sqlite3.Error:
                    pass
            if out['k'] == 'toron':
                if out['c'] not in self.back:
                    self.back[out['c']] = self.readback(path)
                out['v'], out['u'] = self.back[out['c']]
            else:
                out['c'] = self.number('j', sha)
        out['touched'] = self.sha.get(p) != sha
        self.sha[p] = sha
        return out

    @staticmethod
    def magic(data):
        from toron.data_models import TORON_MAGIC_NUMBER
        return data[:16] == b'SQLite format 3\0' and data[60:64] == b'DAL1' and data[68:72] == TORON_MAGIC_NUMBER

    def readback(self, path):
        """The view and id of a file, opened in some mode."""
        k = self.r.randrange(4)
        try:
            sp = bind_file(path, mode='ro') if k == 0 else read_file(path, cache_to_drive=k == 1)
            return self.number('v', view(sp)), self.number('u', sp.unique_id)
        except Exception as err:
            return -1, 0

    def see(self, x):
        sp = self.hand.get(x)
        out = dict(self.meta[x], v=0)
        if sp is not None:
            try:
                out['v'] = self.number('v', view(sp))
                if out['m'] in ('mem', 'drive'):
                    out['u'] = self.number('u', sp.unique_id)
            except Exception as err:
                out['v'] = -1
                out['why'] = f'{type(err).__name__}: {err}'[:120]
        return out

    def finish(self, ev):
        ev['f'] = {p: self.look(p) for p in self.PATHS}
        ev['h'] = {x: self.see(x) for x in self.HANDLES}
        known = {os.path.basename(q) for q in self.path.values()} | {'s'}
        ev['stray'] = sum(n not in known for d in (self.base, os.path.join(self.base, 's')) for n in os.listdir(d))
        target = ev.get('p')
        if ev['op'] == 'mod':
            target = self.meta[ev['x']]['p']
        if ev['op'] in ('new', 'read', 'bind', 'mod', 'save', 'fsave', 'ksave'):
            c = ev['f'][target] if target else {'k': 'none'}
            ev['c'] = c['c'] if c['k'] == 'toron' else 0
            ev['v'] = ev['h'][ev['x']]['v']
            ev['u'] = ev['h'][ev['x']]['u']
        if ev['op'] in ('junk',):
            ev['c'] = ev['f'][ev['p']]['c']
        self.evs.append(ev)
        return ev

    # -- events ----------------------------------------------------------------
    def form(self, p, fs):
        """Some way to write the path."""
        q = self.path[p]
        k = random.Random(fs).randrange(5)
        return [q, os.fsencode(q), pathlib.Path(q), os.path.relpath(q), q][k]

    def run(self, ev):
        ev = dict(ev)
        ev.setdefault('fs', self.r.randrange(1 << 30))
        os.chdir([self.base, os.path.join(self.base, 's'), self.tmp][ev['fs'] % 3])
        if ev.get('why'):
            del ev['why']
        try:
            getattr(self, 'op_' + ev['op'])(ev)
            ev['res'] = 'ok'
        except (Exception, KeyboardInterrupt) as err:
            ev['res'] = 'err'
            ev['why'] = f'{type(err).__name__}: {err}'[:160]
        return self.finish(ev)

    def put(self, x, sp, m, p=''):
        self.hand[x] = sp
        self.meta[x] = {'m': m, 'p': p, 'u': self.number('u', sp.unique_id)}

    def op_new(self, ev):
        sp = DataSpace(cache_to_drive=True) if ev['m'] == 'drive' else DataSpace()
        if ev.get('prep'):
            for k in range(ev['prep']):
                try:
                    modify(sp, ev['fs'] + k)
                except Exception:
                    pass
        if ev.get('rich'):
            g = gen.Gen(ev['fs'], 'mixed')
            sub = space.Subject(self.tmp, {u: space.make_other(u, self.tmp) for u in gen.UIDS}, 'mem')
            for make in g.script(sub.state):
                sub.run(dict(make(sub.state), fs=1))
            for _ in range(ev['rich']):
                e = g.event(sub.state)
                if e['op'] != 'reopen':
                    sub.run(e)
            sp = sub.sp
            sp._path_hint = None
            if ev['m'] == 'drive':
                path = os.path.join(self.tmp, 'rich')
                sp.to_file(path)
                sp = read_file(path, cache_to_drive=True)
                os.unlink(path)
        self.put(ev['x'], sp, ev['m'])

    def op_read(self, ev):
        kw = {'cache_to_drive': True} if ev['m'] == 'drive' else {}
        self.put(ev['x'], read_file(self.form(ev['p'], ev['fs']), **kw), ev['m'])

    def op_bind(self, ev):
        sp = bind_file(self.form(ev['p'], ev['fs']), mode=ev['m'])
        self.put(ev['x'], sp, 'ro' if ev['m'] == 'ro' else 'rw', ev['p'])
        if ev['m'] == 'rwc':
            self.rwc.add(ev['x'])

    def op_close(self, ev):
        self.hand.pop(ev['x'], None)
        self.meta[ev['x']] = {'m': 'no', 'p': '', 'u': 0}
        self.rwc.discard(ev['x'])
        gc.collect()

    def op_mod(self, ev):
        m = self.meta[ev['x']]
        ev['want'] = 'any'
        ev['tv'] = 0
        if m['p'] and not os.path.isdir(self.path[m['p']]) and os.path.exists(self.path[m['p']]):
            twin = os.path.join(self.tmp, 'twin')
            with open(self.path[m['p']], 'rb') as f, open(twin, 'wb') as g:
                g.write(f.read())
            try:
                sp = read_file(twin)
                old = view(sp)
                try:
                    modify(sp, ev['fs'], (lambda: None) if 'y' in ev else None)
                    new = view(sp)
                    ev['want'] = 'same' if new == old else 'ok'
                    ev['tv'] = self.number('v', new)
                except Exception as err:
                    ev['want'] = 'err'
                    ev['twhy'] = f'{type(err).__name__}: {err}'[:100]
            except Exception:
                pass
            os.unlink(twin)
        inside = None
        if 'y' in ev:
            def inside():
                ev['mid'] = self.see(ev['y'])['v']
        modify(self.hand[ev['x']], ev['fs'], inside)

    def op_save(self, ev):
        self.hand[ev['x']].to_file(self.form(ev['p'], ev['fs']), **({} if ev['sync'] else {'fsync': False}))

    def count_points(self, ev):
        """How many points the same save has when it is not disturbed."""
        out = os.path.join(self.tmp, 'n.json')
        pid = os.fork()
        if pid == 0:
            try:
                self.pts.arm('count', 0)
                try:
                    self.hand[ev['x']].to_file(os.path.join(self.tmp, 'counted'), fsync=bool(ev['sync']))
                except Exception:
                    pass
                n = self.pts.disarm()
                with open(out, 'w') as f:
                    f.write(str(n))
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        with open(out) as f:
            n = int(f.read())
        for name in os.listdir(self.tmp):
            if name == 'n.json' or name.startswith('counted'):
                os.unlink(os.path.join(self.tmp, name))
        return n

    def at(self, ev):
        n = self.count_points(ev)
        ev['of'] = n
        return 1 + int(ev['frac'] * n)      # one beyond the end: nothing happens

    def op_fsave(self, ev):
        at = self.at(ev)
        if ev['how'] == 'limit':
            import resource
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (int(ev['frac'] * 120) * 1024, resource.RLIM_INFINITY))
        else:
            self.pts.arm('error', at)
        try:
            self.op_save(ev)
        finally:
            self.pts.disarm()
            if ev['how'] == 'limit':
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))

    def op_ksave(self, ev):
        if ev['how'] == 'ctrlc':
            self.pts.arm('ctrlc', self.at(ev))
            try:
                return self.op_save(ev)
            finally:
                self.pts.disarm()
        at = self.at(ev)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(60)
                if ev['how'] == 'limit':
                    import resource
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    resource.setrlimit(resource.RLIMIT_FSIZE, (int(ev['frac'] * 120) * 1024, resource.RLIM_INFINITY))
                else:
                    self.pts.arm('kill', at)
                self.op_save(ev)
                code = 0
            except Exception:
                pass
            finally:
                os._exit(code)
        status = os.waitpid(pid, 0)[1]
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM:
            raise RuntimeError('the code did not return')
        if status != 0:
            raise Stop('killed' if os.WIFSIGNALED(status) else 'failed')

    # -- what others do to files -----------------------------------------------
    def op_junk(self, ev):
        kind = ev['kind']
        path = self.path[ev['p']]
        if kind in ('sqlite', 'stolen'):
            t = os.path.join(self.tmp, 'j')
            con = self.pts.plain(t)
            con.execute('create table property(key, value)')
            if kind == 'stolen':
                con.execute('pragma application_id=0x546f726e')
            con.commit()
            con.close()
            with open(t, 'rb') as f:
                data = f.read()
            os.unlink(t)
        elif kind in ('cut', 'format', 'app'):
            t = os.path.join(self.tmp, 'j')
            DataSpace().to_file(t, fsync=False)
            with open(t, 'rb') as f:
                data = f.read()
            os.unlink(t)
            if kind == 'cut':       # the beginning of a real file
                data = data[:70]
            elif kind == 'format':  # a file of some later format
                data = data[:60] + b'DAL2' + data[64:]
            else:                   # of some other application
                data = data[:68] + b'torn' + data[72:]
        else:
            data = {'empty': b'', 'text': b'hello\n', 'zeros': b'\0' * 4096}[kind]
        with open(path, 'wb') as f:
            f.write(data)

    def op_unlink(self, ev):
        path = self.path[ev['p']]
        if os.path.isdir(path):
            os.rmdir(path)
        elif os.path.exists(path):
            os.unlink(path)

    def op_mkdir(self, ev):
        os.mkdir(self.path[ev['p']])

    def op_copy(self, ev):
        with open(self.path[ev['q']], 'rb') as f:
            data = f.read()
        with open(self.path[ev['p']], 'wb') as g:
            g.write(data)

    def op_chmod(self, ev):
        os.chmod(self.path[ev['p']], 0o644 if ev['w'] else 0o444)

    def op_chdir(self, ev):
        os.chmod(self.dirs[ev['ps'][0]], 0o755 if ev['w'] else 0o555)

    # -- random histories ------------------------------------------------------
    def kind(self, p):
        return self.evs[-1]['f'][p]['k'] if self.evs else 'none'

    def dirw(self, p):
        return os.access(self.dirs[p], os.W_OK)

    def event(self):
        r = self.r
        P, X = list(self.PATHS), list(self.HANDLES)
        free = [x for x in X if self.meta[x]['m'] == 'no']
        used = [x for x in X if self.meta[x]['m'] != 'no']
        bound = [x for x in used if self.meta[x]['p']]
        there = [p for p in P if self.kind(p) == 'toron']
        live = {self.meta[x]['p'] for x in self.rwc}
        while True:
            op = r.choice(['new', 'read', 'read', 'read', 'bind', 'bind', 'bind', 'bind', 'close', 'mod', 'mod', 'mod', 'mod', 'mod',
                           'mod', 'save', 'save', 'save', 'fsave', 'ksave', 'ksave', 'env'])
            if op == 'new' and free and (not used or r.random() < 0.3):
                return {'op': op, 'x': r.choice(free), 'm': r.choice(['mem', 'mem', 'drive']), 'prep': r.choice([0, 3, 8]),
                        'rich': r.choice([0, 0, 10])}
            if op == 'read' and free:
                return {'op': op, 'x': r.choice(free), 'p': r.choice(there if there and r.random() < 0.8 else P), 'm': r.choice(['mem', 'drive'])}
            if op == 'bind' and free:
                m = r.choice(MODES)
                gone = [p for p in P if self.kind(p) == 'none']
                p = r.choice(gone if gone and m == 'rwc' and r.random() < 0.5 else there if there and r.random() < 0.8 else P)
                return {'op': op, 'x': r.choice(free), 'p': p, 'm': m}
            if op == 'close' and len(used) > 2:
                return {'op': op, 'x': r.choice(used)}
            if op == 'mod' and used:
                ev = {'op': op, 'x': r.choice(bound if bound and r.random() < 0.6 else used)}
                others = [x for x in used if x != ev['x']]
                if others and r.random() < 0.25:
                    ev['y'] = r.choice(others)
                return ev
            if op in ('save', 'fsave', 'ksave') and used:
                ev = {'op': op, 'x': r.choice(used), 'p': r.choice(P), 'sync': r.random() < 0.5}
                if op != 'save':
                    ev['frac'] = r.random() * 1.02
                    ev['how'] = r.choice(['point', 'point', 'point', 'limit'] + (['ctrlc'] if op == 'ksave' else []))
                return ev
            if op == 'env':
                op = r.choice(['junk', 'junk', 'unlink', 'mkdir', 'copy', 'chmod', 'chmod', 'chdir', 'chdir'])
                p = r.choice(P)
                if op == 'junk' and self.dirw(p) and self.kind(p) in ('none', 'junk') and os.access(self.path[p], os.W_OK) in (True, self.kind(p) != 'none') and p not in live:
                    return {'op': op, 'p': p, 'kind': r.choice(JUNK)}
                if op == 'unlink' and self.dirw(p) and p not in live and self.kind(p) != 'none':
                    return {'op': op, 'p': p}
                if op == 'mkdir' and self.dirw(p) and self.kind(p) == 'none' and p not in live:
                    return {'op': op, 'p': p}
                if op == 'copy' and there:
                    q = r.choice(there)
                    if q != p and self.dirw(p) and p not in live and self.kind(p) in ('none', 'toron', 'junk') and \
                            (self.kind(p) == 'none' or os.access(self.path[p], os.W_OK)):
                        return {'op': op, 'p': p, 'q': q}
                if op == 'chmod' and self.opts.get('perm') and self.kind(p) in ('toron', 'junk'):
                    return {'op': op, 'p': p, 'w': not os.access(self.path[p], os.W_OK)}
                if op == 'chdir' and self.opts.get('perm'):
                    w = not self.dirw('p4')
                    return {'op': op, 'ps': ['p4'], 'w': w}

    def trace(self):
        for ev in self.evs:
            ev.pop('twhy', None)
        return {'kind': 'storage', 'seed': self.seed, 'opts': self.opts, 'evs': self.evs}


def confined(func, workdir):
    """Run func() in an unprivileged child; its JSON result."""
    out = os.path.join(workdir, 'result.json')
    DataSpace()                                 # everything is imported
    for name in ('m', 't'):
        os.makedirs(os.path.join(workdir, name), exist_ok=True)
    sys.stdout.flush()
    root = os.path.join(workdir, 'w')
    os.mkdir(root)
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(140)
            perm = True
            os.chmod(workdir, 0o711)
            if os.getuid() == 0:
                try:
                    os.chown(root, NOBODY, NOBODY)
                    os.setgroups([])
                    os.setgid(NOBODY)
                    os.setuid(NOBODY)
                except OSError:
                    perm = False
            os.umask(0o022)
            import tempfile
            tempfile.tempdir = os.path.join(root, 't')
            val = func(root, perm)
            with open(os.path.join(root, 'result.json'), 'w') as f:
                json.dump(val, f)
        except BaseException:
            import traceback
            with open(os.path.join(root, 'result.why'), 'w') as f:
                traceback.print_exc(file=f)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    for name in ('m', os.path.join('m', 's')):
        if os.path.isdir(os.path.join(root, name)):
            os.chmod(os.path.join(root, name), 0o755)
    try:
        with open(os.path.join(root, 'result.json')) as f:
            return json.load(f)
    except FileNotFoundError:
        pass
    try:
        with open(os.path.join(root, 'result.why')) as f:
            raise RuntimeError(f.read()[-900:])
    except FileNotFoundError:
        raise RuntimeError('the code did not return') from None


def start(seed, root, opts):
    w = World(seed, root, opts)
    OTHERS[:] = [space.make_other(u, w.tmp) for u in gen.UIDS[:2]]
    w.pts = Points().install()
    return w


def record(seed, workdir, opts=None, length=25):
    def job(root, perm):
        w = start(seed, root, dict(opts or {}, perm=perm, length=length))
        w.run({'op': 'new', 'x': 'x1', 'm': 'mem', 'prep': 6, 'rich': w.r.choice([0, 12])})
        w.run({'op': 'save', 'x': 'x1', 'p': w.r.choice(['p1', 'p4']), 'sync': True})
        while len(w.evs) < length:
            w.run(w.event())
        return w.trace()
    return confined(job, workdir)


def physical(evs, k):
    """A history printed by TLC, as events of a World."""
    r = random.Random(k)
    out = [{'op': 'new', 'x': 'x1', 'm': 'mem', 'prep': 6, 'rich': 0}, {'op': 'save', 'x': 'x1', 'p': 'p1', 'sync': False}]
    for e in evs:
        e = {a: b for a, b in e.items() if a not in ('want', 'step')} | \
            ({'frac': min(1.01, (e['step'] + r.random()) / 5)} if 'step' in e else {})
        out.append(e)
    return [dict(e, fs=k * 1009 + j) for j, e in enumerate(out)]


def tour(seed):
    """Everything that may be at a path, opened in every way."""
    r = random.Random(seed)
    out = [{'op': 'new', 'x': 'x1', 'm': 'mem', 'prep': 6, 'rich': 0}]
    things = [{'op': 'junk', 'kind': k} for k in JUNK] + [{'op': 'mkdir'}, None, {'op': 'save', 'x': 'x1', 'sync': False}]
    r.shuffle(things)
    for k, t in enumerate(things):
        p = ['p1', 'p2', 'p3', 'p4'][k % 4]
        ways = [{'op': 'bind', 'x': 'x2', 'm': m} for m in MODES] + [{'op': 'read', 'x': 'x2', 'm': m} for m in ('mem', 'drive')]
        r.shuffle(ways)
        for w in ways:
            out += [dict(t, p=p)] if t else []
            out += [dict(w, p=p), {'op': 'close', 'x': 'x2'}, {'op': 'unlink', 'p': p}]
        if t and t['op'] == 'junk':     # a save may replace it
            out += [dict(t, p=p), {'op': 'save', 'x': 'x1', 'p': p, 'sync': r.random() < 0.5}, {'op': 'unlink', 'p': p}]
    return [dict(e, fs=r.randrange(1 << 30)) for e in out]


def record_case(evs, workdir):
    """Run a history printed by TLC."""
    def job(root, perm):
        w = start(1, root, {'perm': perm})
        for k, ev in enumerate(evs):
            w.run(dict({'fs': k * 7919 + 3}, **ev))
        return w.trace()
    return confined(job, workdir)


OWN = {'new': 'C13 C14', 'read': 'C13 C14', 'bind': 'C13 C14', 'mod': 'C14', 'close': 'C14', 'save': 'C13', 'fsave': 'C13', 'ksave': 'C13'}


def owners(op, clause):
    if clause == 'mid':
        return {'C08', 'C14'}
    if clause in ('readback', 'content', 'stray'):
        return {'C13'} | set(OWN.get(op, '').split())
    if clause in ('otherfile', 'otherview', 'bytes'):
        return {'C14'} | set(OWN.get(op, '').split())
    return set(OWN.get(op, 'C13 C14').split())


def replay(doc):
    import engines
    tr = doc['trace']
    with common.Scratch() as d:
        if tr.get('seed', 1) == 1:
            out = record_case([{k: v for k, v in e.items() if k not in ('f', 'h', 'res', 'why', 'c', 'v', 'u', 'stray', 'want', 'tv', 'mid', 'of')}
                               for e in tr['evs']], d)
        else:
            out = record(tr['seed'], d, tr.get('opts'), tr['opts'].get('length', 25))
    fails, _, _ = engines.validate([out], 'Trace_Storage')
    for f in fails:
        print(json.dumps(out['evs'][f['i'] - 1])[:2000])
        print('differs:', f['bad'])
    if not fails:
        print('no difference on this run')
    return 1 if fails else 0
