"""Operations of a data space that are disturbed half-way: a statement of the
storage layer fails, the database fills up or is interrupted, Ctrl-C arrives,
or the process dies.  Every disturbed run starts from a copy of the same file
and is judged by spec/Trace_Space.tla (events with a "fault" field).
"""
import json
import os
import random
import shutil
import signal
import sqlite3
import sys

import common
import gen
import observe
import space

# count: nothing; error, ctrlc, killexec: before the at-th statement; interrupt,
# kill: at the at-th group of virtual machine steps; full: room for at more
# pages; limit, killwrite: no file may grow beyond at pages (a write fails, or
# kills the process).
STRIDE = 40         # virtual machine steps between two fault points


class Injector:
    """Counts fault points on every SQLite connection opened; fires one."""

    def __init__(self, kind, at):
        self.kind, self.at = kind, at
        self.nexec = self.nstep = 0
        self.armed = False
        self.fired = False
        self.after = 0          # statements run after the fault fired
        self.real = sqlite3.connect

    def fire(self):
        self.fired = True

    def statement(self, sql):
        """Called before each statement."""
        if not self.armed or str(sql).lstrip()[:8].upper() in ('ROLLBACK',):
            return
        self.nexec += 1
        if self.fired or self.nexec != self.at:
            return
        if self.kind == 'error':
            self.fire()
            raise sqlite3.OperationalError('disk I/O error')
        if self.kind == 'ctrlc':
            self.fire()
            raise KeyboardInterrupt
        if self.kind == 'killexec':
            os.kill(os.getpid(), signal.SIGKILL)

    def step(self):
        """Called every STRIDE steps of SQLite's virtual machine."""
        if not self.armed:
            return 0
        self.nstep += 1
        if self.nstep == self.at and not self.fired:
            if self.kind == 'interrupt':
                self.fire()
                return 1
            if self.kind == 'kill':
                os.kill(os.getpid(), signal.SIGKILL)
        return 0

    def install(self):
        inj = self

        class Cursor(sqlite3.Cursor):
            def execute(self, sql, *args):
                inj.statement(sql)
                return super().execute(sql, *args)

            def executemany(self, sql, *args):
                inj.statement(sql)
                return super().executemany(sql, *args)

            def executescript(self, sql):
                inj.statement(sql)
                return super().executescript(sql)

        classes = {}

        def connect(*args, **kwds):
            base = kwds.pop('factory', None) or sqlite3.Connection
            if base not in classes:
                def cursor(con, factory=Cursor, base=base):
                    return base.cursor(con, factory)
                classes[base] = type('Faulty' + base.__name__, (base,), {'cursor': cursor})
            con = inj.real(*args, factory=classes[base], **kwds)
            inj.equip(con)
            return con
        sqlite3.connect = sqlite3.dbapi2.connect = connect
        return self

    def equip(self, con):
        con.set_progress_handler(self.step, STRIDE)
        if self.kind == 'full' and self.armed:
            self.limit(con)

    def limit(self, con):
        """Leave the database room for only a few more pages."""
        cur = self.real and con.cursor(sqlite3.Cursor) if False else sqlite3.Cursor(con)
        n = cur.execute('PRAGMA main.page_count').fetchone()[0]
        cur.execute(f'PRAGMA main.max_page_count={n + self.at}')
        cur.close()


def run_child(func, inj_args, outfile):
    """Run func(injector) in a forked child; its JSON result or None if it died."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(60)
        try:
            out = func(Injector(*inj_args).install())
            with open(outfile, 'w') as f:
                json.dump(out, f)
        except BaseException:
            import traceback
            with open(outfile + '.why', 'w') as f:
                traceback.print_exc(file=f)
            code = 3
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == signal.SIGALRM:
            raise RuntimeError('the code did not return')
        return None
    if os.path.exists(outfile):
        with open(outfile) as f:
            out = json.load(f)
        os.unlink(outfile)
        return out
    with open(outfile + '.why') as f:
        raise RuntimeError(f.read()[-800:])


class Arena:
    """One space whose operations are disturbed one after another."""

    def __init__(self, seed, profile, workdir):
        self.r = random.Random(seed * 7 + 1)
        self.dir = workdir
        self.g = gen.Gen(seed, profile)
        self.others = {u: space.make_other(u, workdir) for u in gen.UIDS}
        self.sub = space.Subject(workdir, self.others, 'rw')
        self.n = 0

    def grow(self, length):
        for make in self.g.script(self.sub.state):
            ev = make(self.sub.state)
            ev.setdefault('fs', self.r.randrange(1 << 30))
            self.sub.run(ev)
        for _ in range(length):
            self.sub.run(self.event())

    def event(self):
        while True:
            ev = self.g.event(self.sub.state)
            if not ev['op'].startswith('r_') and ev['op'] != 'reopen' and 'boom' not in ev:
                return ev

    def disturb(self, ev, kind, at, memory=False):
        """Run ev with a fault on a copy; the completed event and counts."""
        self.n += 1
        base = os.path.join(self.dir, f'f{self.n}')
        os.mkdir(base)
        path = os.path.join(base, 'copy.toron')
        shutil.copy(self.sub.file, path)
        state, memo = self.sub.state, self.sub.memo
        ev = dict(ev, fault=kind, at=at)

        def job(inj):
            child = space.Subject.attach(base, self.others, path, state, memo)
            if memory:
                from toron import read_file
                child.sp = read_file(path)
                child.mode, child.file = 'mem', None
            inj.armed = True
            if kind == 'full' and memory:
                inj.limit(child.sp._connector.acquire_connection())
            if kind in ('limit', 'killwrite'):
                import resource
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if kind == 'limit' else signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (at * 1024, resource.RLIM_INFINITY))
            try:
                child.call(ev)
                res, why = 'ok', ''
            except BaseException as err:
                res, why = 'err', f'{type(err).__name__}: {err}'[:160]
            inj.armed = False
            if kind in ('limit', 'killwrite'):
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            out = {'res': res, 'why': why, 'nexec': inj.nexec, 'nstep': inj.nstep, 'fired': inj.fired}
            if memory:
                if kind == 'full':
                    sqlite3.Cursor(child.sp._connector.acquire_connection()).execute('PRAGMA main.max_page_count=1000000')
                out['state'] = child.observe()
            child.sp = None
            return out
        inj_kind = 'count' if kind in ('limit', 'killwrite') else kind
        try:
            out = run_child(job, (inj_kind, at), os.path.join(base, 'out.json'))
            if out is None:
                out = {'res': 'killed', 'why': '', 'nexec': 0, 'nstep': 0, 'fired': True}
            try:
                new = out.pop('state', None) or observe.read_state(path, memo)
            except sqlite3.DatabaseError as err:
                new = dict(state, dup=[f'unreadable: {err}'])
        finally:
            shutil.rmtree(base, ignore_errors=True)
        ev.update(res=out['res'], why=out['why'], d=observe.delta(state, new))
        return ev, out

    def points(self, n, limit):
        if n <= limit:
            return list(range(1, n + 1))
        return sorted(self.r.sample(range(1, n + 1), limit - 1) + [n])

    def strike(self, ev, evs, budget):
        """All kinds of faults on one operation."""
        def add(kind, at, memory=False):
            done, out = self.disturb(ev, kind, at, memory)
            evs.append(done)
            evs.append({'op': 'reset', 'res': 'ok', 'd': {}})
            return out
        clean = add('count', 0)
        ne, ns = clean['nexec'], clean['nstep']
        mem = add('count', 0, True)
        me, ms = mem['nexec'], mem['nstep']
        for at in self.points(ns, budget):
            add('kill', at)
        for at in self.points(ne, budget):
            add(self.r.choice(['killexec', 'killexec', 'ctrlc']), at)
        for at in self.points(ne, budget):
            add('error', at)
        for at in self.points(me, budget):
            add('error' if self.r.random() < 0.8 else 'ctrlc', at, True)
        for at in self.points(ns, max(2, budget // 2)):
            add('interrupt', at)
        for at in self.points(ms, max(2, budget // 2)):
            add('interrupt', at, True)
        add('full', 0, self.r.random() < 0.5)
        size = os.path.getsize(self.sub.file) // 1024
        for at in sorted(self.r.sample(range(1, size + 8), max(2, budget // 2))):
            add(self.r.choice(['killwrite', 'killwrite', 'limit']), at)


def record(seed, profile, workdir, ops=3, budget=5):
    a = Arena(seed, profile, workdir)
    a.grow(a.r.choice([0, 2, 4, 8]))
    out = []
    for _ in range(ops):
        for _ in range(8):      # prefer operations that succeed
            ev = a.event()
            done, info = a.disturb(ev, 'count', 0)
            if done['res'] == 'ok' and (done['d'] or a.r.random() < 0.1):
                break
        evs = []
        init, used = a.sub.state, a.sub.used
        a.strike(ev, evs, budget)
        out.append({'seed': seed, 'kind': 'faults', 'profile': profile, 'ops': ops, 'budget': budget,
                    'init': init, 'used': used, 'evs': evs})
        a.sub.run(ev)
    a.sub.close()
    return out


def owners(op, clause):
    return {'C08'} if clause.startswith('fault:') else set()


def replay(doc):
    import engines
    tr = doc['trace']
    with common.Scratch() as d:
        out = record(tr['seed'], tr['profile'], d, tr['ops'], tr['budget'])
    fails, _, _ = engines.validate(out, 'Trace_Space')
    for f in fails:
        print(json.dumps(out[f['t'] - 1]['evs'][f['i'] - 1])[:1500])
        print('differs:', f['bad'])
    if not fails:
        print('no difference on this run')
    return 1 if fails else 0
