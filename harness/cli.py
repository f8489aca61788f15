"""Random and given histories of command lines over a directory of files.

A command is a record holding what it asks for (see spec/Cli.tla); its
argument vector and the CSV text fed to it are made from that record, and
printed tables are read back into records, so that the specification judges
both.  Commands run in this process with stand-in streams, and now and then
as a real process.
"""
import contextlib
import csv
import hashlib
import io
import json
import os
import random
import re
import shutil
import sqlite3
import subprocess
import sys
import logging

import common
import gen
import match
import observe
import space
from common import NOID, BLANK, BAD
from flow import fix

import toron
from toron import bind_file, DataSpace
from toron.cli.main import main

READING = ('exp_index', 'exp_qty', 'exp_map', 'info')


def code(v):
    if v is None or v == '':
        return BLANK
    try:
        f = float(v) / observe.UNIT
        return int(f) if f == int(f) else fix(f) * 0 + observe.NONINT
    except (ValueError, OverflowError):
        return BAD


class _Tty(io.TextIOWrapper):
    def isatty(self):
        return True


def in_process(argv, data):
    """(exit code or error text, output)"""
    kind = _Tty if data is None else io.TextIOWrapper
    si = kind(io.BytesIO(data or b''), encoding='utf-8')
    so = io.TextIOWrapper(io.BytesIO(), encoding='utf-8')
    err = io.StringIO()
    text = io.StringIO()
    try:
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(err):
            rc = main(list(argv), stdin=si, stdout=so, stderr=err)
        rc = int(rc or 0)
    except SystemExit as e:
        rc = 0 if e.code in (None, 0) else f'exit {e.code}'
    except Exception as e:
        rc = f'{type(e).__name__}: {e}'
    try:
        so.flush()
        out = so.buffer.getvalue().decode('utf-8')
    except ValueError:
        out = ''
    return rc, out + text.getvalue()


def as_process(argv, data):
    env = dict(os.environ, PYTHONPATH=os.path.join(common.REPO, 'src'), PYTHONDONTWRITEBYTECODE='1')
    master = slave = None
    kw = {'input': data} if data is not None else {}
    try:
        if data is None:
            import pty
            master, slave = pty.openpty()
            kw['stdin'] = slave
        p = subprocess.run([sys.executable, '-c', 'import sys; from toron.cli.main import main; sys.exit(main())'] + list(argv),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100, **kw)
    finally:
        for fd in (master, slave):
            if fd is not None:
                os.close(fd)
    return p.returncode and f'exit {p.returncode}: {p.stderr[-160:]!r}', p.stdout.decode('utf-8', 'surrogateescape')


def words(items, r):
    """Command line words for a list of names: one each, or joined by commas."""
    out, group = [], []

    def flush():
        if group:
            buf = io.StringIO()
            csv.writer(buf, lineterminator='').writerow(group)
            out.append(r.choice(['', ' ']) + buf.getvalue() if not buf.getvalue().startswith('"') else buf.getvalue())
            group.clear()
    for x in items:
        group.append(x)
        if r.random() < 0.5:
            flush()
    flush()
    return out


def table_text(rows, r):
    buf = io.StringIO()
    csv.writer(buf, lineterminator=r.choice(['\n', '\n', '\r\n']),
               quoting=r.choice([csv.QUOTE_MINIMAL, csv.QUOTE_MINIMAL, csv.QUOTE_ALL])).writerows(rows)
    return buf.getvalue().encode('utf-8')


def parse(text):
    return list(csv.reader(io.StringIO(text, newline='')))


class World:
    def __init__(self, seed, workdir, opts=None):
        self.r = random.Random(seed)
        self.opts = opts or {}
        self.g = gen.Gen(seed + 1, 'mixed', bad=0.2)
        self.top = workdir
        self.dir = os.path.join(workdir, 'w')
        os.makedirs(os.path.join(self.dir, 'sub'))
        self.memo = observe.HashMemo()
        self.snaps, self.known = [], {}
        self.evs = []
        self.codes = {}             # text -> (uid, id)
        self.names = []             # the files commands are about
        self.last = {}              # (kind, file) -> last text printed
        self.others = None
        self.now, self.junk = {}, {}
        self.sha = {}

    def flip(self, p):
        return self.r.random() < p

    # -- what is in the directory -------------------------------------------
    def snap(self, path):
        with open(path, 'rb') as f:
            digest = hashlib.sha256(f.read()).hexdigest()
        if digest in self.known:
            return digest, self.known[digest]
        try:
            s = observe.read_state(path, self.memo)
            n = len(s['cols'])
            con = sqlite3.connect(path)
            try:
                uid = json.loads(con.execute("select value from property where key='unique_id'").fetchone()[0])
                seq = con.execute("select seq from sqlite_sequence where name='label_index'").fetchone()
                fm = sorted([u, nm, o, i, observe._bits(lv, n), fix(v), observe._fix(p, common.SCALE)]
                            for u, nm, o, i, lv, v, p in con.execute(
                                'select other_unique_id, name, other_index_id, index_id, mapping_level, '
                                'mapping_value, proportion from mapping join link using (link_id)'))
            finally:
                con.close()
        except Exception:
            self.known[digest] = 0
            return digest, 0
        used = max([r[0] for r in s['idx']] + [seq[0] if seq else 0])
        one = {'uid': uid, 'born': observe.born(path), 's': s, 'fm': fm, 'used': used}
        if one in self.snaps:
            k = self.snaps.index(one) + 1
        else:
            self.snaps.append(one)
            k = len(self.snaps)
        self.known[digest] = k
        return digest, k

    def look(self):
        now, junk, sha = {}, {}, {}
        for base, dirs, files in os.walk(self.dir):
            for f in files:
                path = os.path.join(base, f)
                name = os.path.relpath(path, self.dir)
                digest, k = self.snap(path)
                sha[name] = digest
                if k:
                    now[name] = k
                else:
                    junk[name] = digest
        self.now, self.junk, self.sha = now, junk, sha

    def state(self, f):
        return self.snaps[self.now[f] - 1]['s']

    def uid(self, f):
        return self.snaps[self.now[f] - 1]['uid']

    # -- building -------------------------------------------------------------
    def build(self):
        os.chdir(self.dir)
        if self.flip(0.5):
            self.others = {u: space.make_other(u, self.top) for u in gen.UIDS}
        self.names = ['a.toron', 'b.toron'] + (['sub/c.toron'] if self.flip(0.3) else [])
        if self.flip(0.15):
            with open('junk.toron', 'w') as f:
                f.write('not a space')
        for f in self.names:
            if self.flip(0.75):
                self.make(f)
        self.look()

    def make(self, f):
        d = os.path.join(self.top, 'made')
        os.makedirs(d)
        sub = space.Subject(d, self.others or {}, 'rw', memo=self.memo)
        g = gen.Gen(self.r.randrange(1 << 30), 'mixed')
        for make in g.script(sub.state):
            ev = make(sub.state)
            if not self.others and ev['op'] in ('add_link', 'ins_map2'):
                continue
            ev.setdefault('fs', g.r.randrange(1 << 30))
            sub.run(ev)
        if self.flip(0.7):
            for ev in self.complete_weights(sub.state):
                sub.run(ev)
        sub.close()
        os.replace(os.path.join(d, 'bound.toron'), os.path.join(self.dir, f))
        shutil.rmtree(d)

    def complete_weights(self, s):
        if not s['grp']:
            yield dict(op='add_wg', name='pop', desc='', sels=[], complete=False, dflt='none')
        name = s['dflt'] or (s['grp'][0][0] if s['grp'] else 'pop')
        rows = [[r[0], r[1], self.r.randrange(0, 6)] for r in s['idx'] if r[0]]
        if rows and s['cols']:
            yield dict(op='ins_wt', g=name, hasid=True, lab='all', hasval=True, oc='ignore', rows=rows)

    # -- one command ----------------------------------------------------------
    def path(self, f):
        k = self.r.random()
        return f if k < 0.6 else './' + f if k < 0.8 else os.path.join(self.dir, f)

    def run(self, e, argv, data=None, paths=None):
        """Run a command; e names its files, argv holds the words after FILE."""
        e = dict(e)
        e.setdefault('usage', False)
        paths = paths or [self.path(f) for f in e['files']]
        e['hints'] = paths
        argv = [paths[0]] + [paths[k[0]] if isinstance(k, tuple) else k for k in argv]
        if e['cmd'] not in READING + ('init',) and not e['backup']:
            argv.append('--no-backup')
        e['bk'] = [os.path.join(os.path.dirname(f), 'backup-' + os.path.basename(f)) for f in e['files']]
        before, sha = dict(self.now), dict(self.sha)
        e['pre'] = sorted([f, k] for f, k in self.now.items())
        e['junk0'] = sorted([f, k] for f, k in self.junk.items())
        real = self.flip(self.opts.get('real', 0.02))
        rc, out = (as_process if real else in_process)(argv, data)
        self.look()
        e['res'] = 'ok' if rc == 0 else 'err'
        e['why'] = str(rc)[:160]
        e['argv'] = argv
        e['post'] = sorted([f, k] for f, k in self.now.items())
        e['junk1'] = sorted([f, k] for f, k in self.junk.items())
        e['touched'] = sorted(f for f in sha if f in self.sha and self.sha[f] != sha[f])
        if e['cmd'] == 'init':
            f = e['files'][0]
            new = self.snaps[self.now[f] - 1] if f in self.now and f not in before else {'uid': '', 'born': ''}
            e['uid'], e['born'] = new['uid'], new['born']
        self.evs.append(e)
        if rc == 0 and e['cmd'] in READING:
            try:
                getattr(self, 'read_' + e['cmd'])(e, out)
            except Exception as err:
                raise AssertionError(f'{e["cmd"]} printed what cannot be read: {err!r}\n{out[:500]}')
        return e

    # -- reading what was printed -----------------------------------------------
    def read_exp_index(self, e, out):
        f = e['files'][0]
        self.last['index', f] = out
        hdr, *rows = parse(out)
        n = len(self.state(f)['cols'])
        by = {json.dumps(x[1]): x[0] for x in self.state(f)['idx']}
        for x in rows:
            i = by.get(json.dumps(x[1:n + 1]))
            if i is not None:
                self.learn(x[0], self.uid(f), i)
        e['rd'] = {'hdr': hdr, 'rows': [[x[0], x[1:n + 1], [code(v) for v in x[n + 1:]]] for x in rows]}

    def learn(self, text, uid, i):
        self.codes.setdefault(text, [])
        if (uid, i) not in self.codes[text]:
            self.codes[text].append((uid, i))

    def code_text(self, f, i):
        """The printed code of a record, or None."""
        for text, who in self.codes.items():
            if (self.uid(f), i) in who:
                return text
        return None

    def need_codes(self, f):
        if f in self.now and any(self.code_text(f, r[0]) is None for r in self.state(f)['idx']):
            self.export('index', f)

    def read_exp_qty(self, e, out):
        f = e['files'][0]
        self.last['qty', f] = out
        hdr, *rows = parse(out)
        e['rd'] = {'hdr': hdr, 'rows': [x[:-1] + [code(x[-1])] for x in rows]}

    def read_exp_map(self, e, out):
        f1, f2 = e['files']
        self.last['map', f1, f2, e['nm']] = out
        hdr, *rows = parse(out)
        n1, n2 = len(self.state(f1)['cols']), len(self.state(f2)['cols'])
        e['rd'] = {'hdr': hdr, 'rows': [[x[0], x[1:1 + n1], BLANK if x[1 + n1] == '' else fix(x[1 + n1]), x[2 + n1],
                                         x[3 + n1:3 + n1 + n2], x[3 + n1 + n2] if len(x) > 3 + n1 + n2 else '']
                                        for x in rows]}

    def read_info(self, e, out):
        lines = out.split('\n')
        e['rd'] = dict(observe.parse_info('\n'.join(lines[3:])), head=lines[1])
        e['base'] = os.path.basename(e['files'][0])

    # -- the commands -------------------------------------------------------------
    def one(self, f, cmd, argv, data=None, **kw):
        kw.setdefault('backup', self.flip(0.7))
        return self.run(dict(cmd=cmd, files=[f], **kw), argv, data)

    def two(self, f1, f2, cmd, argv, data=None, **kw):
        kw.setdefault('backup', self.flip(0.7))
        return self.run(dict(cmd=cmd, files=[f1, f2], **kw), argv, data)

    def export(self, kind, f):
        return self.one(f, 'exp_' + kind, {'index': ['index'], 'qty': ['quantity']}[kind], backup=False)

    def info(self, f):
        return self.one(f, 'info', [] if self.flip(0.3) else ['info'], backup=False)

    def export_map(self, f1, f2, nm):
        for f in {f1, f2}:
            self.need_codes(f)
        return self.two(f1, f2, 'exp_map', ['mapping', (1,), nm], nm=nm, backup=False)

    def init(self, f=None, given=None):
        if f is None:
            f = self.r.choice(['new.toron', 'n2', 'my file.toron', 'sub/e.toron', 'nodir/x.toron', ' ', 'sub', 'junk.toron',
                               self.r.choice(self.names), '.toron', 'x.y.toron'])
        blocked = f in ('nodir/x.toron', ' ', 'sub') or f in self.junk
        dom = self.r.choice(['dö m', 'd1', '', None, None]) if given is None else given
        # (an empty domain name is taken for none given)
        stem = os.path.splitext(os.path.basename(f))[0]
        argv = ['init'] + ([] if dom is None else ['--domain', dom])
        # (shown for files that could not be made as well)
        e = self.run(dict(cmd='init', files=[f], blocked=blocked, backup=False, dom=dom or stem), argv,
                     paths=[f if f == ' ' else self.path(f)])
        if e['res'] == 'ok' and f not in self.names and len(self.names) < 4:
            self.names.append(f)
        return e

    def add_items(self, f, cmd, word, items):
        w = words(items, self.r) or [',']
        return self.one(f, cmd, ['add', word] + w, items=list(items))

    def weight(self, f, ev):
        argv = ['add', 'weight', ev['name']]
        dflt = ev['dflt'] == 'yes'
        if ev['desc']:
            argv += ['--description', ev['desc']]
        if dflt:
            argv += ['--default']
        if ev['sels']:
            argv += ['--selectors'] + ev['sels']
        return self.one(f, 'add_weight', argv, nm=ev['name'], desc=ev['desc'], sels=ev['sels'], default=dflt)

    def send_upd_weight(self, f, nm, desc, add, rem, dflt, sels):
        argv = ['update', 'weight', nm]
        if desc:
            argv += ['--description', desc]
        if add:
            argv += ['--add-selector'] + add
        if rem:
            argv += ['--remove-selector'] + rem
        if dflt:
            argv += ['--default']
        return self.one(f, 'upd_weight', argv, nm=nm, desc=desc, addsel=add, remsel=rem, default=dflt, sels=sels)

    def upd_weight(self, f):
        s = self.state(f)
        grp = self.g.pick(s['grp']) if not self.flip(0.1) else None
        nm, old = (grp[0], grp[2]) if grp else ('nope', [])
        add = self.r.sample(gen.SELS, self.r.choice([0, 1, 1, 2]))
        rem = [x for x in self.g.some(old + gen.SELS[:2], 0.3) if x not in add]
        if len(set(old)) < len(old):
            rem = []
        desc, dflt = self.g.pick(gen.DESCS), self.flip(0.3)
        return self.send_upd_weight(f, nm, desc, add, rem, dflt, sorted((set(old) | set(add)) - set(rem)))

    def move(self, f, what):
        names = self.state(f)['disp' if what == 'label' else 'attrs']
        nm = self.g.pick(names) if names and not self.flip(0.15) else 'nothing'
        k = self.r.choice([-3, -2, -1, -1, 0, 1, 1, 2, 3])
        left = k < 0 or (k == 0 and self.flip(0.5))
        argv = ['update', what, nm, '--move-left' if left else '--move-right']
        if not (abs(k) == 1 and self.flip(0.5)):
            argv.append(str(abs(k)))
        usage = k == 0      # (0 is taken for an option that was not given)
        if k and self.flip(0.08):
            usage = True
            argv = self.r.choice([argv + ['--move-right' if left else '--move-left', '1'], argv[:3], argv[:3] + ['--move-left', '-2'],
                                  argv + ['extra', 'words']])
        return self.one(f, 'upd_' + ('label' if what == 'label' else 'attr'), argv, nm=nm, k=k, usage=usage)

    def link(self, f1, f2, remove=False):
        dirn = self.r.choice(['both', 'both', 'left', 'right'])
        have = [l[1] for l in self.state(f1)['lnk'] + self.state(f2)['lnk']] if f1 in self.now and f2 in self.now else []
        nm = self.r.choice(have) if have and self.flip(0.9 if remove else 0.15) else self.r.choice(['edge', 'e 2', 'pop'])
        argv = ['remove' if remove else 'add', 'link', (1,), nm] + ({'both': [], 'left': ['--left'], 'right': ['--right']}[dirn])
        usage = self.flip(0.03)
        if usage:
            argv += ['--left', '--right']
        if remove:
            return self.two(f1, f2, 'rem_link', argv, nm=nm, dir=dirn, usage=usage)
        return self.send_link(f1, f2, argv, nm, dirn, usage, self.g.pick(gen.DESCS), self.flip(0.3),
                              self.r.sample(gen.SELS, self.r.choice([0, 0, 1, 2])))

    def send_link(self, f1, f2, argv, nm, dirn, usage, desc, dflt, sels):
        if desc:
            argv += ['--description', desc]
        if dflt:
            argv += ['--default']
        if sels:
            argv += ['--selectors'] + sels
        return self.two(f1, f2, 'add_link', argv, nm=nm, dir=dirn, usage=usage, desc=desc, default=dflt, sels=sels)

    # index tables
    def bad_code(self, f):
        """A code that stands for no record."""
        text = self.g.pick([t for t in self.codes] or ['12X0A0B0C0D'])
        k = self.r.random()
        if k < 0.3:
            return 'abc'
        if k < 0.6:
            return text[:-1] + ('0' if text[-1] != '0' else '1')
        if k < 0.8:
            return '9' + text
        return text.split('X')[0]

    def foreign(self, f):
        mine = self.uid(f)
        return self.g.pick([t for t, who in self.codes.items() if all(u != mine for u, _ in who)] or ['5X00000000'])

    def imp_index(self, f, ev):
        if f not in self.now:
            return self.one(f, 'imp_index', ['index'], b'x\nA\n', **self.index_fields([], [], {}))
        if ev['hasid']:
            self.need_codes(f)
        cols = self.state(f)['cols']
        rows = []
        for i, lab, w in ev['rows']:
            text = ''
            if i != NOID:
                text = self.code_text(f, i) or self.r.choice([self.bad_code(f), self.foreign(f)])
            rows.append([text if ev['hasid'] else '', lab, w])
        if ev['hasid'] and rows and self.flip(0.1):
            self.r.choice(rows)[0] = self.r.choice([self.bad_code(f), self.foreign(f)])
        if ev['hasid'] and self.flip(0.1):
            for x in rows:
                x[0] = x[0] and self.foreign(f)
        head = self.r.choice(['index_code', 'd1_index_code', 'my code'] + (['index_id'] if self.flip(0.3) else []))
        if self.flip(0.1) and rows:     # codes only far down
            rows = [['', list(self.r.choice(rows)[1]), [BLANK for _ in ev['dw']]] for _ in range(self.r.choice([7, 8, 9, 10]))] + rows
        return self.send_index(f, dict(hasid=ev['hasid'], head=head, lab=ev['lab'], dw=ev['dw'], rows=rows), ev['lc'], ev['wc'])

    def index_fields(self, rows, dw, ev):
        return dict(code=ev.get('hasid', False), head=ev.get('head', ''), lab=ev.get('lab', 'all'), dw=list(dw), lc=ev.get('lc', 'abort'),
                    wc=ev.get('wc', 'abort'), rows=rows, empty=ev.get('empty', False))

    def send_index(self, f, t, lc, wc):
        cols = self.state(f)['cols']
        lc_cols = space.label_cols(t, cols)
        names = ([t['head']] if t['hasid'] else []) + lc_cols + list(t['dw'])
        fmt = space.Fmt(self.r.randrange(1 << 30))
        body = []
        for text, lab, w in t['rows']:
            by = dict(zip(cols, lab))
            body.append(([text] if t['hasid'] else []) + [by[c] for c in lc_cols] + [fmt.num(v, True, ('abc', 'nan?')) for v in w])
        order = list(range(len(names)))
        if self.flip(0.5):
            self.r.shuffle(order)
        rows = [[x[k] for k in order] for x in [names] + body]
        if self.flip(0.2):
            pos = self.r.randrange(len(names) + 1)
            rows = [x[:pos] + ['extra' if k == 0 else 'more'] + x[pos:] for k, x in enumerate(rows)]
        if not rows[0]:
            return None
        return self.feed_index(f, table_text(rows, self.r), t, lc, wc)

    def feed_index(self, f, text, t, lc, wc):
        argv = ['index']
        if lc != 'abort' or self.flip(0.3):
            argv += ['--on-label-conflict', lc]
        if wc != 'abort' or self.flip(0.3):
            argv += ['--on-weight-conflict', wc]
        return self.one(f, 'imp_index', argv, text, usage='other' in (lc, wc),
                        **self.index_fields(t['rows'], t['dw'], dict(t, lc=lc, wc=wc)))

    def reimport_index(self, src, f):
        """Feed a printed index to a file."""
        text = self.last.get(('index', src))
        if text is None or f not in self.now:
            return
        cols = self.state(f)['cols']
        hdr, *rows = parse(text)
        have = [c for c in cols if c in hdr[1:]]
        lab = 'all' if len(have) == len(cols) else 'part' if have else 'none'
        dw = [c for c in hdr[1:] if c not in cols]
        pos = {c: k for k, c in enumerate(hdr)}
        if len(pos) < len(hdr):
            return
        out = [[x[0], [x[pos[c]] if c in pos else '' for c in cols], [code(x[pos[c]]) for c in dw]] for x in rows]
        t = dict(hasid=True, head=hdr[0], lab=lab, dw=dw, rows=out)
        return self.feed_index(f, text.encode(), t, self.r.choice(['abort', 'abort', 'ignore', 'replace']),
                               self.r.choice(['abort', 'ignore', 'ignore', 'replace']))

    # quantities
    def imp_qty(self, f, ev):
        if f not in self.now:
            return
        cols = self.state(f)['cols']
        lc_cols = space.label_cols(ev, cols)
        name = 'quantity' if self.flip(0.6) else 'amount'
        names = (['domain'] if ev['hasdom'] else []) + lc_cols + list(ev['acols']) + ([name] if ev['hasval'] else [])
        fmt = space.Fmt(self.r.randrange(1 << 30))
        body = []
        for dom, lab, attrs, v in ev['rows']:
            at, by = dict(map(tuple, attrs)), dict(zip(cols, lab))
            body.append(([dom] if ev['hasdom'] else []) + [by[c] for c in lc_cols] + [at.get(k, '') for k in ev['acols']] +
                        ([fmt.num(v, True)] if ev['hasval'] else []))
        order = list(range(len(names)))
        if self.flip(0.5):
            self.r.shuffle(order)
        rows = [[x[k] for k in order] for x in [names] + body]
        if not rows[0]:
            return None
        return self.feed_qty(f, table_text(rows, self.r), ev, name)

    def feed_qty(self, f, text, ev, name):
        argv = ['quantity']
        if name != 'quantity':
            argv += ['--column', name]
        if ev['oe'] != 'abort' or self.flip(0.3):
            argv += ['--on-existing', ev['oe']]
        if ev['ail']:
            argv.append('--allow-invalid-label')
        if ev['aip']:
            argv.append('--allow-invalid-partition')
        return self.one(f, 'imp_qty', argv, text, empty=False, usage=ev['oe'] not in ('abort', 'ignore', 'replace', 'sum'),
                        **{k: ev[k] for k in ('hasdom', 'lab', 'acols', 'hasval', 'ail', 'aip', 'oe', 'rows')})

    def reimport_qty(self, src, f):
        text = self.last.get(('qty', src))
        if text is None or f not in self.now:
            return
        cols = self.state(f)['cols']
        hdr, *rows = parse(text)
        pos = {c: k for k, c in enumerate(hdr)}
        if len(pos) < len(hdr) or 'domain' in cols:
            return
        have = [c for c in cols if c in pos]
        lab = 'all' if len(have) == len(cols) else 'part' if have else 'none'
        ac = [c for c in hdr if c not in cols and c not in ('domain', 'quantity')]
        out = [[x[pos['domain']] if 'domain' in pos else '', [x[pos[c]] if c in pos else '' for c in cols],
                [[c, x[pos[c]]] for c in ac if x[pos[c]] != ''], code(x[pos['quantity']])] for x in rows]
        ev = dict(hasdom='domain' in pos, lab=lab, acols=ac, hasval=True, ail=self.flip(0.5), aip=self.flip(0.5),
                  oe=self.r.choice(['abort', 'abort', 'ignore', 'replace', 'sum']), rows=out)
        return self.feed_qty(f, text.encode(), ev, 'quantity')

    # mappings
    def side(self, f, withcode):
        s = self.state(f)
        recs = s['idx']
        i, lab = self.r.choice(recs if self.flip(0.1) or len(recs) == 1 else recs[1:])
        p = self.r.random()
        text = ''
        if withcode and p < 0.6:
            text = self.code_text(f, i) or ''
            if self.flip(0.02):
                text = self.r.choice([self.bad_code(f), self.foreign(f)])
        if p < 0.75:
            bits = [1] * len(lab)
        elif p < 0.985 and len(s['st']) > 1:
            bits = self.r.choice([x[0] for x in s['st'] if 1 in x[0]])
        else:
            bits = [self.r.randrange(2) for _ in lab]
        lab = [v if b else '' for v, b in zip(lab, bits)]
        if self.flip(0.04) and lab:
            lab[self.r.randrange(len(lab))] = 'zz'
        return text, lab

    def imp_map(self, f1, f2, nm):
        if f1 == f2 or self.uid(f1) == self.uid(f2):
            return
        for f in (f1, f2):
            if not self.state(f)['dflt'] and self.flip(0.9):
                self.weight(f, dict(name='pop', desc='', sels=[], dflt='yes'))
                rows = [['', x[1], [self.r.randrange(6)]] for x in self.state(f)['idx'][1:]]
                if rows and self.flip(0.8) and 'pop' in [x[0] for x in self.state(f)['grp']]:
                    self.send_index(f, dict(hasid=False, head='', lab='all', dw=['pop'], rows=rows), 'ignore', 'ignore')
        has = [self.flip(0.5), self.flip(0.5)]
        for f, h in zip((f1, f2), has):
            if h:
                self.need_codes(f)
        rows, count = [], self.r.choice([1, 2, 4, 6, 8])
        for _ in range(count):
            (t1, l1), (t2, l2) = self.side(f1, has[0]), self.side(f2, has[1])
            v = self.r.choice([0, 1, 2, 5, 10, 10, 20, 33, 64])
            if self.flip(0.008):
                v = self.r.choice([BAD, -1, BLANK])
            if self.flip(0.04):
                t1, l1, v = '', [''] * len(l1), BLANK
            rows.append([t1, l1, v, t2, l2])
        if self.flip(0.4):
            for x in self.state(f1)['idx'][1:]:
                t2, l2 = self.side(f2, has[1])
                rows.append([self.code_text(f1, x[0]) or '' if has[0] else '', x[1], 3, t2, l2])
            for x in self.state(f2)['idx'][1:]:
                t1, l1 = self.side(f1, has[0])
                rows.append([t1, l1, 4, self.code_text(f2, x[0]) or '' if has[1] else '', x[1]])
            self.r.shuffle(rows)
        cols = [list(self.state(f)['cols']) for f in (f1, f2)]
        heads = [self.r.choice(['index_code', 'x_index_code']) if k == 0 else 'z_index_code' for k in (0, 1)]
        keep = [list(c) for c in cols]
        for k in (0, 1):
            if self.flip(0.1) and has[k]:
                keep[k] = self.g.some(keep[k], 0.7)
            if self.flip(0.08):
                self.r.shuffle(keep[k])
        swap = self.flip(0.15)
        tab = [[t1, [dict(zip(cols[0], l1))[c] for c in keep[0]], v, t2, [dict(zip(cols[1], l2))[c] for c in keep[1]]]
               for t1, l1, v, t2, l2 in rows]
        if swap:
            tab = [[t2, l2, v, t1, l1] for t1, l1, v, t2, l2 in tab]
            has, heads, keep = has[::-1], heads[::-1], keep[::-1]
        return self.send_map(f1, f2, nm, has, heads, keep, tab, beside=self.flip(0.06) and all(has))

    def send_map(self, f1, f2, nm, has, heads, cols, tab, given=None, beside=False):
        fmt = space.Fmt(self.r.randrange(1 << 30))
        if beside:  # both code columns on one side of the value column
            left = self.flip(0.5)
            c = [heads[0], heads[1]]
            rows = [(c if left else []) + cols[0] + [nm] + ([] if left else c) + cols[1]]
            for t1, l1, v, t2, l2 in tab:
                c = [t1, t2]
                rows.append((c if left else []) + l1 + [fmt.num(v, True)] + ([] if left else c) + l2)
            return self.feed_map(f1, f2, nm, table_text(rows, self.r), has, heads, cols, tab, given, beside)
        rows = [([heads[0]] if has[0] else []) + cols[0] + [nm if self.flip(0.9) else f'{nm}: aaaa -> bbbb'] +
                ([heads[1]] if has[1] else []) + cols[1]]
        for t1, l1, v, t2, l2 in tab:
            rows.append(([t1] if has[0] else []) + l1 + [fmt.num(v, True)] + ([t2] if has[1] else []) + l2)
        return self.feed_map(f1, f2, nm, table_text(rows, self.r), has, heads, cols, tab, given)

    def feed_map(self, f1, f2, nm, text, has, heads, cols, tab, given=None, beside=False):
        links = [[l[:2] for l in self.state(f)['lnk']] for f in (f1, f2)]
        real = [d for d, l, o in (('left', links[0], f2), ('right', links[1], f1)) if [self.uid(o), nm] in l] + ['both']
        dirn = self.r.choice(['both', 'right', 'left'] if self.flip(0.1) else real)
        lim, ov, part = self.r.choice([1, 1, 2, 5, 20]), self.flip(0.3), self.flip(0.8)
        if given:
            dirn, lim, ov, part = given
        argv = ['mapping', (1,), nm] + {'both': [], 'left': ['--left'], 'right': ['--right']}[dirn]
        if lim != 1 or self.flip(0.3):
            argv += ['--match-limit', str(lim)]
        if ov:
            argv.append('--allow-overlapping')
        if part:
            argv.append('--allow-incomplete')
        return self.two(f1, f2, 'imp_map', argv, text, nm=nm, dir=dirn, lim=lim, ov=ov, incomplete=part,
                        has=has, heads=heads, cols=cols, rows=tab, beside=beside)

    def reimport_map(self, key, f1, f2, nm):
        """Feed a printed mapping to a link."""
        text = self.last.get(key)
        if text is None or self.uid(f1) == self.uid(f2):
            return
        hdr, *rows = parse(text)
        a, b = self.state(key[1])['cols'], self.state(key[2])['cols']
        n1 = len(a)
        if len(hdr) < 3 + n1 or [hdr[0][-10:], hdr[2 + n1][-10:]] != ['index_code', 'index_code'] or hdr[1 + n1] != key[3]:
            return
        tab = [[x[0], x[1:1 + n1], code(x[1 + n1]), x[2 + n1], x[3 + n1:]] for x in rows]
        if any(x[2] == observe.NONINT for x in tab):
            return
        if key[3] != nm:
            buf = io.StringIO()
            csv.writer(buf, lineterminator='\n').writerows([hdr[:1 + n1] + [nm] + hdr[2 + n1:]] + rows)
            text = buf.getvalue()
        return self.feed_map(f1, f2, nm, text.encode(), [True, True], [hdr[0], hdr[2 + n1]], [hdr[1:1 + n1], hdr[3 + n1:]], tab)

    # -- histories ------------------------------------------------------------------
    def usable(self):
        return [f for f in self.names if f in self.now]

    def step(self):
        r, g = self.r, self.g
        live = self.usable()
        k = r.random()
        focus = self.opts.get('focus')
        if focus == 'tables' and self.flip(0.7):
            k = 0.45 + 0.55 * k
        elif focus == 'changes' and self.flip(0.5):
            k = r.choice([0.42 * k, 0.80 + 0.055 * k])
        if not live or k < 0.06:
            return self.init()
        if self.flip(0.03):
            self.copy()
            live = self.usable()
        f = r.choice(live)
        if k < 0.09:        # a file that is not there, or not a space
            missing = r.choice(['nothing.toron', 'nodir/x.toron'] + list(self.junk))
            return r.choice([lambda: self.export('index', missing), lambda: self.info(missing),
                             lambda: self.add_items(missing, 'add_label', 'label', ['q']),
                             lambda: self.imp_index(missing, {}),
                             lambda: self.link(f, missing), lambda: self.link(missing, f)])()
        s = self.state(f)
        if k < 0.15:
            return self.add_items(f, 'add_label', 'label', (g.g_add_cols(s) or {'cols': []})['cols'])
        if k < 0.19:
            ev = g.g_add_wg(s)
            return self.weight(f, ev) if ev else None
        if k < 0.22:
            return self.upd_weight(f)
        if k < 0.26:
            return self.add_items(f, 'add_part', 'partition', g.g_add_pdef(s)['def'])
        if k < 0.31:
            a = g.g_set_attrs(s)['attrs']
            return self.add_items(f, 'add_attr', 'attribute', a)
        if k < 0.34:
            return self.move(f, r.choice(['label', 'attribute']))
        if k < 0.37:
            ev = g.g_ren_cols(s)
            if ev is None:
                return None
            old, new = ev['pairs'][0]
            return self.one(f, 'ren_label', ['rename', 'label', old, new], nm=old, new=new)
        if k < 0.39:
            v = g.pick(gen.DOMS)
            return self.one(f, 'ren_domain', ['rename', 'domain', v], new=v)
        if k < 0.45:
            return self.info(f)
        if k < 0.53:
            return self.export('index', f)
        if k < 0.63:
            ev = g.g_ins_index(s)
            return self.imp_index(f, ev) if ev else None
        if k < 0.67:
            return self.reimport_index(r.choice(live), r.choice(live))
        if k < 0.70:
            return self.export('qty', f)
        if k < 0.75:
            ev = g.g_ins_q2(s)
            return self.imp_qty(f, ev) if ev else None
        if k < 0.78:
            return self.reimport_qty(r.choice(live), f)
        if k < 0.80:
            return self.api(f)
        f1, f2 = (r.sample(live, 2) if len(live) > 1 and not self.flip(0.02) else (f, f))
        links = [l[1] for l in self.state(f2)['lnk'] if l[0] == self.uid(f1)]
        back = [l[1] for l in self.state(f1)['lnk'] if l[0] == self.uid(f2)]
        if k < 0.84 or not links + back:
            return self.link(f1, f2)
        if k < 0.855:
            return self.link(f1, f2, remove=True)
        nm = r.choice(links + back) if not self.flip(0.05) else 'edge'
        if k < 0.94:
            return self.imp_map(f1, f2, nm)
        if k < 0.98:
            return self.export_map(f1, f2, r.choice(links) if links and not self.flip(0.1) else nm)
        keys = [x for x in self.last if x[0] == 'map' and x[1] in self.now and x[2] in self.now]
        return self.reimport_map(r.choice(keys), f1, f2, nm) if keys else None

    # -- a command given by its record
    def perform(self, e):
        e = dict(e)
        cmd, fs, backup = e['cmd'], e['files'], e['backup']
        f = fs[0]
        word = {'add_label': 'label', 'add_part': 'partition', 'add_attr': 'attribute'}.get(cmd)
        if word:
            return self.add_items(f, cmd, word, e['items'])
        if cmd == 'init':
            return self.init(f, e['dom'])
        if cmd == 'add_weight':
            return self.weight(f, dict(name=e['nm'], desc=e['desc'], sels=e['sels'], dflt='yes' if e['default'] else 'none'))
        if cmd == 'upd_weight':
            return self.send_upd_weight(f, e['nm'], e['desc'], e['addsel'], e['remsel'], e['default'], e['sels'])
        if cmd in ('upd_label', 'upd_attr'):
            argv = ['update', 'label' if cmd == 'upd_label' else 'attribute', e['nm'],
                    '--move-left' if e['k'] < 0 else '--move-right', str(abs(e['k']))]
            return self.one(f, cmd, argv, nm=e['nm'], k=e['k'])
        if cmd == 'ren_label':
            return self.one(f, cmd, ['rename', 'label', e['nm'], e['new']], nm=e['nm'], new=e['new'])
        if cmd == 'ren_domain':
            return self.one(f, cmd, ['rename', 'domain', e['new']], new=e['new'])
        if cmd == 'info':
            return self.info(f)
        if cmd in ('exp_index', 'exp_qty'):
            return self.export(cmd[4:], f)
        if cmd == 'exp_map':
            return self.export_map(fs[0], fs[1], e['nm'])
        if cmd in ('add_link', 'rem_link'):
            argv = [cmd[:3] if cmd == 'add_link' else 'remove', 'link', (1,), e['nm']] + {'both': [], 'left': ['--left'], 'right': ['--right']}[e['dir']]
            if cmd == 'rem_link':
                return self.two(fs[0], fs[1], cmd, argv, nm=e['nm'], dir=e['dir'])
            return self.send_link(fs[0], fs[1], argv, e['nm'], e['dir'], False, e['desc'], e['default'], e['sels'])
        if cmd == 'imp_index':
            rows = [[self.real_code(x[0]), x[1], x[2]] for x in e['rows']]
            return self.send_index(f, dict(hasid=e['code'], head=e['head'], lab=e['lab'], dw=e['dw'], rows=rows), e['lc'], e['wc'])
        if cmd == 'imp_qty':
            return self.imp_qty(f, e)
        if cmd == 'imp_map':
            rows = [[self.real_code(x[0]), x[1], x[2], self.real_code(x[3]), x[4]] for x in e['rows']]
            return self.send_map(fs[0], fs[1], e['nm'], e['has'], e['heads'], e['cols'], rows, (e['dir'], e['lim'], e['ov'], e['incomplete']), e['beside'])
        raise AssertionError(cmd)

    def real_code(self, text):
        """The printed code for the model's code."""
        if '#' not in text:
            return text
        u, i = text.split('#')
        f = {'ua': 'a.toron', 'ub': 'b.toron'}[u]
        self.need_codes(f)
        return (self.code_text(f, int(i)) if f in self.now else None) or self.bad_code(f)

    def api(self, f):
        """Something only the library can do (not judged here)."""
        k = self.now[f]
        d = os.path.join(self.top, 'api')
        os.makedirs(d, exist_ok=True)
        sub = space.Subject.attach(d, self.others or {}, os.path.join(self.dir, f), self.state(f), self.memo)
        op = self.r.choice(['del_index', 'del_index', 'upd_index', 'drop_cols', 'ord_lab', 'edit_wg', 'set_attrs', 'drop_pdefs', 'del_wt'])
        ev = getattr(self.g, 'g_' + op)(self.state(f))
        if ev:
            sub.run(dict(op=op, fs=self.r.randrange(1 << 30), **ev))
        sub.close()
        self.look()
        return None

    def setup(self):
        """Bring freshly made files to life through commands."""
        for f in list(self.names):
            if f not in self.now:
                self.init(f)
                s = self.state(f) if f in self.now else None
                if not s:
                    continue
                self.add_items(f, 'add_label', 'label', self.r.sample(gen.COLS, self.r.choice([1, 2, 2, 3])))
                if self.flip(0.8):
                    self.weight(f, dict(name='pop', desc='', sels=[], dflt='none'))
                s = self.state(f)
                rows = []
                for _ in range(self.r.choice([2, 3, 5])):
                    lab = [self.r.choice(gen.VALS[:4]) for _ in s['cols']]
                    if lab not in [x[1] for x in rows]:
                        rows.append(['', lab, [self.r.randrange(6) for _ in s['grp']]])
                self.send_index(f, dict(hasid=False, head='', lab='all', dw=[x[0] for x in s['grp']], rows=rows), 'abort', 'abort')
        live = self.usable()
        if len(live) > 1 and self.flip(0.8):
            f1, f2 = self.r.sample(live, 2)
            self.link(f1, f2)

    def copy(self):
        """Copy a file over another one, or to a new name, as a user would."""
        src = self.r.choice(self.usable())
        dst = self.r.choice([f for f in self.names + ['c2.toron'] if f != src])
        if self.flip(0.3):
            back = 'backup-' + os.path.basename(src)
            src = back if back in self.now else src
        shutil.copyfile(src, dst)
        if dst not in self.names:
            self.names.append(dst)
        self.look()

    def bulk(self, n):
        """Tables longer than any window a reader looks through."""
        r = self.r
        self.names = ['a.toron', 'b.toron']
        os.chdir(self.dir)
        self.look()
        for f in self.names:
            p = f[0]
            self.init(f, 'd1')
            self.add_items(f, 'add_label', 'label', [p.upper()])
            self.weight(f, dict(name='pop', desc='', sels=[], dflt='none'))
            rows = [['', [p + str(k)], [1 + k % 3]] for k in range(n)]
            self.send_index(f, dict(hasid=False, head='', lab='all', dw=['pop'], rows=rows), 'abort', 'abort')
            self.export('index', f)
        self.one('b.toron', 'info', ['info'], backup=False)
        self.link('a.toron', 'b.toron')
        links = [l for f in self.names for l in self.state(f)['lnk']]
        if not links:
            return
        has = r.choice([[False, False], [True, False], [False, True], [True, True]])
        tab = []
        for k in range(n):
            t1 = self.code_text('a.toron', k + 1) if has[0] and r.random() < 0.9 else ''
            t2 = self.code_text('b.toron', k + 1) if has[1] and r.random() < 0.9 else ''
            tab.append([t1, [f'a{k}'], r.choice([1, 2, 5]), t2, [f'b{k}']])
        both = ('both', 1, False, r.random() < 0.5)
        self.send_map('a.toron', 'b.toron', links[0][1], has, ['a_index_code', 'b_index_code'], [['A'], ['B']], tab, both)
        for f1, f2 in (('a.toron', 'b.toron'), ('b.toron', 'a.toron')):
            if any(l[0] == self.uid(f1) for l in self.state(f2)['lnk']):
                self.export_map(f1, f2, links[0][1])

    def play(self, count):
        back = os.getcwd()
        try:
            if 'bulk' in self.opts:
                return self.bulk(self.opts['bulk'])
            self.build()
            self.setup()
            n = 0
            for _ in range(count * 4):
                if n >= count:
                    break
                n += self.step() is not None
        finally:
            os.chdir(back)


def record_case(case, workdir):
    """Run a history of the model once and each command that may follow it."""
    w = World(case['seed'], workdir)
    w.opts = {'real': 0.001}
    w.names = ['a.toron', 'b.toron']
    back = os.getcwd()
    kept = os.path.join(workdir, 'kept')
    try:
        os.chdir(w.dir)
        w.look()
        for e in case['prefix']:
            w.perform(e)
        for f in w.names:
            w.need_codes(f)
        shutil.copytree(w.dir, kept)
        for e in case['last']:
            w.perform(e)
            for x in os.listdir('.'):
                (shutil.rmtree if os.path.isdir(x) else os.unlink)(os.path.join(w.dir, x))
            shutil.copytree(kept, w.dir, dirs_exist_ok=True)
            w.look()
    finally:
        os.chdir(back)
    return {'kind': 'cli', 'case': case, 'world': world_of(w), 'evs': w.evs}


def world_of(w):
    return {'snaps': w.snaps, 'codes': sorted([t, u, i] for t, who in w.codes.items() for u, i in who)}


def record(seed, workdir, opts=None, count=24):
    w = World(seed, workdir, opts)
    r = random.Random(seed + 1)
    with observe.unit(r.choice(observe.UNITS) if r.random() < 0.25 else 1.0):
        w.play(count)
    return {'seed': seed, 'kind': 'cli', 'opts': opts or {}, 'count': count, 'world': world_of(w), 'evs': w.evs}


def owners(op, clause):
    if clause.startswith('info:'):
        return {'C29', 'C30'}
    return {'C27', 'C30'} if op[:3] in ('imp', 'exp') else {'C30'}


def replay(doc):
    import engines
    tr = doc['trace']
    with common.Scratch() as d:
        out = record_case(tr['case'], d) if 'case' in tr else record(tr['seed'], d, tr.get('opts'), tr.get('count', 24))
    fails, _, _ = engines.validate([out], 'Trace_Cli')
    for f in fails:
        ev = out['evs'][f['i'] - 1]
        print(json.dumps({k: v for k, v in ev.items() if k not in ('pre', 'post')})[:1500])
        print('differs:', f['bad'])
    if not fails:
        print('no difference on this run')
    return 1 if fails else 0
