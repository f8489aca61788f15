"""Random pairs of spaces, tables of label pairs matched and loaded into
links, and the reports of those links.  See spec/Match.tla."""
import json
import os
import random
import re
import sqlite3

import common
import flow
import observe
import space
from common import NOID, BLANK, BAD
from flow import UIDS, VS, fix
from gen import COLS, VALS, DOMS

from toron import graph
from toron.mapper import Mapper
from toron._utils import BitFlags

NOTEXT = '#none'
WIDE = ['w%d' % k for k in range(1, 11)]
BADVALS = ['n/a', '', ' ', -1, 'x5', 'inf', 'nan']


def code(v):
    """A mapping value as the specification sees it."""
    if v is None or v == '':
        return BLANK
    try:
        return int(float(v) / observe.UNIT)
    except (ValueError, OverflowError):
        return BAD


def bits_of(blob, n):
    return observe._bits(blob, n)


class World(flow.World):
    def __init__(self, seed, workdir, opts=None):
        flow.World.__init__(self, seed, workdir, opts)
        self.rows_of = {}
        self.skew = False

    # -- building ----------------------------------------------------------
    def index(self, sp, ncols, nrec):
        wide = self.flip(0.06)
        skew = not wide and self.flip(0.25)     # one column tells more than two others
        self.skew = self.skew or skew
        ncols = 3 if skew else ncols
        cols = WIDE[:self.r.choice([9, 10])] if wide else self.r.sample(COLS, ncols)
        sp.add_index_columns(*cols)
        pool = self.r.sample(VALS[:-1], self.nvals) + (['-'] if ncols > 1 and self.flip(0.2) else [])
        rows = []
        if skew:
            fine = self.r.randrange(len(cols))
            nrec = self.r.choice([4, 6, 8])
        for _ in range(nrec):
            lab = [self.r.choice(pool) for _ in cols]
            if skew:
                lab = [self.r.choice(VALS[:-1]) if j == fine else self.r.choice(pool[:2]) for j in range(len(cols))]
            elif rows and self.flip(0.5):         # share the leading labels of another
                k = self.r.randrange(len(cols))
                lab = self.r.choice(rows)[:k + 1] + lab[k + 1:]
            if lab not in rows and set(lab) != {'-'}:
                rows.append(lab)
        if not rows:
            rows = [['A'] * len(cols)]
        sp.insert_index([cols] + rows)
        for _ in range(self.r.choice([1, 1, 2, 3])):
            if skew and self.flip(0.6):
                d = self.r.choice([{cols[fine]}, set(cols) - {cols[fine]}])
            elif wide:
                d = set(cols) - {self.r.choice(cols[-3:] + [cols[0]])}
            else:
                d = {c for c in cols if self.flip(0.5)}
            try:
                if wide and len(sp.partition_definitions) > 1:
                    continue
                sp.add_partition_definition(d)
            except Exception:
                pass
        if self.flip(0.4):
            sp.set_domain(self.r.choice(DOMS))
        return cols, rows

    def groups(self, k, sp, cols, rows):
        if self.flip(0.02):
            return
        for name in self.r.sample(['pop', 'wB'], self.r.choice([1, 1, 2])):
            sp.add_weight_group(name)
            vals = [self.r.choice([0, 1, 1, 2, 3, 4, 5, 10]) for _ in rows]
            if self.flip(0.1):
                vals = [0] * len(rows)
            full = self.flip(0.75)
            data = [lab + [v * observe.UNIT] for lab, v in zip(rows, vals) if full or self.flip(0.6)]
            if data:
                sp.insert_weights(name, [cols + [name]] + data)
        if self.flip(0.01):
            sp.set_default_weight_group(None)

    def build(self):
        for k in range(2):
            sp = self.new(k)
            cols, rows = self.index(sp, self.r.choice([1, 2, 2, 3]), self.r.choice([1, 2, 3, 4, 5, 6, 8]))
            if self.flip(0.3) and len(rows) > 2:       # ids with a hole
                gone = self.r.choice(rows[:-1])
                i = next(x[0] for x in sp.select_index(header=False) if list(x[1:]) == gone)
                sp.delete_index([['index_id'] + cols, [i] + gone])
                rows.remove(gone)
            self.groups(k, sp, cols, rows)
            self.rows_of[k] = (cols, rows)

    def snap(self, k):
        n = flow.World.snap(self, k)
        self.snaps[-1]['fm'] = self.fine_maps(k)
        return n

    def fine_maps(self, k):
        sp = self.spaces[k]
        path = os.path.join(self.dir, 'fine.toron')
        hint = sp.path_hint
        sp.to_file(path, fsync=False)
        if hint:
            sp.path_hint = hint
        con = sqlite3.connect(path)
        try:
            n = len(sp.index_columns)
            return sorted([u, nm, o, i, bits_of(lv, n), fix(v), observe._fix(p, common.SCALE)] for u, nm, o, i, lv, v, p in con.execute(
                'select other_unique_id, name, other_index_id, index_id, mapping_level, mapping_value, proportion '
                'from mapping join link using (link_id)'))
        finally:
            con.close()
            os.unlink(path)

    # -- tables of label pairs ----------------------------------------------
    def side(self, k, structure, ids):
        """(index id or NOID, labels)"""
        cols, _ = self.rows_of[k]
        recs = [list(x[1:]) for x in ids if x[0]]
        base = list(self.r.choice(recs[:2] if self.skew and self.flip(0.6) else recs)) if self.flip(0.95) else ['-'] * len(cols)
        if self.flip(0.15) and ids:
            rec = self.r.choice(ids)
            return (rec[0] if self.flip(0.93) else 99), list(rec[1:]) if self.flip(0.7) else [''] * len(cols)
        p = self.r.random()
        if p < 0.35:
            bits = [1] * len(cols)
        elif p < 0.985:
            bits = self.r.choice(structure)
        else:
            bits = [self.r.randrange(2) for _ in cols]
        lab = [v if b else '' for v, b in zip(base, bits)]
        if self.flip(0.05):
            j = self.r.randrange(len(cols))
            lab[j] = 'zz' if lab[j] else ''
        return NOID, lab

    def structures(self, snap, zero):
        return [x[0] for x in self.snaps[snap - 1]['s']['st'] if zero or any(x[0])] or [[1] * len(self.snaps[snap - 1]['s']['cols'])]

    def value(self, odd):
        if odd and self.flip(0.25):
            v = self.r.choice(BADVALS)
            return v * observe.UNIT if v == -1 and observe.UNIT != 1 else v
        v = self.r.choice([0, 1, 2, 5, 10, 10, 20, 33, 64, 100])
        v = v if observe.UNIT == 1 else v * observe.UNIT
        return str(v) if self.flip(0.3) else v

    def table(self, sa, sb, count, pblank=0.04):
        ids = [[list(x) for x in self.spaces[k].select_index(header=False)] for k in (0, 1)]
        st = [self.structures(n, self.flip(0.1)) for n in (sa, sb)]
        odd = self.flip(0.1)
        rows = []
        for _ in range(count):
            i1, l1 = self.side(0, st[0], ids[0])
            i2, l2 = self.side(1, st[1], ids[1])
            v = self.value(odd)
            if self.flip(pblank):
                v = ''
                if self.flip(0.5):
                    i1, l1 = NOID, [''] * len(l1)
                else:
                    i2, l2 = NOID, [''] * len(l2)
            rows.append([i1, l1, i2, l2, v])
        if self.flip(0.3) and count:    # name every record once
            for rec in ids[0][1:]:
                i2, l2 = self.side(1, st[1], ids[1])
                rows.append([NOID, list(rec[1:]), i2, l2, 3 if observe.UNIT == 1 else 3 * observe.UNIT])
            for rec in ids[1][1:]:
                i1, l1 = self.side(0, st[0], ids[0])
                rows.append([i1, l1, NOID, list(rec[1:]), 4 if observe.UNIT == 1 else 4 * observe.UNIT])
            self.r.shuffle(rows)
        return rows

    def limits(self):
        return self.r.choice([3, 5, 20] if self.skew else [1, 1, 2, 3, 5, 20]), self.flip(0.15 if self.skew else 0.3)

    def mapper(self, sa, sb):
        rows = self.table(sa, sb, self.r.choice([1, 2, 4, 6, 8, 10]))
        self.run_mapper(sa, sb, rows, self.limits(), self.limits())

    def run_mapper(self, sa, sb, rows, args1, args2):
        lim1, ov1 = args1
        lim2, ov2 = args2
        ev = self.put(op='mapper', a=sa, b=sb, rows=[r[:4] + [code(r[4])] for r in rows], raw=[str(r[4]) for r in rows],
                      lim1=lim1, ov1=ov1, lim2=lim2, ov2=ov2, to1=[], to2=[], full=False)

        def flags(i, lab):
            return BitFlags([1] * len(lab)) if i != NOID else BitFlags(lab)

        def get():
            data = [[None if i1 == NOID else i1, l1, flags(i1, l1), None if i2 == NOID else i2, l2, flags(i2, l2), v]
                    for i1, l1, i2, l2, v in rows]
            m = Mapper(self.spaces[0], self.spaces[1], iter(data))
            try:
                steps = [lambda: m.match_records('node1', match_limit=lim1, allow_overlapping=ov1),
                         lambda: m.match_records('node2', match_limit=lim2, allow_overlapping=ov2)]
                for f in (steps if self.flip(0.7) else steps[::-1]):
                    f()
                n = [len(self.rows_of[k][0]) for k in (0, 1)]
                return ([[o, i, bits_of(lv, n[1]), fix(v)] for o, i, lv, v in m.iter_mappings('node2')],
                        [[o, i, bits_of(lv, n[0]), fix(v)] for o, i, lv, v in m.iter_mappings('node1')],
                        bool(m.is_fully_matched()))
            finally:
                m.close()
        got = self.attempt(ev, get)
        if got:
            ev['to2'], ev['to1'], ev['full'] = got

    def load(self, sa, sb):
        rows = self.table(sa, sb, self.r.choice([1, 2, 4, 6, 8, 10]), 0.003)
        names = ['edge', 'e 2', 'pop']
        nm = self.r.choice(names)
        lim, ov = self.limits()
        sides = []
        for k in (0, 1):
            cols = list(self.rows_of[k][0])
            keep = [c for c in cols if self.flip(0.93)] or cols
            if self.flip(0.3):
                self.r.shuffle(keep)
            extra = []
            dom = self.spaces[k].domain
            if self.flip(0.15):
                extra.append('domain')
            if self.flip(0.05):
                extra.append('extra')
            order = keep + extra if self.flip(0.5) else extra + keep
            sides.append((cols, order, dom))
        body = []
        wrong = self.flip(0.05)
        for i1, l1, i2, l2, v in rows:
            cells = []
            for (cols, order, dom), lab in zip(sides, (l1, l2)):
                d = dict(zip(cols, lab))
                d['domain'] = ('other' if wrong and self.flip(0.3) else dom) if dom else ''
                d['extra'] = 'thing' if self.flip(0.3) else ''
                cells.append([d[c] for c in order])
            body.append([cells[0], v, cells[1]])
        dirn = self.r.choice(['->', '->', '<-', '<->', '-->', '<--', '<-->'])
        texts, _ = self.selectors(0.3)
        kw = {}
        dflt = 'none'
        if self.flip(0.3):
            kw['is_default'] = self.flip(0.5)
            dflt = 'yes' if kw['is_default'] else 'no'
        head = sides[0][1] + [nm if self.flip(0.8) else f'{nm}: aaaa -> bbbb'] + sides[1][1]
        ev = self.put(op='load', a=sa, b=sb, a2=0, b2=0, dir=dirn, nm=nm, lc=sides[0][1], rc=sides[1][1], lim=lim, ov=ov,
                      rows=[[x, code(v), y] for x, v, y in body], raw=[str(r[1]) for r in body], head=head,
                      sels=texts, dflt=dflt)
        self.attempt(ev, lambda: graph.load_mapping(
            self.spaces[0], dirn, self.spaces[1], nm, [head] + [x + [v] + y for x, v, y in body],
            selectors=texts or None, match_limit=lim, allow_overlapping=ov, **kw))
        ev['a2'], ev['b2'] = self.snap(0), self.snap(1)
        return ev['a2'], ev['b2']

    # -- reports --------------------------------------------------------------
    def report(self, ka, sa, sb):
        """Links of the other space from space ka."""
        kb = 1 - ka
        a, b = self.spaces[ka], self.spaces[kb]
        links = [l[1] for l in self.snaps[sb - 1]['s']['lnk']]
        nm = self.r.choice(links) if links and self.flip(0.95) else 'edge'
        none = lambda v: NOTEXT if v is None else v
        if self.flip(0.7):
            head = self.flip(0.9)
            ev = self.put(op='list', a=sa, b=sb, nm=nm, head=head, hdr=[], rows=[])

            def get():
                out = [list(x) for x in graph.get_mapping(a, b, nm, header=head)]
                hdr = out.pop(0) if head else []
                na, nb = len(a.index_columns), len(b.index_columns)
                da, db = int(bool(a.domain)), int(bool(b.domain))
                rows = []
                for x in out:
                    if len(x) != 4 + na + nb + da + db:
                        raise AssertionError('row of another length')
                    o, x = x[0], x[1:]
                    d1, x = x[:da], x[da:]
                    l1, x = x[:na], x[na:]
                    v, i, x = x[0], x[1], x[2:]
                    d2, x = x[:db], x[db:]
                    l2, amb = x[:nb], x[nb]
                    rows.append([NOID if o is None else o, [none(y) for y in d1], [none(y) for y in l1], NOID if i is None else i,
                                 [none(y) for y in d2], [none(y) for y in l2], amb or '', fix(v)])
                return hdr, rows
            got = self.attempt(ev, get)
            if got:
                ev['hdr'], ev['rows'] = got
        else:
            ev = self.put(op='info', a=sa, b=sb, nm=nm, nums=[])

            def get():
                text = graph.get_mapping_info_str(a, b, nm)
                nums = [int(x) for m in re.findall(r'matched (\d+) of (\d+) indexes', text) for x in m]
                stale = re.findall(r'contains (\d+) indexes that no longer', text)
                return nums + [int(stale[0]) if stale else 0]
            got = self.attempt(ev, get)
            if got:
                ev['nums'] = got

    def weights(self, k, snap):
        sp = self.spaces[k]
        order = [g.name for g in sp.weight_groups]
        everything = self.flip(0.4)
        names = [] if everything else self.r.sample(order, self.r.randrange(len(order) + 1)) + (['nope'] if self.flip(0.06) else [])
        ev = self.put(op='weights', a=snap, all=everything, names=names, order=order, hdr=[], rows=[])

        def get():
            arg = None if everything else names[0] if len(names) == 1 and self.flip(0.5) else names
            out = [list(x) for x in graph.get_weights(sp, arg)]
            d, n = int(bool(sp.domain)), len(sp.index_columns)
            return out[0], [[x[0], x[1:1 + d], x[1 + d:1 + d + n], [fix(v) for v in x[1 + d + n:]]] for x in out[1:]]
        got = self.attempt(ev, get)
        if got:
            ev['hdr'], ev['rows'] = got

    def direct(self, sb):
        """Store some mappings at any level in a link of the second space."""
        a, b = self.spaces[0], self.spaces[1]
        nm = self.r.choice(['edge', 'direct'])
        try:
            b.add_link(a, nm)
        except Exception:
            return
        aid = [x[0] for x in a.select_index(header=False)]
        bid = [x[0] for x in b.select_index(header=False)]
        st = [x for x in self.structures(sb, False)]
        rows = {}
        for _ in range(self.r.choice([1, 3, 6, 10])):
            key = (self.r.choice(aid), self.r.choice(bid), tuple(self.r.choice(st)))
            rows[key] = self.r.choice([0, 1, 2, 5, 10])
        b.insert_mappings2(a, nm, [['other_index_id', 'index_id', 'mapping_level', 'mapping_value']] +
                           [[o, i, space.bits_to_bytes(bits), v * observe.UNIT] for (o, i, bits), v in rows.items()])

    def play(self, cases):
        sa, sb = self.snap(0), self.snap(1)
        reports = self.opts.get('focus') == 'reports'
        for n in range(cases):
            p = self.r.random()
            if reports:
                p = 0.5 + p / 2
            if p < 0.5:
                self.mapper(sa, sb)
            elif p < 0.72:
                sa, sb = self.load(sa, sb)
            elif p < 0.78:
                self.direct(sb)
                sb = self.snap(1)
            elif p < 0.84:
                k = self.r.randrange(2)
                if len(self.spaces[k].index_columns) and self.snaps[(sa, sb)[k] - 1]['s']['idx'][1:]:
                    before = len(self.snaps[(sa, sb)[k] - 1]['s']['idx'])
                    self.mutate(k)
                    sa, sb = self.snap(0), self.snap(1)
                    if not [x for x in self.spaces[k].select_index(header=False) if x[0]]:
                        return
            elif p < 0.96:
                if self.flip(0.8):
                    self.report(0, sa, sb)
                else:
                    self.report(1, sb, sa)
            else:
                k = self.r.randrange(2)
                self.weights(k, (sa, sb)[k])
        for ka, x, y in ((0, sa, sb), (1, sb, sa)):
            if self.snaps[y - 1]['s']['lnk']:
                self.report(ka, x, y)
                self.report(ka, x, y)
        self.weights(0, sa)


def record(seed, workdir, opts=None, cases=10):
    w = World(seed, workdir, opts)
    r = random.Random(seed + 1)
    with observe.unit(r.choice(observe.UNITS) if r.random() < 0.25 else 1.0):
        w.build()
        w.play(cases)
    return {'seed': seed, 'kind': 'match', 'opts': opts or {}, 'cases': cases, 'world': w.snaps, 'evs': w.evs}


class ModelWorld(World):
    """The two spaces of one recipe of MC_Match, and its two rows."""

    def __init__(self, case, workdir):
        World.__init__(self, 0, workdir)
        self.case = case

    def build(self):
        c = self.case
        for k, cols, rows, w in ((0, ['A', 'B'], [['x', 'u'], ['x', 'w'], ['x', 'v'], ['y', 'u']], c['w']),
                                 (1, ['T'], [['m'], ['n']], c['u'])):
            sp = space.make_other(UIDS[k], self.dir)
            self.spaces[k] = sp
            self.gsel[k], self.lsel[k] = [], []
            sp.add_index_columns(*cols)
            sp.insert_index([cols] + rows)
            sp.add_weight_group('g')
            data = [lab + [v] for lab, v in zip(rows, w) if v >= 0]
            if data:
                sp.insert_weights('g', [cols + ['g']] + data)
            self.rows_of[k] = (cols, rows)
        for bits in c['pd']:
            if all(bits):       # (there already)
                continue
            self.spaces[0].add_partition_definition({x for x, b in zip(['A', 'B'], bits) if b})

    def play_all(self):
        c = self.case
        sa, sb = self.snap(0), self.snap(1)
        rows = [[r[0], r[1], r[2], r[3], v] for r, v in ((c['r1'], 6), (c['r2'], 10))]
        self.run_mapper(sa, sb, rows, (c['lim'], c['ov']), (c['lim'], False))


def record_case(case, workdir):
    w = ModelWorld(case, workdir)
    w.build()
    w.play_all()
    return {'seed': 0, 'kind': 'match', 'case': case, 'world': w.snaps, 'evs': w.evs}


def owners(op, clause):
    if op in ('list', 'info'):
        return {'C28'}
    if op == 'weights':
        return {'C27', 'C12'}
    return {'C21'}


def replay(doc):
    import engines
    tr = doc['trace']
    with common.Scratch() as d:
        out = record_case(tr['case'], d) if tr.get('case') else record(tr['seed'], d, tr.get('opts'), tr.get('cases', 10))
    fails, _, _ = engines.validate([out], 'Trace_Match')
    for f in fails:
        ev = out['evs'][f['i'] - 1]
        print(json.dumps(ev)[:1500])
        print('differs:', f['bad'])
    if not fails:
        print('no difference on this run')
    return 1 if fails else 0
