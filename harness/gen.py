"""Random logical events for spec/DataSpace.tla, chosen from the observed state.

About seven events in ten are well formed for the current state; the others
break one of their preconditions.
"""
import random

from common import NOID, JUNKID, BLANK, BAD

COLS = ['state', 'county', 'Town hall', 'o"k', 'select', 'x%y', "it's", 'naïve', 'A1', 'zone']
VALS = ['A', 'B', 'C', 'a', 'x y', "O'N", ' A', 'q"t', 'é', '1', 'a-b', 'B ', '-']
GROUPS = ['pop', 'wB', 'area km', 'g"q', "w'x"]
ATTRS = ['category', 'year', 'sex', 'a b']
AVALS = ['t', 'u', 'T', 'x y', "O'N", '-', ' t', 'u ']
DOMS = ['', 'd1', 'dö m', "d'x"]
UIDS = ['5dfc1a2b-0001-aaaa', '5dfc1a2b-0002-bbbb', '77aa99c0-1111-cccc', 'fileone.toron']
HINTS = ['', '', 'fileone.toron', 'two.toron', 'two.toron', '5dfc1a2b-0002-bbbb', 'three.dat']
LNAMES = ['edge', 'e 2', 'm\'x', 'population']
SELS = ['[category="t"]', '[year]', '[sex="u"]', '[category="t"][year="u"]', ':not([sex])',
        ':is([category^="x"], [year$="N"])', '[category="T" i]', '[category]']
DESCS = ['', 'text', "de'sc \"q\""]
MAXREC = 11

CAT = {
    'cols': ['add_cols', 'ren_cols', 'drop_cols', 'ord_lab'],
    'meta': ['set_domain', 'set_attrs', 'ord_attr'],
    'part': ['add_pdef', 'add_pdefs', 'drop_pdefs'],
    'index': ['ins_index', 'ins_index', 'ins_index_old', 'upd_index', 'del_index'],
    'ins': ['ins_index', 'ins_index', 'ins_index', 'ins_index_old'],
    'upd': ['upd_index'],
    'del': ['del_index'],
    'grp': ['add_wg', 'edit_wg', 'drop_wg', 'set_dflt'],
    'wt': ['ins_wt', 'ins_wt', 'upd_wt', 'del_wt'],
    'lnk': ['add_link', 'edit_link', 'drop_link'],
    'map': ['ins_map2', 'ins_map2', 'ins_map', 'upd_map', 'del_map', 'reify'],
    'qty': ['ins_q2', 'ins_q2', 'ins_q'],
    'qdel': ['del_qwi', 'del_unm', 'r_qwi', 'r_unm'],
    'open': ['reopen'],
    'read': ['r_props', 'r_index', 'r_wt', 'r_map', 'r_link', 'r_q', 'r_q2', 'r_qwi', 'r_unm'],
    'info': ['r_info'],
    'ref': ['r_link', 'r_link', 'r_link', 'r_map', 'edit_link', 'drop_link'],
}
BASE = dict(cols=1, meta=1, part=1, index=4, grp=1, wt=3, lnk=1, map=4, qty=3, qdel=1, open=0.5, read=2, info=0.1)
PROFILES = {
    'mixed': BASE,
    'C04': dict(BASE, map=9, index=5, upd=2, cols=1.5, lnk=2, qty=0.5, wt=0.5),
    'C05': dict(BASE, map=8, index=6, upd=2, lnk=3, qty=0.2, wt=0.5),
    'C06': dict(BASE, wt=8, index=6, upd=2, grp=4, qty=0.2, map=1),
    'C07': dict(BASE, index=14, upd=2, cols=2, map=1, wt=1),
    'C08': dict(BASE),
    'C09': dict(BASE, part=10, cols=6, qty=2, map=2),
    'C10': dict(BASE, index=10, part=4, cols=4, upd=2),
    'C12': dict(BASE, wt=14, index=2, map=0.5, qty=0.2),
    'C16': dict(BASE, cols=12, meta=5, part=3, map=3, qty=3, read=4),
    'C17': dict(BASE, qty=14, meta=2, part=2, read=4, map=0.3, wt=0.3),
    'C18': dict(BASE, qty=9, qdel=8, index=4, part=2, map=0.3, wt=0.3),
    'C19': dict(BASE, upd=9, index=4, wt=4, map=6, qty=0.3),
    'C22': dict(BASE, map=18, index=1, lnk=1, read=3, qty=0.1),
    'C23': dict(BASE, grp=6, lnk=6, map=6, wt=6, open=3, index=3),
    'C25': dict(BASE, lnk=8, ref=12, map=2, qty=0.1, wt=0.3, index=1),
    'C26': dict(BASE, ins=14, grp=2, wt=2, qty=0.2, map=0.5),
    'C29': dict(BASE, info=16, grp=3, lnk=4, part=3, cols=2.5, meta=3, wt=4, qty=0.3, read=0.3, upd=1),
    'C14': dict(BASE, open=8),
}


# The code tries every combination of the definitions (2**n of them).
MANY_PARTITIONS = 8


class Gen:
    def __init__(self, seed, profile='mixed', boom=0.03, bad=0.3):
        self.r = random.Random(seed)
        self.profile = profile
        self.boom = 0.25 if profile == 'C08' else boom
        self.bad = bad
        self.cats = PROFILES[profile]

    # -- small choices -----------------------------------------------------
    def flip(self, p):
        return self.r.random() < p

    def pick(self, seq, default=None):
        seq = list(seq)
        return self.r.choice(seq) if seq else default

    def some(self, seq, p=0.5):
        return [x for x in seq if self.flip(p)]

    def labels(self, n, pool=None):
        return [self.r.choice((pool or VALS)[:self.nvals]) for _ in range(n)]

    def known(self, s):
        return [r for r in s['idx'] if r[0] != 0]

    def near(self, s):
        """Labels close to an existing record's."""
        rec = self.pick(s['idx'])
        lab = list(rec[1]) if rec else []
        if lab and self.flip(0.7):
            k = self.r.randrange(len(lab))
            lab[k] = self.r.choice(VALS[:self.nvals])
        return lab

    def crit(self, s):
        n = len(s['cols'])
        if not n:
            return []
        k = self.r.random()
        base = list(self.pick(s['idx'], [0, ['-'] * n])[1]) if self.known(s) and not self.flip(0.04) else ['-'] * n
        if k < 0.25:
            return base
        if k < 0.9:
            return [v if self.flip(0.5) else '' for v in base]
        return [self.r.choice(VALS) if self.flip(0.5) else '' for _ in base]

    nvals = 4
    whole = False

    # -- events ------------------------------------------------------------
    def event(self, s):
        names = list(self.cats)
        for _ in range(50):
            cat = self.r.choices(names, [self.cats[c] for c in names])[0]
            op = self.r.choice(CAT[cat])
            ev = getattr(self, 'g_' + op)(s)
            if ev is not None:
                ev = dict(op=op, fs=self.r.randrange(1 << 30), **ev)
                if 'rows' in ev and ev.get('mode', 'data') == 'data' and self.flip(self.boom):
                    ev['boom'] = self.r.randrange(len(ev['rows']) + 1)
                return ev
        return dict(op='r_props', fs=0)

    def script(self, s):
        """The events that set up an interesting space, one state at a time."""
        r = self.r
        self.nvals = r.choice([2, 3, 4, 6, len(VALS) - 1, len(VALS)])
        if self.flip(0.02):
            return
        yield lambda s: dict(op='add_cols', cols=r.sample(COLS, r.choice([8, 9, 10]) if self.flip(0.1) else r.choice([1, 2, 2, 2, 3, 3])))
        if self.flip(0.5):
            yield lambda s: dict(op='set_attrs', attrs=r.sample(ATTRS, r.choice([1, 2, 3])))
        for _ in range(r.choice([0, 1, 1, 2])):
            yield lambda s: self.force('add_wg', s)
        yield lambda s: self.force('ins_index', s)
        yield lambda s: self.force('ins_index', s)
        for _ in range(r.choice([0, 1, 1])):
            yield lambda s: self.force('add_pdef', s)
        for _ in range(r.choice([0, 1, 1, 2])):
            yield lambda s: self.force('ins_wt', s)
        for _ in range(r.choice([0, 1, 1, 2])):
            yield lambda s: self.force('add_link', s)
        for _ in range(r.choice([0, 1, 2, 2])):
            yield lambda s: self.force('ins_map2', s)
        for _ in range(r.choice([0, 1, 1])):
            yield lambda s: self.force('ins_q2', s)

    def wide(self):
        """A space with more label columns than one byte of flags can hold."""
        r = self.r
        self.nvals = r.choice([2, 2, 3])
        n = r.choice([9, 9, 10, 12, 16, 17])
        cols = (r.sample(COLS, len(COLS)) + [f'f{k}' for k in range(8)])[:n]
        many = self.flip(0.25)          # definitions with nothing in common
        self.whole = self.flip(0.4)     # mappings of no level but the finest
        cuts = [cols[:r.randrange(1, 8)], cols[:8], cols[8:], cols[-1:], cols[7:9], r.sample(cols, 2)]
        yield lambda s: dict(op='add_cols', cols=cols)
        yield lambda s: dict(op='set_attrs', attrs=r.sample(ATTRS, 2))
        yield lambda s: self.force('add_wg', s)
        if many:
            ones = r.sample(cols, r.choice([5, 6, 6, 7]))
            yield lambda s: dict(op='add_pdefs', defs=[[c] for c in ones])
            yield lambda s: dict(op='add_pdef', **{'def': ones})
        else:
            yield lambda s: dict(op='add_pdefs', defs=[cuts[0]] + r.sample(cuts[1:], r.choice([1, 2, 3])))
        yield lambda s: self.force('ins_index', s)
        yield lambda s: self.force('ins_index', s)
        yield lambda s: self.force('ins_wt', s)
        yield lambda s: self.force('add_link', s)
        yield lambda s: self.force('ins_map2', s)
        yield lambda s: self.force('ins_map2', s)
        yield lambda s: self.force('ins_q2', s)
        yield lambda s: self.force('r_map', s)
        if self.whole:
            yield lambda s: self.force('del_index', s)
            yield lambda s: self.force('upd_index', s)

    def bulk(self, n):
        """A space of many records, and changes that touch many at once."""
        r = self.r
        groups = [f'k{j}' for j in range(r.choice([3, 5, 9]))]
        labs = [[f'r{k}', groups[k % len(groups)]] for k in range(n)]
        every = lambda s: [x for x in s['idx'] if x[0]]
        part = lambda s, p: [x for x in every(s) if self.flip(p)]
        mode = lambda: r.choice(['data', 'crit'])
        crit = lambda: ['', r.choice(groups)]
        yield lambda s: dict(op='add_cols', cols=['A', 'B'])
        yield lambda s: dict(op='set_attrs', attrs=['k'])
        yield lambda s: dict(op='add_wg', name='pop', desc='', sels=[], complete=False, dflt='none')
        if self.flip(0.6):
            yield lambda s: dict(op='ins_index', hasid=False, lab='all', dw=['pop'], wsel='all', wnames=[], lc='abort', wc='abort',
                                 rows=[[NOID, lab, [r.randrange(1, 4)]] for lab in labs])
        else:
            yield lambda s: dict(op='ins_index_old', lab='all', rows=[[NOID, lab, []] for lab in labs])
            yield lambda s: dict(op='ins_wt', g='pop', oc='abort', lab='all', hasid=self.flip(0.5), hasval=True,
                                 rows=[[x[0], list(x[1]), r.randrange(1, 4)] for x in every(s)])
        yield lambda s: dict(op='add_pdef', **{'def': ['B']})
        yield lambda s: dict(op='add_link', sp=UIDS[0], nm='edge', hint='', desc='', sels=[], dflt='none', lc=False)

        def maps(s):
            return dict(op='ins_map2', ref=UIDS[0], nm='edge',
                        rows=[[r.randrange(1, 6), x[0], r.choice([[1, 1], [0, 1]]), r.randrange(0, 4)] for x in every(s)])

        def old_maps(s):
            return dict(op='ins_map', ref=UIDS[0], nm='edge', lab='all', hdr=True,
                        rows=[[r.randrange(1, 6), r.randrange(0, 4), x[0], list(x[1]), [1, 1]] for x in every(s)])

        def qty(s):
            v = lambda x: list(x[1]) if self.flip(0.8) else ['', x[1][1]]
            return dict(op='ins_q2', lab='all', hasval=True, hasdom=False, acols=['k'], ail=True, aip=True, oe='sum',
                        rows=[[s['dom'], v(x), [['k', r.choice(['v', 'w'])]], r.randrange(0, 9)] for x in every(s)])
        yield r.choice([maps, old_maps])
        yield qty
        later = [
            lambda s: dict(op='upd_wt', g='pop', hasid=True, hasval=True, lab='all',
                           rows=[[x[0], list(x[1]), r.randrange(0, 5)] for x in part(s, 0.7)]),
            lambda s: dict(op='del_wt', g='pop', mode='data', hasid=True, lab='all', crit=['', ''],
                           rows=[[x[0], list(x[1])] for x in part(s, 0.5)]),
            lambda s: dict(op='del_wt', g='pop', mode='crit', hasid=True, lab='all', crit=crit(), rows=[]),
            lambda s: dict(op='del_index', mode='crit', hasid=True, lab='all', crit=crit(), rows=[]),
            lambda s: dict(op='del_index', mode='data', hasid=True, lab='all', crit=['', ''],
                           rows=[[x[0], list(x[1])] for x in part(s, 0.4)]),
            lambda s: dict(op='upd_index', hasid=True, lab='all', merge=True,
                           rows=[[x[0], [f'r{r.randrange(n // 2)}', x[1][1]]] for x in part(s, 0.4)]),
            lambda s: dict(op='upd_index', hasid=True, lab='all', merge=False,
                           rows=[[x[0], [f'q{x[0]}', x[1][1]]] for x in part(s, 0.6)]),
            lambda s: dict(op='ins_wt', g='pop', oc=r.choice(['ignore', 'replace', 'sum']), lab='all', hasid=self.flip(0.5), hasval=True,
                           rows=[[x[0], list(x[1]), r.randrange(1, 4)] for x in part(s, 0.8)]),
            lambda s: dict(op='ins_index', hasid=True, lab='all', dw=['pop'], wsel='all', wnames=[], lc='replace', wc='replace',
                           rows=[[x[0], [f'q{x[0]}', x[1][1]], [r.randrange(0, 4)]] for x in part(s, 0.6)]),
            lambda s: dict(op='del_map', ref=UIDS[0], nm='edge', mode='crit', lab='all', hdr=True, crit=crit(), rows=[]),
            lambda s: dict(op='reify', ref=UIDS[0], nm='edge', mode=r.choice(['all', 'crit']), crit=crit()),
            lambda s: dict(op='del_qwi'),
            lambda s: dict(op='drop_pdefs', defs=[['B']]),
            lambda s: dict(op='ren_cols', pairs=[['A', 'long name']]),
            lambda s: dict(op='r_index', crit=r.choice([['', ''], crit()])),
            lambda s: dict(op='r_wt', g='pop', crit=['', '']),
            lambda s: dict(op='r_map', ref=UIDS[0], nm='edge', crit=['', '']),
            lambda s: dict(op='r_q'), lambda s: dict(op='r_q2'), lambda s: dict(op='r_qwi'), lambda s: dict(op='r_unm'),
            lambda s: dict(op='r_info'), qty, maps,
            lambda s: dict(op='reopen', mode=r.choice(['mem', 'drive', 'rw'])),
        ]
        yield from r.sample(later, 9)
        yield lambda s: dict(op='drop_cols', cols=['A'])
        yield lambda s: dict(op='r_props')

    def force(self, op, s):
        old, self.bad = self.bad, 0.05
        try:
            for _ in range(5):
                ev = getattr(self, 'g_' + op)(s)
                if ev is not None:
                    return dict(op=op, **ev)
        finally:
            self.bad = old
        return dict(op='r_props')

    def newcols(self, s, k):
        low = {c.lower() for c in s['cols']}
        free = [c for c in COLS if c.lower() not in low]
        return self.r.sample(free, min(k, len(free)))

    def g_add_cols(self, s):
        if self.flip(self.bad):
            bad = self.pick(['domain', 'index_id', 'value', 'weight'] + s['cols'] + s['attrs'])
            cols = self.newcols(s, 1) + [bad] if self.flip(0.5) else [bad]
            self.r.shuffle(cols)
            if self.flip(0.2):
                c = self.newcols(s, 1)
                cols = c + c or cols
            return dict(cols=cols)
        if len(s['cols']) >= 4:
            return None
        cols = self.newcols(s, self.r.choice([1, 1, 2]))
        return dict(cols=cols) if len(cols) + len(s['cols']) <= 5 else None

    def g_ren_cols(self, s):
        if not s['cols']:
            return None
        old = self.r.sample(s['cols'], self.r.choice([1, 1, 2]) if len(s['cols']) > 1 else 1)
        new = self.newcols(s, len(old))
        if not new:
            return None
        if self.flip(self.bad):
            new[0] = self.pick(['domain', 'index_id', 'value', '_location_id'] + s['cols'] + s['attrs'])
            if new[0] in old:
                return None
            if self.flip(0.3):
                old[0] = 'nocol'
        if len(new) < len(old):
            return None
        return dict(pairs=[list(p) for p in zip(old, new)])

    def g_drop_cols(self, s):
        if not s['cols']:
            return None
        cols = self.r.sample(s['cols'], 1 if self.flip(0.8) else min(2, len(s['cols'])))
        if self.flip(self.bad / 2):
            cols = self.pick([s['cols'], ['nocol'], ['nocol'] + cols, ['domain'], cols + ['_location_id'], ['index_id']])
        return dict(cols=list(cols))

    def g_ord_lab(self, s):
        x = self.pick(s['disp']) if s['disp'] and not self.flip(self.bad) else 'nocol'
        return dict(x=x, k=self.r.randrange(-4, 5))

    def g_ord_attr(self, s):
        x = self.pick(s['attrs']) if s['attrs'] and not self.flip(self.bad) else 'noattr'
        return dict(x=x, k=self.r.randrange(-4, 5))

    def g_set_domain(self, s):
        return dict(v=self.pick(DOMS))

    def g_set_attrs(self, s):
        a = self.r.sample(ATTRS, self.r.choice([0, 1, 2, 3]) if self.flip(0.2) else self.r.choice([1, 2, 3]))
        if self.flip(self.bad):
            a.append(self.pick(['domain', 'value', 'index_id'] + s['cols'] + a))
        return dict(attrs=a)

    def defn(self, s):
        d = self.some(s['cols'], 0.5)
        if self.flip(0.05):
            d.append('nocol')
        return d

    def g_add_pdef(self, s):
        if len(s['pd']) > MANY_PARTITIONS:
            return None
        d = self.defn(s)
        return dict(**{'def': d})

    def g_add_pdefs(self, s):
        if len(s['pd']) > MANY_PARTITIONS:
            return None
        return dict(defs=[self.defn(s) for _ in range(self.r.choice([1, 2, 3]))])

    def g_drop_pdefs(self, s):
        if not s['cols']:
            return None
        defs = []
        for _ in range(self.r.choice([1, 1, 2])):
            if s['pd'] and self.flip(0.7):
                b = self.pick(s['pd'])
                defs.append([c for c, x in zip(s['cols'], b) if x == 1])
            else:
                defs.append(self.defn(s))
        return dict(defs=defs)

    def wcell(self, neg=True):
        k = self.r.random()
        if k < 0.85:
            return self.r.randrange(0, 10) if k < 0.8 else 0
        if k < 0.93:
            return BLANK
        return self.r.choice([BAD, -3]) if neg and self.flip(self.bad * 2) else BLANK

    def g_ins_index(self, s):
        n = len(s['cols'])
        if not n:
            return dict(hasid=False, lab='all', dw=[], wsel='all', wnames=[], lc='abort', wc='abort', rows=[]) \
                if self.flip(0.1) else None
        groups = [g[0] for g in s['grp']]
        dw = self.r.sample(groups, self.r.randrange(len(groups) + 1)) if self.flip(0.7) else []
        if self.flip(0.1):
            dw.append('nogroup')
        wsel, wnames = 'all', []
        if self.flip(0.4):
            wsel, wnames = 'named', self.some([g for g in dw if g in groups], 0.7)
            if self.flip(self.bad / 2):
                wnames = wnames + [self.pick(groups + ['nogroup', 'pop'])]
            wnames = list(dict.fromkeys(wnames))
            if not wnames:
                wsel = 'all'
        hasid = self.flip(0.35)
        lab = 'all'
        if hasid and self.flip(0.25):
            lab = 'none'
        elif self.flip(self.bad / 4) and n > 1:
            lab = 'part'
        room = MAXREC - len(s['idx'])
        rows, fresh = [], 0
        for _ in range(self.r.choice([0, 1, 2, 3, 4, 5])):
            known = self.known(s)
            labs = self.near(s) if self.flip(0.5) else self.labels(n)
            if self.flip(0.06):
                labs[self.r.randrange(n)] = ''
            rid = NOID
            if hasid and known and self.flip(0.85):
                rec = self.pick(s['idx']) if self.flip(0.1) else self.pick(known)
                rid = rec[0]
                if self.flip(0.6) or lab == 'none':
                    labs = list(rec[1])
                if self.flip(0.04):
                    rid = self.r.choice([99, JUNKID, 0])
            if rid == NOID:
                if lab == 'none' and not self.flip(0.1):
                    continue
                fresh += 1
                if fresh > max(0, room):
                    continue
            rows.append([rid, labs, [self.wcell() for _ in dw]])
        if rows and self.flip(0.12):
            rows.append([rows[0][0], list(rows[0][1]), [self.wcell() for _ in dw]])
        return dict(hasid=hasid, lab=lab, dw=dw, wsel=wsel, wnames=wnames,
                    lc=self.r.choice(['abort', 'ignore', 'replace'] + (['other'] if self.flip(self.bad / 3) else [])),
                    wc=self.r.choice(['abort', 'ignore', 'replace'] + (['other'] if self.flip(self.bad / 3) else [])),
                    rows=rows)

    def g_ins_index_old(self, s):
        n = len(s['cols'])
        if not n or len(s['idx']) >= MAXREC:
            return None
        rows = [[NOID, self.labels(n), []] for _ in range(self.r.choice([0, 1, 2]))]
        if rows and self.flip(0.1):
            rows[0][1][0] = ''
        return dict(lab='part' if n > 1 and self.flip(self.bad / 3) else 'all', rows=rows)

    def idrows(self, s, k, value=None, right=0.8, junk=True):
        rows = []
        for _ in range(k):
            rec = self.pick(s['idx'])
            rid, lab = rec[0], list(rec[1])
            if rid == 0 and self.flip(0.7):
                rec = self.pick(self.known(s), rec)
                rid, lab = rec[0], list(rec[1])
            if not self.flip(right):
                c = self.r.randrange(3)
                if c == 0 and lab:
                    lab = self.near(s)
                elif c == 1:
                    rid = self.r.choice([99, 1, 2, 3, 4] + ([NOID, JUNKID] if junk else [77]))
                else:
                    lab = self.near(s)
            rows.append([rid, lab] + ([value()] if value else []))
        return rows

    def g_upd_index(self, s):
        if not s['cols'] or not s['idx']:
            return None
        rows, n = [], len(s['cols'])
        for _ in range(self.r.choice([1, 1, 2, 3, 4])):
            rec = self.pick(self.known(s), [0, []])
            if self.flip(0.05):
                rec = [self.r.choice([0, 99, NOID]), []]
            k = self.r.random()
            if k < 0.4 and self.known(s):
                lab = list(self.pick(self.known(s))[1])
            elif k < 0.5 and rec[1]:
                lab = list(rec[1])
            elif k < 0.75:
                lab = self.near(s)
            else:
                lab = self.labels(n)
            if self.flip(0.05):
                lab[0] = ''
            rows.append([rec[0], lab])
        return dict(hasid=not self.flip(self.bad / 6), lab='part' if n > 1 and self.flip(self.bad / 6) else 'all',
                    merge=self.flip(0.7), rows=rows)

    def mode(self):
        return self.r.choice(['both', 'none']) if self.flip(self.bad / 4) else self.r.choice(['data', 'crit'])

    def g_del_index(self, s):
        if not s['cols'] or len(s['idx']) < 2:
            return None
        mode = self.mode()
        rows = self.idrows(s, self.r.choice([1, 1, 2])) if mode in ('data', 'both') else []
        crit = self.crit(s)
        if mode == 'crit' and self.flip(0.6):
            crit = list(self.pick(self.known(s))[1])
        if mode in ('crit', 'both') and not any(crit):
            return None
        return dict(mode=mode, hasid=not (mode == 'data' and self.flip(self.bad / 6)), lab='all', rows=rows, crit=crit)

    # -- weights -----------------------------------------------------------
    def sels(self):
        return self.r.sample(SELS, self.r.choice([1, 1, 2])) if self.flip(0.5) else []

    def g_add_wg(self, s):
        have = [g[0] for g in s['grp']]
        free = [g for g in GROUPS if g not in have]
        if self.flip(self.bad / 2) and have:
            name = self.pick(have)
        elif free and len(have) < 3:
            name = self.pick(free)
        else:
            return None
        return dict(name=name, desc=self.pick(DESCS), sels=self.sels(), complete=self.flip(0.1),
                    dflt=self.r.choice(['yes', 'no', 'none', 'none']))

    def g_edit_wg(self, s):
        have = [g[0] for g in s['grp']]
        name = self.pick(have) if have and not self.flip(self.bad / 3) else 'nogroup'
        ch = []
        if self.flip(0.5):
            ch.append(['name', self.pick(GROUPS)])
        if self.flip(0.4):
            ch.append(['desc', self.pick([d for d in DESCS if d])])
        if self.flip(0.3):
            ch.append(['sels', self.r.sample(SELS, self.r.choice([1, 2]))])
        if self.flip(0.15):
            ch.append(['complete', self.flip(0.5)])
        return dict(name=name, ch=ch) if ch else None

    def g_drop_wg(self, s):
        have = [g[0] for g in s['grp']]
        return dict(name=self.pick(have) if have and not self.flip(self.bad / 3) else 'nogroup')

    def g_set_dflt(self, s):
        have = [g[0] for g in s['grp']]
        return dict(name=self.pick(have + [''])) if have else None

    def g_ins_wt(self, s):
        have = [g[0] for g in s['grp']]
        if not s['cols']:
            return None
        g = self.pick(have) if have and not self.flip(0.15) else self.pick(GROUPS)
        wt = {w[1]: w for w in s['wt'] if w[0] == g}
        rows = []
        if self.flip(0.4):                      # fill the group
            for rec in self.known(s):
                if rec[0] not in wt or self.flip(0.2):
                    rows.append([rec[0], list(rec[1]), self.r.randrange(0, 10)])
            self.r.shuffle(rows)
            if self.flip(0.3):
                rows = rows[1:]
        rows += self.idrows(s, self.r.choice([0, 0, 1, 2]), value=self.wcell, right=0.75)
        if not rows:
            rows = self.idrows(s, 1, value=self.wcell)
        return dict(g=g, oc=self.r.choice(['abort', 'ignore', 'replace', 'sum'] + (['other'] if self.flip(self.bad / 3) else [])),
                    lab='part' if len(s['cols']) > 1 and self.flip(self.bad / 6) else 'all',
                    hasid=self.flip(0.5), rows=rows)

    def g_upd_wt(self, s):
        have = [g[0] for g in s['grp']]
        if not s['cols']:
            return None
        g = self.pick(have) if have and not self.flip(self.bad / 5) else 'nogroup'
        v = lambda: self.r.randrange(0, 10) if not self.flip(self.bad / 5) else -2
        return dict(g=g, hasid=not self.flip(self.bad / 6), hasval=not self.flip(self.bad / 6),
                    lab='part' if len(s['cols']) > 1 and self.flip(self.bad / 6) else 'all',
                    rows=self.idrows(s, self.r.choice([1, 2, 3, 4]), value=v, junk=False))

    def g_del_wt(self, s):
        have = [g[0] for g in s['grp']]
        if not s['cols'] or not have:
            return None
        mode = self.mode()
        crit = self.crit(s)
        if mode in ('crit', 'both') and not any(crit):
            return None
        return dict(g=self.pick(have) if not self.flip(self.bad / 6) else 'nogroup', mode=mode,
                    hasid=not (mode == 'data' and self.flip(self.bad / 6)), lab='all',
                    rows=self.idrows(s, self.r.choice([1, 2, 3])) if mode in ('data', 'both') else [], crit=crit)

    # -- links and mappings ------------------------------------------------
    def refname(self, s, bad=None):
        """A link reference and link name."""
        bad = self.bad if bad is None else bad
        l = self.pick(s['lnk'])
        if l is None or self.flip(bad / 2):
            ref = self.pick(UIDS + ['nosuch', '5dfc1a2', '5dfc1a', '5dfc1a2b-0001', '', 'fileone', 'two', 'two.toron',
                                    'three', 'three.dat', '77aa99c', '77aa99'])
        else:
            ref = l[0]
            if self.flip(0.15):
                ref = ref[:self.r.randrange(5, len(ref) + 1)]
            elif l[2] and self.flip(0.2):
                ref = l[2] if self.flip(0.5) else l[2].rsplit('.', 1)[0]
            if self.flip(0.08):  # nearly the same text
                k = self.r.randrange(1, 5)
                ref = self.pick([ref[k:], ref[k:k + 8], ref.upper(), ref + ref[-1:], ref[:-k] + 'x', ref + '.toron',
                                 ref[-8:], '%' + ref[1:], ref[:8] + '%', ref + ' ', l[1], l[1][:7], l[1] + '.toron'])
        nm = ''
        if self.flip(0.7):
            nm = l[1] if l and not self.flip(bad / 3) else self.pick(LNAMES)
        return ref, nm

    def g_add_link(self, s):
        if len(s['lnk']) >= 4:
            return None
        sp = self.pick(UIDS)
        return dict(sp=sp, nm=self.pick(LNAMES), hint=self.pick(HINTS), desc=self.pick(DESCS), sels=self.sels(),
                    dflt=self.r.choice(['yes', 'no', 'none', 'none']), lc=self.flip(0.06))

    def g_edit_link(self, s):
        ref, nm = self.refname(s)
        ch = []
        if self.flip(0.4):
            ch.append(['name', self.pick(LNAMES)])
        if self.flip(0.3):
            ch.append(['desc', self.pick([d for d in DESCS if d])])
        if self.flip(0.3):
            ch.append(['sels', self.r.sample(SELS, self.r.choice([1, 2]))])
        if self.flip(0.4):
            ch.append(['is_default', self.flip(0.7)])
        if self.flip(0.2):
            ch.append(['hint', self.pick([h for h in HINTS if h])])
        if self.flip(0.05):
            ch.append(['lc', self.flip(0.5)])
        return dict(ref=ref, nm=nm, ch=ch) if ch else None

    def g_drop_link(self, s):
        if not s['lnk'] and self.flip(0.8):
            return None
        ref, nm = self.refname(s)
        return dict(ref=ref, nm=nm)

    def link(self, s, ref, nm):
        """The link a reference resolves to, if any."""
        ls = [l for l in s['lnk'] if l[0] == ref]
        ls = ls or [l for l in s['lnk'] if l[2] and l[2] in (ref, ref + '.toron')]
        ls = ls or [l for l in s['lnk'] if len(ref) >= 7 and l[0].startswith(ref)]
        if nm:
            ls = [l for l in ls if l[1] == nm]
        elif len(ls) > 1:
            ls = [l for l in ls if l[5]]
        return ls[0] if len(ls) == 1 else None

    def level(self, s, wrong=0.1):
        n = len(s['cols'])
        if self.whole and self.flip(0.9):
            return [1] * n
        if self.flip(wrong):
            return self.pick([[-1], [0] * n, [self.r.randrange(2) for _ in range(n)]])
        if self.flip(0.5):
            return [1] * n
        opts = [x[0] for x in s['st'] if any(x[0])]
        return list(self.pick(opts, [1] * n))

    zero = False

    def mval(self, wrong=0.04):
        if self.zero:
            return 0
        if self.flip(wrong):
            return self.r.choice([BAD, BLANK, -5])
        return self.r.choice([0, 1, 2, 3, 5, 7, 10, 25, 60])

    def oid(self):
        return 0 if self.flip(0.1) else self.r.randrange(1, 6)

    def total(self, s):
        return sum(max(0, m[5]) for m in s['map'])

    def g_ins_map2(self, s):
        if not s['cols']:
            return None
        if not s['lnk'] and self.flip(0.9):
            return None
        if len(s['map']) > 24 or self.total(s) > 1500:
            return None
        ref, nm = self.refname(s, self.bad / 2)
        rows = []
        self.zero = self.flip(0.12)     # all values zero: equal shares
        l = self.link(s, ref, nm)
        have = {(m[2], m[3], tuple(m[4])) for m in s['map'] if l and m[0] == l[0] and m[1] == l[1]}
        done = {m[3] for m in s['map'] if l and m[0] == l[0] and m[1] == l[1]}
        if self.flip(0.45):             # map everything not mapped yet
            for rec in self.known(s):
                if rec[0] not in done:
                    rows.append([self.oid(), rec[0], self.level(s, 0), self.mval(0)])
            if self.flip(0.25):
                rows.append([self.oid() or 1, 0, self.level(s, 0), self.mval(0)])
            if self.flip(0.2):          # the undefined record, in part of the columns
                rows.append([self.r.choice([0, 1]), self.r.choice([0, 0, 1]), self.level(s, 0), self.mval(0)])
            if self.flip(0.3):
                rows = rows[1:]
        for _ in range(self.r.choice([0, 1, 2, 3]) if rows else self.r.choice([1, 2, 3, 4])):
            i = self.pick(self.known(s), [0])[0]
            if self.flip(0.05):
                i = self.r.choice([0, 0, 98])
            row = [self.oid(), i, self.level(s, self.bad / 3), self.mval(self.bad / 6)]
            if (row[0], row[1], tuple(row[2])) in have and self.flip(0.9):
                continue
            rows.append(row)
        seen, out = set(), []
        for row in rows:
            k = (row[0], row[1], tuple(row[2]))
            if k in seen and self.flip(0.9):
                continue
            seen.add(k)
            out.append(row)
        return dict(ref=ref, nm=nm, rows=out)

    def maprows(self, s, ref, nm, new, levels=True):
        l = self.link(s, ref, nm)
        mine = [m for m in s['map'] if l and m[0] == l[0] and m[1] == l[1]]
        labs = {r[0]: r[1] for r in s['idx']}
        rows, used = [], set()
        self.zero = self.flip(0.12)
        count = {}
        for m in mine:
            count[(m[2], m[3])] = count.get((m[2], m[3]), 0) + 1
        for _ in range(self.r.choice([1, 2, 3, 4])):
            m = self.pick(mine)
            if m and not self.flip(new):
                o, i, v = m[2], m[3], m[5]
                lv = list(m[4]) if self.flip(0.6) else self.level(s, self.bad / 4)
                if levels or self.flip(0.2):
                    v = self.mval(self.bad / 6)
            else:
                o, i = self.oid(), self.pick(self.known(s), [0])[0]
                if self.flip(0.05):
                    i = self.r.choice([0, 98])
                v, lv = self.mval(self.bad / 6), self.level(s, self.bad / 4)
            if (o, i) in used or count.get((o, i), 0) > 1:
                continue                # several levels: which one is meant is undefined
            used.add((o, i))
            lab = list(labs.get(i, self.labels(len(s['cols']))))
            if self.flip(0.07):
                lab = self.near(s)
            rows.append([o, v, i, lab] + ([lv] if levels else []))
        return rows

    def g_ins_map(self, s, new=0.9):
        if not s['cols'] or len(s['map']) > 24 or self.total(s) > 1500 or not s['lnk']:
            return None
        ref, nm = self.refname(s, self.bad / 2)
        return dict(ref=ref, nm=nm, lab='part' if len(s['cols']) > 1 and self.flip(self.bad / 6) else 'all',
                    hdr=not self.flip(self.bad / 6), rows=self.maprows(s, ref, nm, new))

    def g_upd_map(self, s):
        return self.g_ins_map(s, new=0.3)

    def g_del_map(self, s):
        if not s['cols'] or not s['lnk']:
            return None
        ref, nm = self.refname(s, self.bad / 2)
        mode = self.mode()
        crit = self.crit(s)
        if mode == 'crit' and self.flip(0.4) and self.known(s):
            crit = list(self.pick(self.known(s))[1])
        if mode in ('crit', 'both') and not any(crit):
            return None
        return dict(ref=ref, nm=nm, mode=mode, lab='all', hdr=True, crit=crit,
                    rows=self.maprows(s, ref, nm, 0.2, levels=False) if mode in ('data', 'both') else [])

    def g_reify(self, s):
        if not s['cols'] or not s['lnk']:
            return None
        ref, nm = self.refname(s, self.bad / 2)
        crit = self.crit(s)
        mode = self.r.choice(['all', 'crit', 'crit'])
        if mode == 'crit' and not any(crit):
            mode = 'all'
        return dict(ref=ref, nm=nm, mode=mode, crit=crit)

    # -- quantities --------------------------------------------------------
    def qrow(self, s, acols, valid):
        n = len(s['cols'])
        rec = self.pick(self.known(s))
        k = self.r.random()
        if rec is None or (k < 0.15 and not valid):
            lab = [self.r.choice(VALS + ['', '']) for _ in range(n)]
        else:
            lab = list(rec[1])
            if s['st'] and (valid or self.flip(0.8)):
                bits = self.pick([x[0] for x in s['st'] if any(x[0])] or [[1] * n])
                lab = [v if b else '' for v, b in zip(lab, bits)]
            else:
                lab = [v if self.flip(0.6) else '' for v in lab]
            if not valid and self.flip(0.15):
                lab[self.r.randrange(n)] = self.r.choice(VALS)
        if not valid and self.flip(0.08):
            lab = ['-' if v else '' for v in lab]
        at = [[a, self.pick(AVALS)] for a in acols if self.flip(0.75)]
        if not at and acols and self.flip(0.9):
            at = [[acols[0], self.pick(AVALS)]]
        dom = s['dom'] if valid or not self.flip(0.1) else self.pick(['dX'] + DOMS)
        v = self.r.randrange(0, 60) if not self.flip(0.1) else -self.r.randrange(1, 20)
        if not valid and self.flip(0.04):
            v = self.r.choice([BAD, BLANK])
        return [dom, lab, at, v]

    def g_ins_q2(self, s):
        if not s['cols'] or len(s['qty']) > 14:
            return None
        if not s['attrs'] and self.flip(0.8):
            return None
        free = [a for a in ATTRS if a not in s['attrs']]
        acols = self.some(s['attrs'], 0.85) or s['attrs'][:1]
        if free and self.flip(0.15):
            acols.append(self.pick(free))
        valid = not self.flip(0.5)
        rows = [self.qrow(s, acols, valid) for _ in range(self.r.choice([0, 1, 2, 3, 4]))]
        if s['qty'] and self.flip(0.4):
            q = self.pick(s['qty'])
            rows.append([s['dom'], list(q[0]), [list(p) for p in q[1] if p[0] in acols], self.r.randrange(0, 60)])
        if rows and self.flip(0.15):
            rows.append([rows[0][0], list(rows[0][1]), [list(x) for x in rows[0][2]], self.r.randrange(0, 60)])
        return dict(lab='part' if len(s['cols']) > 1 and self.flip(self.bad / 8) else 'all',
                    hasval=not self.flip(self.bad / 8), hasdom=self.flip(0.5), acols=acols,
                    ail=self.flip(0.35), aip=self.flip(0.35),
                    oe=self.r.choice(['abort', 'ignore', 'replace', 'sum'] + (['other'] if self.flip(self.bad / 3) else [])),
                    rows=rows)

    def g_ins_q(self, s):
        if not s['cols'] or len(s['qty']) > 14:
            return None
        acols = self.r.sample(ATTRS, self.r.choice([1, 2]))
        acols = [a for a in acols if a not in s['cols']]
        names = list(acols) if not self.flip(0.3) else self.some(acols, 0.6)
        if self.flip(self.bad / 6):
            names.append('noattr')
        hasdom = bool(s['dom']) if not self.flip(self.bad / 4) else self.flip(0.5)
        if not names:
            names = acols[:1]
        return dict(attrs=names, lab='part' if len(s['cols']) > 1 and self.flip(self.bad / 8) else 'all',
                    hasval=not self.flip(self.bad / 8), hasdom=hasdom, acols=acols,
                    rows=[self.qrow(s, acols, not self.flip(0.5)) for _ in range(self.r.choice([0, 1, 2, 3]))])

    def g_del_qwi(self, s):
        return {}

    def g_del_unm(self, s):
        return {}

    def g_reopen(self, s):
        return dict(mode=self.r.choice(['mem', 'drive', 'rw', 'rw']))

    # -- reads -------------------------------------------------------------
    def g_r_props(self, s):
        return {}

    def g_r_index(self, s):
        return dict(crit=self.crit(s))

    def g_r_wt(self, s):
        return dict(g=self.pick([g[0] for g in s['grp']] + ['nogroup']), crit=self.crit(s))

    def g_r_map(self, s):
        ref, nm = self.refname(s)
        return dict(ref=ref, nm=nm, crit=self.crit(s))

    def g_r_link(self, s):
        ref, nm = self.refname(s)
        return dict(ref=ref, nm=nm)

    def g_r_q(self, s):
        return {}

    g_r_q2 = g_r_qwi = g_r_unm = g_r_info = g_r_q
