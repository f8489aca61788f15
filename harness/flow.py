"""Random worlds of linked spaces, read, translated, pivoted and exported.

A world is a list of snapshots (the state of a space at some moment); the
events of a case name the snapshots they saw.  See spec/Flow.tla.
"""
import json
import math
import os
import random
import shutil

import common
import observe
import space
from selgen import SelGen
from common import BLANK
from gen import COLS, VALS, ATTRS, AVALS, DOMS

import toron
from toron import bind_file
from toron.reader import pivot_reader, pivot_reader_to_pandas

VS = 50400
UIDS = ['aaaa1111-0001', 'bbbb2222-0002', 'cccc3333-0003']
ORD = sorted(ATTRS + ['domain', 'k', 'j'])


def fix(v):
    if v is None:
        return BLANK
    v = float(v) / observe.QUNIT
    if math.isnan(v) or math.isinf(v) or abs(v) > 40000:
        return -1234567
    return int(round(v * VS))


class World:
    def __init__(self, seed, workdir, opts=None):
        self.r = random.Random(seed)
        self.dir = workdir
        self.memo = observe.HashMemo()
        self.snaps = []
        self.evs = []
        self.opts = opts or {}
        self.spaces = {}
        self.gsel, self.lsel = {}, {}
        self.nvals = self.r.choice([2, 3, 4])
        self.avals = self.r.sample(AVALS, self.r.choice([2, 3, 4]))
        self.attrs = self.r.sample(ATTRS, self.r.choice([1, 2, 2, 3]))
        self.sg = SelGen(self.r, self.attrs_plain(), self.avals)

    def attrs_plain(self):
        return [a for a in self.attrs if ' ' not in a] or ['category']

    def flip(self, p):
        return self.r.random() < p

    # -- building ----------------------------------------------------------
    def new(self, k):
        """A new space with the k-th unique id; some are bound to a file."""
        sp = space.make_other(UIDS[k], self.dir)
        if self.flip(0.25):
            path = os.path.join(self.dir, f'world{k}.toron')
            sp.to_file(path, fsync=False)
            sp = bind_file(path, mode='rw')
        self.spaces[k] = sp
        self.gsel[k], self.lsel[k] = [], []
        return sp

    def snap(self, k):
        path = os.path.join(self.dir, 'snap.toron')
        sp = self.spaces[k]
        hint = sp.path_hint
        sp.to_file(path, fsync=False)
        if hint:
            sp.path_hint = hint
        try:
            s = observe.read_state(path, self.memo)
        finally:
            os.unlink(path)
        self.snaps.append({'uid': UIDS[k], 's': s, 'gsel': list(self.gsel[k]), 'lsel': list(self.lsel[k])})
        return len(self.snaps)

    def selectors(self, p):
        """(texts, trees) for a group or link."""
        if not self.flip(p):
            return [], []
        trees = [self.sg.tree(2) for _ in range(self.r.choice([1, 1, 2]))]
        return [self.sg.text(t) for t in trees], trees

    def index(self, sp, ncols, nrec):
        cols = self.r.sample(COLS, ncols)
        sp.add_index_columns(*cols)
        pool = self.r.sample(VALS[:-1], self.nvals) + (['-'] if ncols > 1 and self.flip(0.15) else [])
        rows = []
        for _ in range(nrec):
            lab = [self.r.choice(pool) for _ in cols]
            if lab not in rows and set(lab) != {'-'}:
                rows.append(lab)
        if rows:
            sp.insert_index([cols] + rows)
        for _ in range(self.r.choice([0, 1, 1, 2])):
            d = {c for c in cols if self.flip(0.5)}
            try:
                sp.add_partition_definition(d)
            except Exception:
                pass
        if self.flip(0.4):
            sp.set_domain(self.r.choice(DOMS))
        return cols, rows

    def groups(self, k, sp, cols, rows):
        names = self.r.sample(['pop', 'wB', 'area km'], self.r.choice([1, 2, 2, 3]))
        for n, name in enumerate(names):
            texts, trees = self.selectors(0.75 if n else 0.3)
            sp.add_weight_group(name, None, texts or None)
            self.gsel[k].append([name, trees])
            full = self.flip(0.92)
            big = self.flip(0.15)
            vals = [self.r.choice([0, 0, 1, 1, 2, 3, 4, 5] if not big else [0, 7, 100, 5000, 12345]) for _ in rows]
            if self.flip(0.12):
                vals = [0] * len(rows)
            if self.flip(0.15):
                vals = [self.r.choice([1, 2, 4])] * len(rows)
            data = [lab + [v * observe.UNIT] for lab, v in zip(rows, vals) if full or self.flip(0.6)]
            if data:
                sp.insert_weights(name, [cols + [name]] + data)
            if not full and self.flip(0.3):
                sp.edit_weight_group(name, is_complete=True)
        k2 = self.r.random()
        if k2 < 0.05:
            sp.drop_weight_group(sp.get_default_weight_group().name)
        elif k2 < 0.1:
            sp.set_default_weight_group(None)
        elif k2 < 0.3:
            sp.set_default_weight_group(sp.get_weight_group(self.r.choice(names)))

    def quantities(self, sp, cols, rows, count):
        sp.set_registered_attributes(self.attrs)
        structure = [BitSet for BitSet in self._structure(sp, cols)]
        table, seen = [], set()
        gone = self.flip(0.12)      # some labels no record has
        swap = self.flip(0.3)       # the same values under other attributes
        for n in range(count):
            base = list(self.r.choice(rows)) if rows and self.flip(0.93) else ['-'] * len(cols)
            bits = self.r.choice(structure) if structure and self.flip(0.95) else [self.r.randrange(2) for _ in cols]
            lab = [v if b else '' for v, b in zip(base, bits)]
            if self.flip(0.06):
                lab = [('-' if v else v) if self.flip(0.5) else v for v in lab]
            at = [self.r.choice(self.avals) if self.flip(0.85) else '' for _ in self.attrs]
            if not any(at):
                at[0] = self.avals[0]
            if self.flip(self.opts.get('solo', 0.3)):
                at[0] = f'{self.r.choice(self.avals)}-{n}'
            v = self.r.choice([0, 1, 1, 2, 3, 5, 7, 10, 12, 16, 33, 64, 99, 100, -1, -5, -8])
            if gone and any(lab) and self.flip(0.3):
                k = self.r.choice([k for k, x in enumerate(lab) if x])
                lab = lab[:k] + [self.r.choice([x for x in VALS if x not in {r[k] for r in rows}])] + lab[k + 1:]
                v = self.r.choice([0, 0, v])
            for at in [at] + ([at[1:] + at[:1]] if swap and len(at) > 1 else []):
                key = tuple(lab + at)
                if key in seen:
                    continue
                seen.add(key)
                table.append(lab + at + [v * observe.QUNIT])
        if table:
            bad = gone or self.flip(0.08)
            kw = dict(allow_invalid_label=True, allow_invalid_partition=True) if bad else \
                dict(allow_invalid_label=self.flip(0.1))
            head = cols + self.attrs + ['amount']
            for row in table:       # one at a time, so that one bad row spoils nothing
                try:
                    sp.insert_quantities2(value_column='amount', data=[head, row], **kw)
                except Exception:
                    pass

    def _structure(self, sp, cols):
        defs = [[1 if c in d else 0 for c in cols] for d in sp.partition_definitions]
        out = {tuple([0] * len(cols))}
        for d in defs:
            out |= {tuple(max(a, b) for a, b in zip(d, o)) for o in out}
        out = [list(x) for x in out if any(x) or self.flip(0.2)]
        return out or defs

    def link(self, ka, kb):
        """Links of space kb from space ka."""
        a, b = self.spaces[ka], self.spaces[kb]
        aid = [row[0] for row in a.select_index(header=False)]
        bid = [row[0] for row in b.select_index(header=False)]
        cols = b.index_columns
        for n, name in enumerate(self.r.sample(['edge', 'e 2', 'pop'], self.r.choice([1, 1, 2, 3]))):
            texts, trees = self.selectors(0.8 if n else 0.25)
            kw = {}
            if self.flip(0.15):
                kw['is_default'] = self.flip(0.5)
            b.add_link(a, name, selectors=texts or None, **kw)
            self.lsel[kb].append([UIDS[ka], name, trees])
            rows = []
            skip = self.flip(0.1)
            for o in aid:
                if o == 0:
                    if self.flip(0.5):
                        rows.append([0, 0, self.level(cols, True), 0])
                    continue
                if skip and self.flip(0.4):
                    continue
                for i in self.r.sample(bid, min(len(bid), self.r.choice([1, 1, 2, 3]))):
                    rows.append([o, i, self.level(cols, False), self.r.choice([0, 1, 1, 2, 3, 5, 10])])
            # give every local record a mapping, most of the time
            have = {r[1] for r in rows}
            if aid[1:] and not self.flip(0.15):
                for i in bid:
                    if i and i not in have:
                        rows.append([self.r.choice(aid[1:]), i, self.level(cols, False), self.r.choice([1, 2])])
            if rows:
                rows = [r[:3] + [r[3] * observe.UNIT] for r in rows]
                b.insert_mappings2(a, name, [['other_index_id', 'index_id', 'mapping_level', 'mapping_value']] + rows)

    def level(self, cols, full):
        return space.bits_to_bytes([1] * len(cols))

    def mutate(self, k):
        """Change the index of a space after readers of it were made."""
        sp = self.spaces[k]
        rows = [r for r in sp.select_index(header=False) if r[0]]
        cols = sp.index_columns
        op = self.r.choice(['del', 'ins', 'upd', 'merge'])
        try:
            if op == 'del' and rows:
                sp.delete_index([['index_id'], [self.r.choice(rows)[0]]])
            elif op == 'ins':
                sp.insert_index([cols, ['new'] * len(cols)])
            elif rows:
                rec = self.r.choice(rows)
                lab = ['upd'] * len(cols) if op == 'upd' else list(self.r.choice(rows)[1:])
                sp.update_index([['index_id'] + cols, [rec[0]] + lab], merge_on_conflict=True)
        except Exception:
            pass

    # -- events ------------------------------------------------------------
    def put(self, **ev):
        self.evs.append(ev)
        return ev

    def attempt(self, ev, func):
        try:
            val = func()
            ev['res'] = 'ok'
            return val
        except Exception as err:
            ev['res'] = 'err'
            ev['why'] = f'{type(err).__name__}: {err}'[:160]
            return None

    def filters(self):
        if not self.flip(0.35):
            return [], []
        trees = [self.sg.tree(2) for _ in range(self.r.choice([1, 1, 2]))]
        return [self.sg.text(t) for t in trees], trees

    def read(self, k, snap):
        texts, trees = self.filters()
        by = self.r.sample(self.attrs + ['nope'], self.r.choice([1, 2])) if self.flip(0.25) else []
        quant = self.flip(self.opts.get('quant', 0.25)) and observe.QUNIT == 1
        drive = self.flip(0.2)
        ev = self.put(op='read', at=snap, sels=trees, by=by, quant=quant, drive=drive)
        kw = {}
        if by:
            kw['sum_by_attrs'] = by[0] if len(by) == 1 and self.flip(0.5) else by
        if quant:
            kw['quantize'] = True
        if drive:
            kw['cache_to_drive'] = True
        return self.attempt(ev, lambda: self.spaces[k](*texts, **kw))

    def move(self, reader, cur, kb, snap):
        ev = self.put(op='translate', cur=cur, to=snap, quant=False)
        ev['quant'] = bool(reader.quantize_default)
        how = self.r.randrange(3)
        if how == 0:
            return self.attempt(ev, lambda: reader >> self.spaces[kb])
        if how == 1:
            return self.attempt(ev, lambda: reader.translate(self.spaces[kb]))
        ev['quant'] = self.flip(0.3) and observe.QUNIT == 1
        return self.attempt(ev, lambda: reader.translate(self.spaces[kb], quantize=ev['quant']))

    def rows(self, reader, cur):
        kind = self.r.choice(['iter', 'iter', 'iter', 'pandas', 'pandas_i'])
        ev = self.put(op='rows', cur=cur, kind=kind, ord=ORD, hdr=[], rows=[])

        def get():
            if kind == 'iter':
                return list(reader.columns), [list(x) for x in reader]
            df = reader.to_pandas(index=kind == 'pandas_i')
            if kind == 'pandas_i':
                if list(df.index.names) != list(reader.index_columns):
                    raise AssertionError('data frame index')
                df = df.reset_index()
            df = df.astype(object).where(df.notna(), None)
            return [str(c) for c in df.columns], [list(x) for x in df.itertuples(index=False)]
        got = self.attempt(ev, get)
        if got:
            hdr, body = got
            n = len(self.snaps[cur - 1]['s']['cols'])
            ev['hdr'] = hdr
            ev['rows'] = [[list(x[:n]), ['' if v is None else v for v in x[n:-1]], fix(x[-1])] for x in body]

    def pivot(self, reader, cur):
        cols = self.r.sample(self.attrs + ['domain', 'nope'], self.r.choice([1, 1, 2]))
        agg = self.r.choice(['sum', 'sum', 'mean'])
        pandas = self.flip(0.2)
        ev = self.put(op='pivot', cur=cur, cols=cols, agg=agg, hdr=[], pcols=[], rows=[], pandas=pandas)
        kw = {'aggregate_function': agg} if agg != 'sum' or self.flip(0.5) else {}

        def get():
            if not pandas:
                data = list(pivot_reader(reader, cols, **kw))
                return list(data[0]), [list(x) for x in data[1:]]
            df = pivot_reader_to_pandas(reader, cols, **kw)
            df = df.astype(object).where(df.notna(), None)
            return list(df.columns), [list(x) for x in df.itertuples(index=False)]
        got = self.attempt(ev, get)
        if got:
            hdr, body = got
            n = len(self.snaps[cur - 1]['s']['cols'])
            ev['hdr'] = [str(x) for x in hdr[:n]]
            for h in hdr[n:]:
                p = [h] if isinstance(h, str) else list(h)
                ev['pcols'].append(p + [''] * (len(cols) - len(p)))
            ev['rows'] = [[list(x[:n]), [fix(v) for v in x[n:]]] for x in body]

    def stream(self, k, snap, path):
        names = [g.name for g in self.spaces[k].weight_groups] + (['nogroup'] if self.flip(0.05) else [])
        if not names:
            return
        s = self.snaps[snap - 1]['s']
        g = self.r.choice(names)
        rec = self.r.choice(s['idx'])[1]
        crit = [v if v not in ('', '-') and self.flip(0.3) else '' for v in rec]
        full = not path
        ev = self.put(op='stream', at=snap, g=g, crit=crit, path=[p[1] for p in path], dom=s['dom'], hdr=[], rows=[])

        def get():
            it = self.spaces[k].select_weights(g, **{c: v for c, v in zip(s['cols'], crit) if v})
            for kb, _ in path:
                it = it >> self.spaces[kb]
            return list(it.columns), [list(x) for x in it]
        got = self.attempt(ev, get)
        if got:
            hdr, body = got
            n = len(self.snaps[(path[-1][1] if path else snap) - 1]['s']['cols'])
            ev['hdr'] = hdr
            ev['rows'] = [[list(x[:n]), list(x[n:-1]), fix(x[-1] / observe.UNIT * observe.QUNIT)] for x in body if x[-1] is not None]

    # -- the whole world ---------------------------------------------------
    def build(self):
        r = self.r
        for k in range(3):
            sp = self.new(k)
            cols, rows = self.index(sp, r.choice([1, 2, 2, 3]), r.choice([1, 2, 3, 4, 6, 8]) if not self.flip(0.03) else 0)
            if k == 0 or self.flip(0.4):
                self.groups(k, sp, cols, rows)
            if k == 0:
                self.quantities(sp, cols, rows, r.choice([1, 2, 4, 6, 8, 10]))
        self.link(0, 1)
        self.link(1, 2)
        if self.flip(0.3):
            self.link(0, 2)

    def play(self, cases):
        r = self.r
        now = {k: self.snap(k) for k in range(3)}
        early = []
        changed = self.flip(0.3)
        for n in range(cases):
            if self.flip(0.1):
                path = r.choice([[], [1], [1, 2], [2]])
                self.stream(0, now[0], [(kb, now[kb]) for kb in path])
                continue
            start = len(self.evs)
            reader = self.read(0, now[0])
            if reader is None:
                continue
            if changed and len(early) < 2 and self.flip(0.4):
                early.append((self.evs[start], reader))
                del self.evs[start:]
                continue
            self.go(reader, now)
        if changed:
            which = r.choice([0, 0, 1])
            self.mutate(which)
            now[which] = self.snap(which)
            for ev, reader in early:
                self.evs.append(ev)
                self.go(reader, now)
            for n in range(2):
                reader = self.read(0, now[0])
                if reader is not None:
                    self.go(reader, now)

    def go(self, reader, now):
        r = self.r
        cur = 0
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            if self.flip(0.3):
                self.pivot(reader, now[cur])
            kb = r.choice([1, 2, 2] if cur == 0 else [2, 2, 1] if cur == 1 else [1, 0])
            if cur == 0 and self.flip(0.8):
                kb = 1
            self.move(reader, now[cur], kb, now[kb])
            if self.evs[-1]['res'] == 'ok':
                cur = kb
        if self.flip(0.4):
            self.pivot(reader, now[cur])
        self.rows(reader, now[cur])


def record(seed, workdir, opts=None, cases=10):
    w = World(seed, workdir, opts)
    r = random.Random(seed + 1)
    units = [r.choice(observe.UNITS) if r.random() < p else 1.0 for p in (0.3, 0.3 * (1 - (opts or {}).get('quant', 0.25)))]
    with observe.unit(*units):
        w.build()
        w.play(cases)
    return {'seed': seed, 'kind': 'flow', 'opts': opts or {}, 'cases': cases, 'world': w.snaps, 'evs': w.evs}


def owners(tr, upto, clause):
    """Which properties a difference at event number upto belongs to."""
    ev = tr['evs'][upto - 1]
    if ev['op'] == 'stream':
        return {'C03'} if ev['path'] else {'C12', 'C24'}
    if ev['op'] == 'translate':
        return {'C03'}
    k = upto - 1
    moved = quant = 0
    while tr['evs'][k]['op'] != 'read':
        e = tr['evs'][k]
        if e['op'] == 'translate' and e['res'] == 'ok':
            moved += 1
            quant += bool(e['quant'])
        k -= 1
    rd = tr['evs'][k]
    quant += bool(rd['quant'])
    variant = bool(rd['by'] or rd['sels'] or rd['drive'] or ev.get('pandas') or ev['op'] == 'pivot'
                   or ev.get('kind') in ('pandas', 'pandas_i'))
    out = {'C24'} if variant or clause in ('hdr', 'dup') else set()
    if quant:
        out.add('C20')
    if clause in ('whole', 'quantized'):
        return {'C20'}
    if clause.startswith('accepted:'):
        why = clause.split(':')[1]
        if why in ('default', 'weight'):
            return out | {'C02'}
        return out | ({'C03'} if moved else {'C01'})
    if moved:
        return out | {'C03'}
    if clause == 'value':
        return out | {'C02'}
    if clause in ('failed', 'place'):
        return out | {'C01', 'C02'}
    return out | {'C01'}


# -- the small worlds of spec/MC_Flow.tla -------------------------------------
SRC_ROWS = [['x', 'u'], ['x', 'w'], ['y', 'u']]
KP = ['s', 'k', '=', 'p', '']
KR = ['s', 'k', '=', 'r', '']
J1 = ['s', 'j', '', '', '']
MODEL_FILTERS = [([], []), (['[k=p]'], [KP]), (['[k=r]', '[j]'], [KR, J1])]


class ModelWorld(World):
    def __init__(self, case, workdir):
        World.__init__(self, json.dumps(case, sort_keys=True), workdir)
        self.case = case
        self.attrs = ['k', 'j']

    def build(self):
        case = self.case
        src, tgt = (space.make_other(UIDS[k], self.dir) for k in range(2))
        self.spaces = {0: src, 1: tgt}
        self.gsel = {0: [['g', []], ['h', [KP]]], 1: []}
        self.lsel = {0: [], 1: [[UIDS[0], 'one', []], [UIDS[0], 'two', [KR, J1]]]}
        src.add_index_columns('A', 'B')
        src.insert_index([['A', 'B']] + SRC_ROWS)
        for bits in sorted(case['pd']):
            if bits != [1, 1]:      # (the whole space is always defined)
                src.add_partition_definition({c for c, b in zip('AB', bits) if b})
        for name, sel in (('g', None), ('h', ['[k=p]'])):
            src.add_weight_group(name, None, sel)
            data = [row + [w] for row, w in zip(SRC_ROWS, case[name]) if w != -1]
            if data:
                src.insert_weights(name, [['A', 'B', name]] + data)
        src.set_default_weight_group(src.get_weight_group(case['dflt']) if case['dflt'] else None)
        src.set_registered_attributes(['k', 'j'])
        for lab, at, v in sorted(case['q']):
            at = dict(at)
            src.insert_quantities2(value_column='v', data=[['A', 'B', 'k', 'j', 'v'], lab + [at.get('k', ''), at.get('j', ''), v]],
                                   allow_invalid_label=True, allow_invalid_partition=True)
        tgt.add_index_columns('T')
        tgt.insert_index([['T'], ['m'], ['n']])
        one = space.bits_to_bytes([1])
        for name, sel, key in (('one', None, 'm1'), ('two', ['[k=r]', '[j]'], 'm2')):
            tgt.add_link(src, name, selectors=sel, is_default=key == 'm1')
            rows = [[o, i, one, v] for o, pairs in enumerate(case[key], 1) for i, v in sorted(pairs)]
            if case['zero']:
                rows.append([0, 0, one, 0])
            if rows:
                tgt.insert_mappings2(src, name, [['other_index_id', 'index_id', 'mapping_level', 'mapping_value']] + rows)

    def play_all(self):
        now = {k: self.snap(k) for k in (0, 1)}
        for texts, trees in MODEL_FILTERS:
            for by in ([], ['k']):
                for quant in (False, True):
                    kw = {'sum_by_attrs': by} if by else {}
                    for moved in (False, True):     # (a reader lists its rows only once)
                        ev = self.put(op='read', at=now[0], sels=trees, by=by, quant=quant, drive=False)
                        reader = self.attempt(ev, lambda: self.spaces[0](*texts, quantize=quant, **kw))
                        if reader is None:
                            break
                        if moved:
                            self.move(reader, now[0], 1, now[1])
                            if self.evs[-1]['res'] != 'ok':
                                break
                        if by:
                            self.pivot(reader, now[moved])
                        self.rows(reader, now[moved])


def record_case(case, workdir):
    w = ModelWorld(case, workdir)
    w.build()
    w.play_all()
    return {'seed': 0, 'kind': 'flow', 'case': case, 'world': w.snaps, 'evs': w.evs}


def replay(doc):
    import engines
    tr = doc['trace']
    with common.Scratch() as d:
        out = record_case(tr['case'], d) if tr.get('case') else record(tr['seed'], d, tr.get('opts'), tr.get('cases', 10))
    fails, _, _ = engines.validate([out], 'Trace_Flow')
    for f in fails:
        for ev in out['evs'][max(0, f['i'] - 3):f['i']]:
            print(json.dumps(ev)[:900])
        print('differs:', f['bad'])
    if not fails:
        print('no difference on this run')
    return 1 if fails else 0
