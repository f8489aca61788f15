"""Executes logical events of spec/DataSpace.tla on a real toron.DataSpace.

Every event is a JSON record holding only logical arguments; the physical
form (column order, extra columns, row containers, numeric text) is chosen
from the event's own format seed, so that replaying an event repeats it.
"""
import logging
import os
import random
import shutil
import sqlite3
import json
import warnings

from common import NOID, JUNKID, BLANK, BAD
import observe

import toron
from toron import DataSpace, read_file, bind_file

logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')


def make_other(uid, workdir):
    """A real DataSpace whose unique id is uid."""
    path = os.path.join(workdir, 'mkother.toron')
    DataSpace().to_file(path, fsync=False)
    con = sqlite3.connect(path)
    con.execute("update property set value=? where key='unique_id'", (json.dumps(uid),))
    con.commit()
    con.close()
    sp = read_file(path)
    os.unlink(path)
    return sp


def bits_to_bytes(bits):
    out = []
    for k in range(0, len(bits), 8):
        chunk = list(bits[k:k + 8]) + [0] * 8
        v = 0
        for b in chunk[:8]:
            v = v * 2 + b
        out.append(v)
    while out and out[-1] == 0:
        out.pop()
    return bytes(out)


class Boom(Exception):
    pass


class Fmt:
    """Random physical forms for tables and cells."""
    def __init__(self, seed):
        self.r = random.Random(seed)

    def ident(self, v, text=False):
        if v == NOID:
            return ''
        if v == JUNKID:
            return 'abc'
        if text and self.r.random() < 0.4:
            return str(v)
        return v

    def num(self, v, text=False, bad=('abc',), blank=('',)):
        if v == BAD:
            return self.r.choice(bad)
        if v == BLANK:
            return self.r.choice(blank)
        k = self.r.random()
        if observe.UNIT != 1:
            v = v * observe.UNIT
            return str(v) if text and k < 0.5 else v
        if k < 0.4:
            return v
        if text and k < 0.6:
            return str(v)
        if text and k < 0.7:
            return f'{v}.0'
        return float(v)

    def level(self, bits):
        return None if bits == [-1] else bits_to_bytes(bits)

    def table(self, columns, rows, fixed=0, boom=None, extra=True):
        """Return positional (data, columns) for a table given by rows."""
        r = self.r
        columns = list(columns)
        rows = [list(x) for x in rows]
        order = list(range(fixed, len(columns)))
        r.shuffle(order)
        order = list(range(fixed)) + order
        columns = [columns[k] for k in order]
        rows = [[x[k] for k in order] for x in rows]
        if extra and r.random() < 0.3:
            pos = r.randrange(fixed, len(columns) + 1)
            columns.insert(pos, 'zz_extra')
            for x in rows:
                x.insert(pos, r.choice(['p', 'q', 7]))
        kind = r.choice(['header', 'header', 'cols', 'gen', 'gencols', 'dicts', 'tuples'])
        if kind == 'dicts' and (not rows or len(set(columns)) < len(columns)):
            kind = 'header'
        if kind in ('cols', 'gencols') and not rows:
            kind = 'header'

        def gen(seq):
            for k, x in enumerate(seq):
                if boom is not None and k == boom:
                    if k > 1 and r.random() < 0.15:     # much data before the failure
                        for _ in range(r.choice([600, 1100])):
                            yield seq[k - 1]
                    raise Boom('source failed')
                yield x
            if boom is not None and boom >= len(seq):
                raise Boom('source failed')
        if boom is not None:
            boom += 1
            return (gen([columns] + rows), None)
        if kind == 'header':
            return ([columns] + rows, None)
        if kind == 'tuples':
            return (tuple([tuple(columns)] + [tuple(x) for x in rows]), None)
        if kind == 'cols':
            return (rows, columns)
        if kind == 'gencols':
            return (gen(rows), tuple(columns))
        if kind == 'gen':
            return (gen([columns] + rows), None)
        return ([dict(zip(columns, x)) for x in rows], None)


def label_cols(ev, cols):
    """The label columns an event's table carries."""
    lab = ev.get('lab', 'all')
    if lab == 'all':
        return list(cols)
    if lab == 'none':
        return []
    return list(cols)[1:] if len(cols) > 1 else []


class Subject:
    """The data space under test together with its observed state."""

    def __init__(self, workdir, others, mode='mem', memo=None):
        self.dir = workdir
        self.others = others            # uid -> DataSpace
        self.memo = memo or observe.HashMemo()
        self.count = 0
        self.mode = mode
        self.file = None                # the bound file, if any
        if mode == 'rw':
            self.file = os.path.join(workdir, 'bound.toron')
            self.sp = bind_file(self.file, mode='rwc')
        elif mode == 'drive':
            self.sp = DataSpace(cache_to_drive=True)
        else:
            self.sp = DataSpace()
        self.state = self.observe()
        self.used = max([0] + [r[0] for r in self.state['idx']])

    @classmethod
    def attach(cls, workdir, others, path, state, memo):
        """A subject bound to an existing file whose state is known."""
        self = cls.__new__(cls)
        self.dir, self.others, self.memo, self.count = workdir, others, memo, 0
        self.mode, self.file, self.state = 'rw', path, state
        self.used = max([0] + [r[0] for r in state['idx']])
        self.sp = bind_file(path, mode='rw')
        return self

    def observe(self):
        if self.mode in ('rw', 'ro'):
            return observe.read_state(self.file, self.memo)
        path = os.path.join(self.dir, 'observe.toron')
        hint = self.sp.path_hint
        self.sp.to_file(path, fsync=False)
        if not hint:
            self.sp._path_hint = None
        try:
            return observe.read_state(path, self.memo)
        finally:
            os.unlink(path)

    def close(self):
        self.sp = None

    # -- one event ---------------------------------------------------------
    def run(self, ev):
        """Execute ev; return it completed with its outcome and delta."""
        ev = dict(ev)
        try:
            rd = self.call(ev)
            ev['res'] = 'ok'
            if rd is not None:
                ev['rd'] = rd
        except Exception as err:
            ev['res'] = 'err'
            ev['why'] = f'{type(err).__name__}: {err}'[:160]
        new = self.observe()
        ev['d'] = observe.delta(self.state, new)
        self.state = new
        self.used = max([self.used] + [r[0] for r in new['idx']])
        return ev

    def call(self, ev):
        f = Fmt(ev.get('fs', 0))
        return getattr(self, 'op_' + ev['op'])(ev, f)

    def ref(self, ev, f):
        """A link reference: the text, or the space it is the id of."""
        if ev['ref'] in self.others and f.r.random() < 0.5:
            return self.others[ev['ref']]
        return ev['ref']

    # -- columns, domain, attributes, partitions ---------------------------
    def op_add_cols(self, ev, f):
        self.sp.add_index_columns(*ev['cols'])

    def op_ren_cols(self, ev, f):
        if len(ev['pairs']) == 1 and f.r.random() < 0.5:
            self.sp.rename_label_column(*ev['pairs'][0])
        else:
            self.sp.rename_index_columns({a: b for a, b in ev['pairs']})

    def op_drop_cols(self, ev, f):
        self.sp.drop_index_columns(*ev['cols'])

    def op_ord_lab(self, ev, f):
        self.sp.change_label_order(ev['x'], ev['k'])

    def op_ord_attr(self, ev, f):
        self.sp.change_attribute_order(ev['x'], ev['k'])

    def op_set_domain(self, ev, f):
        self.sp.set_domain(ev['v'])

    def op_set_attrs(self, ev, f):
        self.sp.set_registered_attributes(list(ev['attrs']))

    def op_add_pdef(self, ev, f):
        self.sp.add_partition_definition(set(ev['def']))

    def op_add_pdefs(self, ev, f):
        self.sp.add_partition_definitions(*[set(x) for x in ev['defs']])

    def op_drop_pdefs(self, ev, f):
        self.sp.drop_partition_definitions(*[set(x) for x in ev['defs']])

    # -- index -------------------------------------------------------------
    def op_ins_index(self, ev, f):
        cols = self.state['cols']
        lc = label_cols(ev, cols)
        names = (['index_id'] if ev['hasid'] else []) + lc + list(ev['dw'])
        rows = []
        for i, lab, w in ev['rows']:
            by = dict(zip(cols, lab))
            rows.append(([f.ident(i, True)] if ev['hasid'] else []) + [by[c] for c in lc] +
                        [f.num(v, True, blank=('', None)) for v in w])
        data, columns = f.table(names, rows, boom=ev.get('boom'))
        kw = {}
        if ev['wsel'] != 'all':
            kw['weights'] = list(ev['wnames'])
            if len(ev['wnames']) == 1 and f.r.random() < 0.5:
                kw['weights'] = ev['wnames'][0]
        if ev['lc'] != 'abort' or f.r.random() < 0.5:
            kw['on_label_conflict'] = ev['lc']
        if ev['wc'] != 'abort' or f.r.random() < 0.5:
            kw['on_weight_conflict'] = ev['wc']
        self.sp.insert_index(data, columns, **kw)

    def op_ins_index_old(self, ev, f):
        cols = self.state['cols']
        lc = label_cols(ev, cols)
        rows = [[dict(zip(cols, lab))[c] for c in lc] for i, lab, w in ev['rows']]
        self.sp.insert_index_OLD(*f.table(lc or ['zz'], rows or [], boom=ev.get('boom')))

    def _id_lab_rows(self, ev, f, text):
        cols = self.state['cols']
        lc = label_cols(ev, cols)
        names = (['index_id'] if ev['hasid'] else []) + lc
        rows = [([f.ident(r[0], text)] if ev['hasid'] else []) + [dict(zip(cols, r[1]))[c] for c in lc]
                for r in ev['rows']]
        return names, rows

    def op_upd_index(self, ev, f):
        names, rows = self._id_lab_rows(ev, f, False)
        data, columns = f.table(names, rows, boom=ev.get('boom'))
        self.sp.update_index(data, columns, merge_on_conflict=ev['merge'])

    def crit(self, ev):
        return {c: v for c, v in zip(self.state['cols'], ev['crit']) if v != ''}

    def op_del_index(self, ev, f):
        if ev['mode'] == 'none':
            return self.sp.delete_index()
        data = columns = None
        if ev['mode'] in ('data', 'both'):
            names, rows = self._id_lab_rows(ev, f, True)
            data, columns = f.table(names, rows, boom=ev.get('boom'))
        kw = self.crit(ev) if ev['mode'] in ('crit', 'both') else {}
        if ev['mode'] == 'crit':
            self.sp.delete_index(**kw)
        else:
            self.sp.delete_index(data, columns, **kw)

    # -- weights -----------------------------------------------------------
    def op_add_wg(self, ev, f):
        kw = {}
        if ev['dflt'] != 'none':
            kw['make_default'] = ev['dflt'] == 'yes'
        self.sp.add_weight_group(ev['name'], ev['desc'] or None, list(ev['sels']) or None,
                                 ev['complete'], **kw)

    def op_edit_wg(self, ev, f):
        names = {'name': 'name', 'desc': 'description', 'sels': 'selectors', 'complete': 'is_complete'}
        self.sp.edit_weight_group(ev['name'], **{names[k]: v for k, v in ev['ch']})

    def op_drop_wg(self, ev, f):
        self.sp.drop_weight_group(ev['name'])

    def op_set_dflt(self, ev, f):
        self.sp.set_default_weight_group(self.sp.get_weight_group(ev['name']) if ev['name'] else None)

    def _weight_table(self, ev, f, value, **kw):
        cols = self.state['cols']
        lc = label_cols(ev, cols)
        names = (['index_id'] if ev['hasid'] else []) + lc + ([value] if ev.get('hasval', True) else [])
        rows = []
        for i, lab, v in ev['rows']:
            rows.append(([f.ident(i, kw.get('textid'))] if ev['hasid'] else []) +
                        [dict(zip(cols, lab))[c] for c in lc] +
                        ([f.num(v, kw.get('textnum'), kw.get('bad', ('abc',)), kw.get('blank', ('',)))]
                         if ev.get('hasval', True) else []))
        return f.table(names, rows, boom=ev.get('boom'))

    def op_ins_wt(self, ev, f):
        col = 'val' if f.r.random() < 0.5 else None
        data, columns = self._weight_table(ev, f, col or ev['g'], textid=True, textnum=True,
                                           bad=('abc', None, float('nan'), float('inf'), 'nan', '-inf'))
        kw = {} if ev['oc'] == 'abort' and f.r.random() < 0.5 else {'on_conflict': ev['oc']}
        if col:
            kw['value_column'] = col
        self.sp.insert_weights(ev['g'], data, columns, **kw)

    def op_upd_wt(self, ev, f):
        col = 'val' if f.r.random() < 0.5 else None
        data, columns = self._weight_table(ev, f, col or ev['g'])
        self.sp.update_weights(ev['g'], data, columns, **({'value_column': col} if col else {}))

    def op_del_wt(self, ev, f):
        if ev['mode'] == 'none':
            return self.sp.delete_weights(ev['g'])
        data = columns = None
        if ev['mode'] in ('data', 'both'):
            names, rows = self._id_lab_rows(ev, f, True)
            data, columns = f.table(names, rows, boom=ev.get('boom'))
        kw = self.crit(ev) if ev['mode'] in ('crit', 'both') else {}
        if ev['mode'] == 'crit':
            self.sp.delete_weights(ev['g'], **kw)
        else:
            self.sp.delete_weights(ev['g'], data, columns, **kw)

    # -- links and mappings ------------------------------------------------
    def op_add_link(self, ev, f):
        kw = {}
        if ev['dflt'] != 'none':
            kw['is_default'] = ev['dflt'] == 'yes'
        self.sp.add_link(self.others[ev['sp']], ev['nm'], other_filename_hint=ev['hint'] or None,
                         description=ev['desc'] or None, selectors=list(ev['sels']) or None,
                         is_locally_complete=ev['lc'], **kw)

    def op_edit_link(self, ev, f):
        names = {'name': 'name', 'desc': 'description', 'sels': 'selectors', 'is_default': 'is_default',
                 'hint': 'other_filename_hint', 'lc': 'is_locally_complete'}
        self.sp.edit_link(self.ref(ev, f), ev['nm'] or None, **{names[k]: v for k, v in ev['ch']})

    def op_drop_link(self, ev, f):
        self.sp.drop_link(self.ref(ev, f), ev['nm'] or None)

    def op_ins_map2(self, ev, f):
        rows = [[f.ident(o), f.ident(i), f.level(lv), f.num(v, True, ('abc', None, float('nan')))]
                for o, i, lv, v in ev['rows']]
        names = ['other_index_id', 'index_id', 'mapping_level', 'mapping_value']
        data, columns = f.table(names, rows, fixed=4, boom=ev.get('boom'))
        self.sp.insert_mappings2(self.ref(ev, f), ev['nm'] or None, data, columns)

    def _map_table(self, ev, f, level=True):
        cols = self.state['cols']
        lc = label_cols(ev, cols)
        head = ['other_index_id', ev['nm'] or None, 'index_id']
        if not ev['hdr']:
            head = ['index_id', ev['nm'] or None, 'other_index_id']
        names = head + lc + (['mapping_level'] if level else [])
        rows = []
        for row in ev['rows']:
            o, v, i, lab = row[:4]
            by = dict(zip(cols, lab))
            rows.append([f.ident(o), f.num(v, level, ('abc',) if not level else ('abc', None)), f.ident(i)] +
                        [by[c] for c in lc] + ([f.level(row[4])] if level else []))
        return f.table(names, rows, fixed=3, boom=ev.get('boom'))

    def op_ins_map(self, ev, f):
        data, columns = self._map_table(ev, f)
        self.sp.insert_mappings(self.ref(ev, f), ev['nm'] or None, data, columns)

    def op_upd_map(self, ev, f):
        data, columns = self._map_table(ev, f)
        self.sp.update_mappings(self.ref(ev, f), ev['nm'] or None, data, columns)

    def op_del_map(self, ev, f):
        ref, nm = self.ref(ev, f), ev['nm'] or None
        if ev['mode'] == 'none':
            return self.sp.delete_mappings(ref, nm)
        data = columns = None
        if ev['mode'] in ('data', 'both'):
            data, columns = self._map_table(ev, f, level=False)
        kw = self.crit(ev) if ev['mode'] in ('crit', 'both') else {}
        if ev['mode'] == 'crit':
            self.sp.delete_mappings(ref, nm, **kw)
        else:
            self.sp.delete_mappings(ref, nm, data, columns, **kw)

    def op_reify(self, ev, f):
        kw = self.crit(ev) if ev['mode'] == 'crit' else {}
        self.sp.reify_mappings(self.ref(ev, f), ev['nm'] or None, **kw)

    # -- quantities --------------------------------------------------------
    def _qty_table(self, ev, f):
        cols = self.state['cols']
        lc = label_cols(ev, cols)
        names = (['domain'] if ev['hasdom'] else []) + lc + list(ev['acols']) + (['amount'] if ev['hasval'] else [])
        rows = []
        for dom, lab, attrs, v in ev['rows']:
            at = dict(map(tuple, attrs))
            rows.append(([dom] if ev['hasdom'] else []) + [dict(zip(cols, lab))[c] for c in lc] +
                        [at.get(k, '') for k in ev['acols']] +
                        ([f.num(v, True, ('abc', None, float('nan')))] if ev['hasval'] else []))
        return f.table(names, rows, boom=ev.get('boom'))

    def op_ins_q2(self, ev, f):
        data, columns = self._qty_table(ev, f)
        kw = {}
        if ev['ail'] or f.r.random() < 0.3:
            kw['allow_invalid_label'] = ev['ail']
        if ev['aip'] or f.r.random() < 0.3:
            kw['allow_invalid_partition'] = ev['aip']
        if ev['oe'] != 'abort' or f.r.random() < 0.3:
            kw['on_existing'] = ev['oe']
        self.sp.insert_quantities2(value_column='amount', data=data, columns=columns, **kw)

    def op_ins_q(self, ev, f):
        data, columns = self._qty_table(ev, f)
        attrs = list(ev['attrs'])
        if len(attrs) == 1 and f.r.random() < 0.3:
            attrs = attrs[0]
        self.sp.insert_quantities(value='amount', attributes=attrs, data=data, columns=columns)

    def op_del_qwi(self, ev, f):
        self.sp.delete_quantities_without_index()

    def op_del_unm(self, ev, f):
        self.sp.delete_unmatched_quantities()

    # -- saving and reopening ----------------------------------------------
    def op_reopen(self, ev, f):
        """Save (when not bound) and open again in another mode."""
        path = os.path.join(self.dir, f'space{self.count}.toron')
        self.count += 1
        if self.mode == 'rw' and f.r.random() < 0.5:
            path = self.file
        else:
            self.sp.to_file(path, fsync=f.r.random() < 0.2)
        old = self.file
        if ev['mode'] == 'rw':
            self.sp = bind_file(path, mode=f.r.choice(['rw', 'rwc']))
            self.file = path
        else:
            self.sp = read_file(path, cache_to_drive=ev['mode'] == 'drive')
            self.file = None
        self.mode = ev['mode']
        for p in {old, path} - {self.file, None}:
            if os.path.exists(p):
                os.unlink(p)

    # -- reads (results are compared with the specification) ---------------
    def op_r_props(self, ev, f):
        sp = self.sp
        dwg = sp.get_default_weight_group()
        return {
            'dom': sp.domain,
            'cols': list(sp.index_columns),
            'disp': list(sp.get_label_columns()),
            'attrs': list(sp.get_registered_attributes()),
            'pd': observe.canon([1 if c in x else 0 for c in sp.index_columns] for x in sp.partition_definitions),
            'maxid': sp.max_index_id,
            'grp': observe.canon([g.name, g.description or '', list(g.selectors or []), bool(g.is_complete)]
                                 for g in sp.weight_groups),
            'dflt': dwg.name if dwg else '',
            'lnk': observe.canon([l.other_unique_id, l.name, l.other_filename_hint or '', l.description or '',
                                  list(l.selectors or []), bool(l.is_default), bool(l.is_locally_complete),
                                  self.memo.decode(l.other_index_hash)] for l in sp.links),
        }

    @staticmethod
    def listing(f, func, *args, **kwds):
        """Header row and data rows, in one listing or from two."""
        rows = list(func(*args, header=True, **kwds))
        if f.r.random() < 0.4:
            rows[1:] = list(func(*args, header=False, **kwds))
        return rows

    def op_r_index(self, ev, f):
        rows = self.listing(f, self.sp.select_index, **self.crit(ev))
        return {'hdr': list(rows[0]), 'rows': [[r[0], list(r[1:])] for r in rows[1:]]}

    def op_r_wt(self, ev, f):
        it = self.sp.select_weights(ev['g'], **self.crit(ev))
        rows = [list(r) for r in it]
        n = len(self.state['cols'])
        return {'hdr': list(it.columns),
                'rows': [[list(r[:n]), list(r[n:-1]), BLANK if r[-1] is None else observe._num(r[-1])] for r in rows]}

    def op_r_map(self, ev, f):
        n = len(self.state['cols'])
        rows = self.listing(f, self.sp.select_mappings, self.ref(ev, f), ev['nm'] or None, **self.crit(ev))
        opt = lambda v, alt: alt if v is None else v
        body = []
        for r in rows[1:]:
            body.append([opt(r[0], NOID), BLANK if r[1] is None else observe._num(r[1]), r[2], list(r[3:3 + n]),
                         [x for x in (r[3 + n] or '').split(', ') if x]])
        return {'hdr': list(rows[0]), 'rows': body}

    def op_r_link(self, ev, f):
        l = self.sp.get_link(self.ref(ev, f), ev['nm'] or None)
        return [l.other_unique_id, l.name]

    def _q_rows(self, rows):
        hdr, body = list(rows[0]), [list(r) for r in rows[1:]]
        return {'hdr': hdr, 'rows': [['' if v is None else v for v in r[:-1]] + [observe._num(r[-1])] for r in body]}

    def op_r_info(self, ev, f):
        if self.mode in ('rw', 'ro'):
            born = observe.born(self.file)
        else:
            path = os.path.join(self.dir, 'born.toron')
            hint = self.sp.path_hint
            self.sp.to_file(path, fsync=False)
            if not hint:
                self.sp._path_hint = None
            born = observe.born(path)
            os.unlink(path)
        self.first = getattr(self, 'first', born)
        return dict(observe.parse_info(repr(self.sp)), stored=[self.first, born])

    def op_r_q(self, ev, f):
        return self._q_rows(self.listing(f, self.sp.select_quantities))

    def op_r_q2(self, ev, f):
        return self._q_rows(self.listing(f, self.sp.select_quantities2))

    def op_r_qwi(self, ev, f):
        return self._q_rows(self.listing(f, self.sp.select_quantities_without_index))

    def op_r_unm(self, ev, f):
        return self._q_rows(self.listing(f, self.sp.select_unmatched_quantities))
