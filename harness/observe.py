"""Reads the complete logical content of a space file with plain sqlite3.

The result is the state of spec/DataSpace.tla in JSON form (sets as sorted
lists), independent of the code under test.
"""
import datetime
import json
import math
import os
import re
import sqlite3
import time

from common import SCALE, ids_hash

NONINT = -7777777

os.environ['TZ'] = 'XXT-5:30'      # summaries show local time
time.tzset()


UNIT = 1.0      # one unit of stored weights and mapping values, in this process's current trace
QUNIT = 1.0     # ... and of quantities


UNITS = [2.0 ** -40, 2.0 ** -20, 0.5, 2.0 ** 33]     # sizes are kept exactly, whatever their scale


class unit:
    """Within this context, values are multiples of these units."""
    def __init__(self, value, qvalue=None):
        self.values = value, (qvalue or value)

    def __enter__(self):
        global UNIT, QUNIT
        UNIT, QUNIT = self.values

    def __exit__(self, *_):
        global UNIT, QUNIT
        UNIT = QUNIT = 1.0


def _num(v, unit=None):
    if v is None or isinstance(v, (str, bytes)):
        return NONINT - 1
    f = float(v) / (unit or UNIT)
    if math.isnan(f) or math.isinf(f):
        return NONINT - 2
    if f == int(f) and abs(f) < 2**31:
        return int(f)
    return NONINT


def _fix(v, scale):
    if v is None:
        return -1
    f = float(v)
    if math.isnan(f) or math.isinf(f):
        return NONINT
    return int(round(f * scale))


def _sels(text):
    return [] if text is None else list(json.loads(text))


def _bits(blob, n):
    bits = []
    for byte in (blob or b''):
        bits.extend((byte >> k) & 1 for k in range(7, -1, -1))
    while len(bits) > n and bits[-1] == 0:
        bits.pop()
    return bits + [0] * (n - len(bits))


class HashMemo:
    """Recognises index fingerprints of id sets met so far."""
    def __init__(self):
        self.known = {}

    def learn(self, ids):
        ids = sorted(ids)
        self.known[ids_hash(ids)] = ids

    def decode(self, digest):
        if digest is None:
            return [-2]
        return self.known.get(digest, [-1])


def canon(rows):
    return sorted(rows, key=lambda r: json.dumps(r, sort_keys=True))


def read_state(path, memo):
    con = sqlite3.connect(path)
    try:
        con.text_factory = lambda b: b.decode('utf-8', 'surrogatepass')
        return _read(con, memo)
    finally:
        con.close()


def _read(con, memo):
    q = lambda sql: con.execute(sql).fetchall()
    prop = {k: (None if v is None else json.loads(v)) for k, v in q('select key, value from property')}
    cols = [r[1] for r in q("pragma table_info('label_index')")][1:]
    locc = [r[1] for r in q("pragma table_info('label_location')")][1:]
    stc = [r[1] for r in q("pragma table_info('label_structure')")][2:]
    n = len(cols)
    dup = []

    def uniq(name, rows):
        rows = canon(rows)
        if any(a == b for a, b in zip(rows, rows[1:])):
            dup.append(name)
            rows = [r for k, r in enumerate(rows) if k == 0 or rows[k - 1] != r]
        return rows

    if locc != cols:
        dup.append('location columns')
    if stc != cols:
        dup.append('structure columns')
    s = {}
    s['dom'] = prop.get('domain', '')
    s['cols'] = cols
    disp = list(prop.get('label_display_order') or [])
    s['disp'] = disp + [c for c in cols if c not in disp]
    s['attrs'] = list(prop.get('registered_attributes') or [])
    index = q('select * from label_index')
    s['idx'] = uniq('idx', [[r[0], list(r[1:])] for r in index])
    ids = [r[0] for r in index]
    memo.learn(ids)
    groups = {r[0]: r for r in q('select weight_group_id, name, description, selectors, is_complete from weight_group')}
    gname = lambda k: groups[k][1] if k in groups else '#orphan'
    s['grp'] = uniq('grp', [[g[1], g[2] or '', _sels(g[3]), bool(g[4])] for g in groups.values()])
    d = prop.get('default_weight_group_id')
    s['dflt'] = '' if d is None else gname(d)
    s['wt'] = uniq('wt', [[gname(a), b, _num(c)] for a, b, c in q('select weight_group_id, index_id, weight_value from weight')])
    maps = q('select link_id, other_index_id, index_id, mapping_level, mapping_value, proportion from mapping')
    others = {}
    for m in maps:
        others.setdefault(m[0], {0}).add(m[1])
    links = {r[0]: r for r in q('select link_id, other_unique_id, other_filename_hint, name, description, selectors, '
                                'is_default, other_index_hash, is_locally_complete from link')}
    for k in links:
        memo.learn(others.get(k, {0}))
    lid = lambda k: [links[k][1], links[k][3]] if k in links else ['#orphan', '#orphan']
    s['lnk'] = uniq('lnk', [[l[1], l[3], l[2] or '', l[4] or '', _sels(l[5]), bool(l[6]), bool(l[8]), memo.decode(l[7])]
                            for l in links.values()])
    s['map'] = uniq('map', [lid(m[0]) + [m[1], m[2], _bits(m[3], n), _num(m[4]), _fix(m[5], SCALE)] for m in maps])
    s['ih'] = memo.decode(prop.get('index_hash'))
    pd = prop.get('partition_definitions') or []
    s['pd'] = uniq('pd', [[1 if c in x else 0 for c in cols] + ([2] if set(x) - set(cols) else []) for x in pd])
    s['st'] = uniq('st', [[list(r[1:]), _fix(r[0], 1000000)] for r in
                          q('select _granularity' + ''.join(f', "{c}"' for c in [x.replace('"', '""') for x in stc]) +
                            ' from label_structure')])
    locs = {r[0]: list(r[1:]) for r in q('select * from label_location')}
    s['loc'] = uniq('loc', list(locs.values()))
    ags = {r[0]: sorted([k, v] for k, v in json.loads(r[1]).items())
           for r in q('select attribute_group_id, attributes from attribute_group')}
    s['ag'] = uniq('ag', list(ags.values()))
    s['qty'] = uniq('qty', [[locs.get(a, ['#orphan']), ags.get(b, [['#orphan', '']]), _num(c, QUNIT)]
                            for a, b, c in q('select _location_id, attribute_group_id, quantity_value from quantity')])
    s['dup'] = sorted(dup)
    return s


COMPONENTS = ('dom', 'cols', 'disp', 'attrs', 'idx', 'ih', 'grp', 'dflt', 'wt', 'lnk', 'map',
              'pd', 'st', 'loc', 'ag', 'qty', 'dup')


def delta(old, new):
    return {k: new[k] for k in COMPONENTS if old is None or old[k] != new[k]}


INFO = ('domain:', 'partitions:', 'weights:', 'attributes:', 'incoming links:', 'created:')
_NOTE = r'(?: \((default, locally incomplete|default, incomplete|default|locally incomplete|incomplete)\))?'


def _noted(text):
    """[[name, default?, incomplete?]] of a printed list."""
    if text == 'None':
        return []
    out = []
    for m in re.finditer(r'(.+?)' + _NOTE + r'(?:, |$)', text):
        note = m.group(2) or ''
        out.append([m.group(1), note.startswith('default'), note.endswith('incomplete')])
    return out


def born(path):
    """When the space in a file was made, in UTC."""
    con = sqlite3.connect(path)
    try:
        row = con.execute("select value from property where key='created_date'").fetchone()
        return datetime.datetime.fromisoformat(json.loads(row[0])).astimezone(datetime.timezone.utc).strftime('%Y-%m-%d %H:%M:%S')
    finally:
        con.close()


def parse_info(text):
    """The printed summary of a space as data."""
    sect, cur = {}, None
    for line in text.split('\n'):
        if line in INFO:
            cur = line
            sect[cur] = []
        elif cur:
            sect[cur].append(line[2:] if line.startswith('  ') else '?' + line)
    one = lambda k: sect[k][0]
    parts = []
    for line in sect['partitions:']:
        m = re.match(r' *(-?[0-9.]+|None)  (.*)$', line)
        if m:
            parts.append([-1 if m.group(1) == 'None' else int(round(float(m.group(1)) * 1000000)), m.group(2).split(', ')])
        elif line != 'None':
            parts.append([-5, [line]])
    links = []
    for line in sect['incoming links:']:
        if line != 'None':
            ref, _, rest = line.partition(': ')
            links.append([ref, _noted(rest)])
    stamp = one('created:').rsplit(' ', 1)[0]
    born = datetime.datetime.strptime(stamp, '%Y-%m-%d %I:%M:%S %p').astimezone(datetime.timezone.utc)
    return {'born': born.strftime('%Y-%m-%d %H:%M:%S'), 'dom': one('domain:'), 'parts': parts, 'wts': _noted(one('weights:')),
            'attrs': one('attributes:').split(', '), 'lnks': links}
