"""Calls of stateless functions, recorded for spec/Trace_Calls.tla."""
import itertools
import random

import common
from selgen import SelGen
from toron._utils import quantize_values
from toron.selectors import parse_selector, get_greatest_unique_specificity, GetMatchingKey

ATTRS = ['a', 'b', 'c-d', '_e', 'né']
VALS = ['x', 'xy', 'x-y', 'y x', 'X', "O'N", 'q"t', 'é', '1', '-', 'a b c', 'back\\slash']
ROWVALS = VALS + ['x\ty', 'a\nx', 'c\t \ra']
BADSEL = ['', '   ', '[a', 'a]', '[a=]', '[=x]', '[a="x]', "[a='x\"]", '[a=x y]', '[a==x]', '[a!=x]', ':is()', ':not()', ':isnt([a])',
          ':is([a]', '[a i]', '[a="x" j]', '[1a]', '[a=1x]', '[a b]', '[a],[b]', '[a];', 'a', '*', '[a="x"i i]', '[]',
          ':is([a][b])', '[--a]', '[a=--x]', "[a~'x']", ':where [a]', '[a=""]', "[a='']"]


def quant(r, ids=None, den=64):
    n = r.choice([1, 2, 2, 3, 4, 5, 8])
    ids = r.sample(range(64), n)
    top = r.choice([den, 3 * den, 20 * den])
    sizes = [r.randrange(top) for _ in ids]
    if r.random() < 0.5:     # many ties
        few = [r.randrange(top) for _ in range(2)]
        sizes = [r.choice(few) + den * r.randrange(3) for _ in ids]
    if r.random() < 0.5:     # a whole total
        sizes[0] += -sum(sizes) % den
    if r.random() < 0.3:
        sizes = [-s for s in sizes]
    return [[i, s] for i, s in zip(ids, sizes)]


FINE = 2.0 ** -36


def fines(r, parts):
    """Second digits for parts: remainders that differ by very little."""
    few = [r.randrange(8) for _ in range(3)]
    return [[i, r.choice(few)] if s else [i, 0] for i, s in parts]


def run_quant(parts, den, order, fine=()):
    ev = {'op': 'quant', 'den': den, 'parts': sorted(parts), 'order': order, 'fine': sorted(fine), 'outfine': []}
    try:
        tiny = dict(map(tuple, fine))
        neg = any(s < 0 for _, s in parts)
        small = {i: FINE * (-tiny.get(i, 0) if neg else tiny.get(i, 0)) for i, _ in parts}
        items = [parts[k] for k in order]
        total = sum(s for _, s in parts) / den + sum(small.values())
        out = list(quantize_values(iter([(i, s / den + small[i]) for i, s in items]), total))
        ev['out'] = []
        for i, v in sorted(out):
            # nearest first digit below, and what is left over of it
            whole = int(abs(v) * den)
            rest = (abs(v) * den - whole) / den / FINE
            if rest != int(rest) or (v and (v < 0) != neg):
                whole, rest = 999999, 0
            ev['out'].append([i, -whole if v < 0 else whole])
            ev['outfine'].append([i, int(rest)])
        ev['res'] = 'ok'
    except Exception as err:
        ev.update(res='err', out=[], outfine=[], why=str(err))
    return ev


def rows(r, count, attrs=ATTRS, vals=ROWVALS):
    out = []
    for _ in range(count):
        row = [[a, r.choice(vals)] for a in attrs if r.random() < 0.6]
        if r.random() < 0.2:
            row = [[a, v if r.random() < 0.7 else ''] for a, v in row]
        if r.random() < 0.2:
            row = [[a, v.swapcase()] for a, v in row]
        out.append(row)
    return out


def run_sel(ast, text, rws):
    ev = {'op': 'sel', 'ast': ast, 'text': text, 'rows': rws, 'got': [], 'got2': [], 'spec': [0, 0], 'again': ''}
    try:
        obj = parse_selector(text)
        ev['got'] = [bool(obj(dict(map(tuple, x)))) for x in rws]
        ev['spec'] = list(obj.specificity)
        ev['res'] = 'ok'
    except Exception as err:
        ev.update(res='err', why=str(err)[:100])
        return ev
    try:
        again = parse_selector(str(obj))
        same = again == obj and hash(again) == hash(obj) and obj == again and again.specificity == obj.specificity
        ev['again'] = 'ok' if same else 'different'
        ev['got2'] = [bool(again(dict(map(tuple, x)))) for x in rws]
    except Exception as err:
        ev['again'] = 'err'
        ev['got2'] = ev['got']
    return ev


def run_choose(cands, texts, default, rws, how):
    ev = {'op': 'choose', 'cands': cands, 'texts': texts, 'default': default, 'rows': rws, 'got': [], 'how': how}
    try:
        sels = {c[0]: [parse_selector(x) for x in tx] for c, tx in zip(cands, texts)}
        if how == 'func':
            ask = lambda row: get_greatest_unique_specificity(row, sels, default)
        else:
            ask = GetMatchingKey(sels, default)
        ev['got'] = [ask(dict(map(tuple, x))) for x in rws]
        ev['res'] = 'ok'
    except Exception as err:
        ev.update(res='err', why=str(err)[:100])
    return ev


def run_bad(text):
    ev = {'op': 'badsel', 'text': text}
    try:
        parse_selector(text)
        ev['res'] = 'ok'
    except Exception:
        ev['res'] = 'err'
    return ev


def run_same(r, g):
    a = g.tree(2)
    if r.random() < 0.6 and a[0] != 's':
        kids = list(a[1])
        r.shuffle(kids)
        b = [a[0], kids]
    else:
        b = g.tree(2)
    ta, tb = g.text(a), g.text(b)
    return same_event(a, b, [ta, tb], rows(r, 12))


def same_event(a, b, texts, rws):
    x, y = map(parse_selector, texts)
    return {'op': 'same', 'a': a, 'b': b, 'texts': texts, 'eq': x == y, 'hash': hash(x) == hash(y), 'rows': rws}


def record_quant(seed, count=40):
    r = random.Random(seed)
    evs = []
    for _ in range(count):
        den = r.choice([1, 2, 4, 64])
        parts = quant(r, den=den)
        fine = fines(r, parts) if r.random() < 0.4 else []
        for _ in range(r.choice([1, 2, 3])):
            order = list(range(len(parts)))
            r.shuffle(order)
            evs.append(run_quant(parts, den, order, fine))
    return {'seed': seed, 'kind': 'calls', 'evs': evs}


def record_sel(seed, count=40):
    r = random.Random(seed)
    g = SelGen(r, ATTRS, VALS)
    evs = []
    for _ in range(count):
        k = r.random()
        if k < 0.55:
            t = g.tree(3)
            evs.append(run_sel(t, g.text(t), rows(r, 10)))
        elif k < 0.9:
            g2 = SelGen(r, ATTRS[:2], VALS[:5])
            cands = [[j, [g2.tree(2) for _ in range(r.choice([0, 1, 1, 2]))]] for j in range(1, r.choice([2, 3, 4]) + 1)]
            texts = [[g2.text(t) for t in c[1]] for c in cands]
            evs.append(run_choose(cands, texts, r.choice([0, 1, 99]), rows(r, 12, ATTRS[:2], VALS[:5]), r.choice(['func', 'obj'])))
        elif k < 0.95:
            evs.append(run_same(r, g))
        else:
            evs.append(run_bad(r.choice(BADSEL)))
    return {'seed': seed, 'kind': 'calls', 'evs': evs}


# -- the questions of spec/MC_Quant.tla and spec/MC_Select.tla -----------------
def record_quant_cases(cases):
    evs = []
    for c in cases:
        n = len(c['p'])
        for order in itertools.permutations(range(n)):
            evs.append(run_quant(sorted(c['p']), c['den'], list(order)))
    return {'kind': 'calls', 'evs': evs}


MODEL_VALS = ['', 'x', 'xy', 'x-y', 'y x', 'X']
MODEL_ROWS = [[['a', v], ['b', w]] for v in MODEL_VALS for w in ('', 'x')] + [[], [['b', 'x']]]


def record_select_cases(cases):
    evs = []
    g = SelGen(random.Random(len(cases)), ['a'], ['x'])
    for c in cases:
        if c['kind'] == 'sel':
            evs.append(run_sel(c['sel'], g.text(c['sel']), MODEL_ROWS))
        else:
            texts = [[g.text(t) for t in x[1]] for x in c['cands']]
            for how in ('func', 'obj'):
                evs.append(run_choose(c['cands'], texts, 0, MODEL_ROWS, how))
    return {'kind': 'calls', 'evs': evs}


def owners(op, clause):
    return {'C20'} if op == 'quant' else {'C11', 'C02', 'C03'} if op == 'choose' else {'C11'}


def replay_event(ev):
    if ev['op'] == 'quant':
        return run_quant(ev['parts'], ev['den'], ev['order'], ev.get('fine', ()))
    if ev['op'] == 'sel':
        return run_sel(ev['ast'], ev['text'], ev['rows'])
    if ev['op'] == 'choose':
        return run_choose(ev['cands'], ev['texts'], ev['default'], ev['rows'], ev['how'])
    if ev['op'] == 'same':
        return same_event(ev['a'], ev['b'], ev['texts'], ev['rows'])
    return run_bad(ev['text'])


def replay(doc):
    import engines
    tr = {'kind': 'calls', 'evs': [replay_event(ev) for ev in doc['trace']['evs'][-1:]]}
    fails, _, _ = engines.validate([tr], 'Trace_Calls')
    print(tr['evs'][0])
    for f in fails:
        print('differs:', f['bad'])
    return 1 if fails else 0
