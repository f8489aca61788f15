"""Random selector expressions: the tree of spec/Base.tla and a text for it."""
import string

OPS = ['=', '=', '=', '~=', '|=', '^=', '$=', '*=']
IDENT_OK = set(string.ascii_letters + string.digits + '_-')


def is_ident(v):
    """Whether v may be written without quotes."""
    if not v or any(not (c in IDENT_OK or '\u00a0' <= c <= '\uffff') for c in v):
        return False
    rest = v[1:] if v[0] == '-' else v
    return v == '-' or (rest != '' and rest[0] not in string.digits + '-')


def quote(v, q):
    return q + v.replace(q, '\\' + q) + q


class SelGen:
    """attrs: names to use; vals: values to build tests from."""
    def __init__(self, r, attrs, vals):
        self.r, self.attrs, self.vals = r, list(attrs), list(vals)

    def value(self, op):
        while True:     # (a text ending in a backslash cannot be written)
            v = self._value(op)
            if not v.endswith('\\') and '\\"' not in v and "\\'" not in v:
                return v

    def _value(self, op):
        v = self.r.choice(self.vals)
        k = self.r.random()
        if op in ('^=', '*=', '$=') and len(v) > 1 and k < 0.6:
            a = self.r.randrange(len(v))
            b = self.r.randrange(a, len(v)) + 1
            v = v[:b] if op == '^=' else v[a:] if op == '$=' else v[a:b]
        elif op == '~=' and k < 0.7:
            v = self.r.choice(v.split() or ['x'])
        elif op == '|=' and '-' in v[1:] and k < 0.7:
            v = v[:v.index('-', 1)]
        if self.r.random() < 0.15:
            v = v.swapcase()
        return v

    def simple(self):
        a = self.r.choice(self.attrs)
        if self.r.random() < 0.3:
            return ['s', a, '', '', '']
        op = self.r.choice(OPS)
        v = self.value(op)
        ic = 'i' if v.isascii() and self.r.random() < 0.25 else ''
        return ['s', a, op, v, ic]

    def tree(self, depth=2):
        k = self.r.random()
        if depth == 0 or k < 0.5:
            return self.simple()
        kind = self.r.choice(['c', 'c', 'is', 'not', 'where'])
        n = self.r.choice([1, 2, 2, 3])
        kids = [self.tree(depth - 1) for _ in range(max(n, 2) if kind == 'c' else n)]
        if kind != 'c':
            # the grammar allows no sequence inside a group's alternatives
            kids = [x if x[0] != 'c' else self.simple() for x in kids]
        return [kind, kids]

    def text(self, t):
        """A text whose meaning is t (spelling chosen at random)."""
        sp = lambda: ' ' * (self.r.random() < 0.15)
        if t[0] == 's':
            _, a, op, v, ic = t
            if not op:
                return f'[{sp()}{a}{sp()}]'
            forms = [quote(v, '"')]
            if '\\' not in v:
                forms.append(quote(v, "'"))
            if is_ident(v):
                forms.append(v)
            body = self.r.choice(forms)
            if ic:
                body += ' ' + self.r.choice('iI')
            return f'[{a}{sp()}{op}{sp()}{body}]'
        if t[0] == 'c':
            return sp().join(self.text(x) for x in t[1])
        return f':{t[0]}({("," + sp()).join(self.text(x) for x in t[1])})'
