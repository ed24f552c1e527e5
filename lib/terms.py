"""Value domain: affine terms over opaque (value-numbered) atoms, aggregates, references.

A value is a plain tuple whose first element is its kind:
  ('lin', ((atom, coef), ...), const)   affine integer (constants have no atoms)
  ('agg', type, variant, (v, ...))      struct / enum variant / tuple / array / closure
  ('rep', v, n)                         array of n equal elements
  ('ref', root, path)                   reference to a location
  ('slice', base, start, len)           reference to a sub-range of a sequence; base is a ref or a value
  ('upd', base, ((comp, v), ...))       opaque base with known components
  ('fn', id)                            function item
  anything else                         opaque term (value-numbered)
"""


def lin(c=0, atoms=()):
    return ('lin', tuple(atoms), c)


ZERO = lin(0)
ONE = lin(1)


def const(n):
    return ('lin', (), int(n))


def is_const(v):
    return v[0] == 'lin' and not v[1]


def cval(v):
    return v[2]


def as_lin(v):
    if v[0] == 'lin':
        return v
    return ('lin', ((v, 1),), 0)


def from_lin(v):
    """single atom with coefficient one and no constant -> the atom itself"""
    if v[0] == 'lin' and v[2] == 0 and len(v[1]) == 1 and v[1][0][1] == 1:
        return v[1][0][0]
    return v


def _norm(d, c):
    items = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda x: skey(x[0])))
    return ('lin', items, c)


_SK = {}


def skey(t):
    r = _SK.get(t)
    if r is None:
        r = repr(t)
        _SK[t] = r
    return r


def add(a, b, m=1):
    a = as_lin(a)
    b = as_lin(b)
    if not b[1]:
        return ('lin', a[1], a[2] + m * b[2])
    d = dict(a[1])
    for t, k in b[1]:
        d[t] = d.get(t, 0) + m * k
    return _norm(d, a[2] + m * b[2])


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    a = as_lin(a)
    if k == 0:
        return ZERO
    return ('lin', tuple((t, c * k) for t, c in a[1]), a[2] * k)


def mul(a, b):
    if is_const(a):
        return scale(b, cval(a))
    if is_const(b):
        return scale(a, cval(b))
    x, y = sorted([from_lin(a), from_lin(b)], key=skey)
    return as_lin(('app', 'mul', x, y))


def atoms_of(v, out=None):
    """all opaque sub-terms of a value"""
    if out is None:
        out = set()
    if not isinstance(v, tuple) or not v:
        return out
    out.add(v)
    for x in v:
        if isinstance(x, tuple):
            atoms_of(x, out)
    return out


def mentions(v, pred):
    if not isinstance(v, tuple) or not v:
        return False
    if isinstance(v[0], str) and pred(v):
        return True
    for x in v:
        if isinstance(x, tuple) and mentions(x, pred):
            return True
    return False


def subst_lin(v, atom, repl):
    """replace atom by affine repl in an affine value"""
    v = as_lin(v)
    d = dict(v[1])
    k = d.pop(atom, 0)
    if not k:
        return v
    return add(_norm(d, v[2]), scale(repl, k))


def show(v, depth=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if depth > 6:
        return '…'
    k = v[0]
    if k == 'lin':
        parts = []
        for a, c in v[1]:
            s = show(a, depth + 1)
            parts.append(s if c == 1 else f'{c}*{s}')
        if v[2] or not parts:
            parts.append(str(v[2]))
        return '+'.join(parts)
    if k == 'agg':
        t = v[1].split('<')[0].split('::')[-1] if isinstance(v[1], str) else ''
        return f"{t}#{v[2]}({', '.join(show(x, depth+1) for x in v[3])})"
    if k == 'ref':
        return '&' + show_loc(v[1], v[2])
    if k == 'slice':
        return f'{show(v[1], depth+1)}[{show(v[2], depth+1)};+{show(v[3], depth+1)}]'
    if k == 'sym':
        return v[1]
    if k == 'app':
        return f"{str(v[1]).split('::')[-1]}({', '.join(show(x, depth+1) for x in v[2:])})"
    if k == 'fld':
        return f'{show(v[1], depth+1)}.{v[2]}.{v[3]}'
    if k == 'ev':
        return f'ev<{v[-1]}>'
    return '(' + ' '.join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in v) + ')'


def show_loc(root, path):
    r = '.'.join(str(x) for x in root) if not any(isinstance(x, tuple) for x in root) else show(root)
    return r + ''.join('.' + '.'.join(show(y) if isinstance(y, tuple) else str(y) for y in c) for c in path)
