"""Abstract interpreter over the MIR facts dumped by mirdump.

Forward dataflow with call-site inlining over the type-checked, monomorphised MIR.
Values are affine/value-numbered terms (terms.py).  States are partitioned by branch
facts and by the event trace (property simulation); states that agree on both are
joined.  Loops are solved as fixpoints: a location changed by the loop body is widened
to an induction variable (entry + step*k) when every back edge changes it by the same
constant, and to an opaque loop value otherwise.  Nothing is executed, no path is
handed to a solver.
"""
import json
import re
from fractions import Fraction
import terms as T
from terms import lin, const, ZERO, ONE, is_const, cval, as_lin, from_lin, add, sub, scale, mul, show

MAXP = 160         # partitions kept per program point before joining
MAXDEPTH = 60


def norm_def(d):
    return re.sub(r'\b(core|alloc)::', 'std::', d).replace('deku::bitvec::', 'bitvec::')


class Facts:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.fns = d['fns']
        for i, f in enumerate(self.fns):
            f['id'] = i
            f['def0'] = f['def']
            f['def'] = norm_def(f['def'])
            if f.get('trait'):
                f['trait'] = norm_def(f['trait'])
        self.types = d['types']
        self.roots = dict((n, i) for n, i in d['roots'])

    def ty(self, s):
        return self.types.get(s) or {'k': 'other'}


class Undecided(Exception):
    pass


class State:
    __slots__ = ('env', 'facts', 'eqs', 'trace', 'dead')

    def __init__(self, env=None, facts=None, eqs=(), trace=()):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.eqs = eqs
        self.trace = trace

    def copy(self):
        return State(dict(self.env), dict(self.facts), self.eqs, self.trace)

    # ---- affine facts -------------------------------------------------
    def add_eq(self, l):
        """record l == 0; False when contradictory"""
        r = self.reduce(l, True)
        if is_const(r):
            return cval(r) == 0
        gg = 0
        for _, k in r[1]:
            gg = _gcd(gg, abs(k))
        if gg > 1:
            if r[2] % gg:
                return False
            r = T._norm({a: k // gg for a, k in r[1]}, r[2] // gg)
        self.eqs = self.eqs + (r,)
        return True

    def reduce(self, l, scaled=False):
        """normal form of an affine term modulo the recorded equalities"""
        l = as_lin(l)
        if not self.eqs:
            return l
        for e in self.eqs:
            if not e[1]:
                continue
            p, k = pivot(e)
            c = 0
            for a, x in l[1]:
                if a == p:
                    c = x
            if c:
                if c % k:
                    if not scaled:
                        continue
                    l = scale(l, abs(k))
                    c *= abs(k)
                l = add(l, scale(e, -(c // k)))
        return l

    def is_zero(self, l):
        r = self.reduce(l, True)
        return is_const(r) and cval(r) == 0

    def emit(self, ev):
        self.trace = self.trace + (ev,)


_PIV = {}


def pivot(e):
    """the atom an equality is solved for: a unit coefficient if there is one, and the most derived value"""
    r = _PIV.get(e)
    if r is None:
        def rank(ak):
            a, k = ak
            c = 2 if a[0] in ('join', 'phi') else 1
            if "('g', '" in T.skey(a):
                c = 0
            return (abs(k) == 1, c, T.skey(a))
        r = _PIV[e] = max(e[1], key=rank)
    return r


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


# ---- boolean terms ----------------------------------------------------------
def b_not(v):
    if is_const(v):
        return const(0 if cval(v) else 1)
    if v[0] == 'not':
        return v[1]
    return ('not', v)


def canon_lt(l):
    """term for l < 0 (integers)"""
    l = as_lin(l)
    if is_const(l):
        return const(1 if cval(l) < 0 else 0)
    if l[1][0][1] < 0:
        # l < 0  <=>  not (-l - 1 < 0)
        n = sub(scale(l, -1), ONE)
        return ('not', ('lt', n))
    return ('lt', l)


def canon_eq(l):
    l = as_lin(l)
    if is_const(l):
        return const(1 if cval(l) == 0 else 0)
    if l[1][0][1] < 0:
        l = scale(l, -1)
    return ('eq0', l)


class Engine:
    def __init__(self, facts, handlers=None, opts=None):
        self.F = facts
        self.fns = facts.fns
        self.cfg = {}
        self.extra = handlers or []
        self.obl = {}
        self.dom = {}
        self.panics = {}
        self.allocs = []
        self.sitetab = []
        self.siteids = {}
        self.opts = opts or {}
        self.uninlined = {}
        self.visited = {}     # fn id -> set of blocks analysed
        self.sites = 0
        import stdmodel
        self.std = stdmodel.TABLE
        self.stdre = stdmodel.REGEX
        self.nonneg_hint = set()
        self.nonneg_atoms = set()       # atoms seen as a whole unsigned operand

    # ---- CFG ----------------------------------------------------------------
    def cfg_of(self, fn):
        c = self.cfg.get(fn['id'])
        if c is None:
            c = Cfg(fn)
            self.cfg[fn['id']] = c
        return c

    # ---- memory --------------------------------------------------------------
    def default_root(self, root):
        if root == 'ret':
            return ('uninit', root)
        if root[0] == 'm':
            return ('deref', root[1]) if isinstance(root[1], tuple) else ('sym', '*' + root[1])
        if root[0] == 'l':
            return ('uninit', root)
        if root[0] == 'g':
            return ZERO
        return ('deref', root)

    def load(self, st, root, path):
        if root[0] == 'val':
            v = root[1]
        else:
            v = st.env.get(root)
            if v is None:
                v = self.default_root(root)
        for c in path:
            v = self.proj(st, v, c)
        return v

    def proj(self, st, v, c):
        k = v[0]
        if c[0] == 'f':
            if k == 'agg':
                if v[2] == c[1] or c[1] is None or v[1] == '':
                    if c[2] < len(v[3]):
                        return v[3][c[2]]
                if c[2] < len(v[3]) and c[1] in (None, 0):
                    return v[3][c[2]]
                return ('fld', v, c[1], c[2])
            if k == 'upd':
                for cc, x in v[2]:
                    if cc == c:
                        return x
                return self.proj(st, v[1], c)
            if k == 'join2':
                pass
            return ('fld', v, c[1], c[2])
        if c[0] == 'x':
            i = c[1]
            if k == 'agg' and is_const(i) and 0 <= cval(i) < len(v[3]):
                return v[3][cval(i)]
            if k == 'rep':
                return v[1]
            if k == 'upd':
                for cc, x in v[2]:
                    if cc == c:
                        return x
                if all(cc[0] == 'x' and is_const(cc[1]) for cc, _ in v[2]) and is_const(i):
                    return self.proj(st, v[1], c)
            return ('idx', v, i)
        if c[0] == 'whole':
            return v
        return ('prj', v, c)

    def store(self, st, root, path, val):
        if root[0] == 'val':
            return
        if not path:
            st.env[root] = val
            return
        base = st.env.get(root)
        if base is None:
            base = self.default_root(root)
        st.env[root] = self._upd(st, base, path, val)

    def _upd(self, st, v, path, val):
        if not path:
            return val
        c = path[0]
        old = self.proj(st, v, c)
        new = self._upd(st, old, path[1:], val)
        k = v[0]
        if c[0] == 'f' and k == 'agg' and c[2] < len(v[3]):
            fs = list(v[3])
            fs[c[2]] = new
            return ('agg', v[1], v[2], tuple(fs))
        if c[0] == 'x' and k == 'agg' and is_const(c[1]) and 0 <= cval(c[1]) < len(v[3]):
            fs = list(v[3])
            fs[cval(c[1])] = new
            return ('agg', v[1], v[2], tuple(fs))
        if k == 'upd':
            rest = tuple((cc, x) for cc, x in v[2] if cc != c)
            return ('upd', v[1], tuple(sorted(rest + ((c, new),), key=T.skey)))
        return ('upd', v, ((c, new),))

    def place_loc(self, st, fr, pl):
        root = ('l', fr, pl[0])
        path = ()
        var = None
        for p in pl[1]:
            if p == '*':
                v = self.load(st, root, path)
                root, path = self.deref_loc(v)
                var = None
            elif p[0] == 'f':
                path = path + (('f', var, p[1]),)
                var = None
            elif p[0] == 'd':
                var = p[1]
            elif p[0] == 'i':
                iv = self.load(st, ('l', fr, p[1]), ())
                root, path = self.index_loc(root, path, iv)
            elif p[0] == 'ci':
                if p[2]:
                    path = path + (('xe', p[1]),)
                else:
                    root, path = self.index_loc(root, path, const(p[1]))
            elif p[0] == 'ss':
                path = path + (('ss', p[1], p[2], p[3]),)
            else:
                path = path + (('o',),)
        return root, path

    def index_loc(self, root, path, iv):
        if path and path[-1][0] == 'sub':
            s = path[-1]
            return root, path[:-1] + (('x', from_lin_c(add(s[1], iv))),)
        return root, path + (('x', from_lin_c(iv)),)

    def deref_loc(self, v):
        if v[0] == 'ref':
            return v[1], v[2]
        if v[0] == 'slice':
            b = v[1]
            if b[0] == 'ref':
                if v[2] == ZERO:
                    return b[1], b[2] + (('sub', v[2], v[3]),) if False else b[2]
                return b[1], b[2] + (('sub', v[2], v[3]),)
            return ('val', v), ()
        if v[0] == 'box':
            return v[1], ()
        return ('m', v), ()

    def rd(self, st, v):
        """value behind a reference value"""
        r, p = self.deref_loc(v)
        return self.load(st, r, p)

    def wr(self, st, v, val):
        r, p = self.deref_loc(v)
        self.store(st, r, p, val)

    # ---- operands --------------------------------------------------------------
    def konst(self, k):
        kk = k['k']
        if kk == 'int':
            return const(k['v'])
        if kk == 'fn':
            if k['id'] is not None:
                return ('fn', k['id'])
            return ('fnx', k['def'])
        if kk == 'bytes':
            return ('bytes', tuple(k['v']), bool(k['str']))
        if kk == 'agg':
            ty = k['ty']
            t = self.F.ty(ty)
            fs = tuple(self.konst(x) for x in k['f'])
            if t['k'] == 'closure':
                return ('agg', ty, 0, fs)
            return ('agg', ty, k['var'], fs)
        if kk == 'ref':
            return ('ref', ('val', self.konst(k['v'])), ())
        if kk == 'opq':
            return ('kopq', k.get('n', ''), k['ty'])
        return ('kopq', json.dumps(k, sort_keys=True), '')

    def operand(self, st, fr, o):
        if o[0] in ('c', 'm'):
            r, p = self.place_loc(st, fr, o[1])
            return self.load(st, r, p)
        if o[0] == 'k':
            return self.konst(o[1])
        if o[0] == 'rc':
            return const(0)
        raise Undecided('operand %r' % (o,))

    def op_ty(self, fn, o):
        """type string of an operand when it is a bare local or constant"""
        if o[0] in ('c', 'm'):
            if not o[1][1]:
                return fn['locals'][o[1][0]]
            t = fn['locals'][o[1][0]]
            var = 0
            for p in o[1][1]:
                ti = self.F.ty(t)
                if p == '*':
                    if ti['k'] in ('ref', 'ptr'):
                        t = ti['t']
                    else:
                        return None
                elif p[0] == 'f':
                    if ti['k'] == 'adt' and var < len(ti['vs']) and p[1] < len(ti['vs'][var]['f']):
                        t = ti['vs'][var]['f'][p[1]][1]
                    elif ti['k'] in ('tuple', 'closure') and p[1] < len(ti['ts']):
                        t = ti['ts'][p[1]]
                    else:
                        return None
                    var = 0
                elif p[0] == 'd':
                    var = p[1]
                elif p[0] in ('i', 'ci'):
                    if ti['k'] in ('array', 'slice'):
                        t = ti['t']
                    else:
                        return None
                else:
                    return None
            return t
        if o[0] == 'k':
            return o[1].get('ty')
        return None

    # ---- rvalues -----------------------------------------------------------------
    def rvalue(self, st, fr, fn, r, where):
        k = r[0]
        if k == 'use':
            v = self.operand(st, fr, r[1])
            if v[0] == 'agg' and not v[3] and self.F.ty(v[1])['k'] == 'adt' and self.F.ty(v[1])['enum'] \
                    and self.F.ty(self.op_ty(fn, r[1]) or '')['k'] in ('uint', 'int'):
                return self.discr_of(v)         # the tag of a primitive-representation enum, read through a pointer
            return v
        if k == 'ref':
            root, path = self.place_loc(st, fr, r[1])
            # reborrow of a slice reference keeps the slice
            pl = r[1]
            if pl[1] and pl[1][-1] == '*':
                v = self.load(st, *self.place_loc(st, fr, [pl[0], pl[1][:-1]]))
                if v[0] not in ('ref', 'box'):
                    return v
            if root[0] == 'm' and not path and isinstance(root[1], tuple) and root[1][0] in ('refv',):
                return root[1]
            if path and path[-1][0] == 'ss':
                s = path[-1]
                base = ('ref', root, path[:-1])
                n = self.seq_len(st, base)
                end = sub(n, const(s[2])) if s[3] else const(s[2])
                return ('slice', base, const(s[1]), sub(end, const(s[1])))
            return ('ref', root, path)
        if k == 'rep':
            return ('rep', self.operand(st, fr, r[1]), r[2])
        if k == 'agg':
            fs = tuple(self.operand(st, fr, o) for o in r[4])
            if r[1] == 'adt':
                return ('agg', r[2], r[3], fs)
            if r[1] == 'closure':
                return ('agg', r[2], r[3], fs)
            if r[1] == 'array':
                return ('agg', 'array', 0, fs)
            if r[1] == 'rawptr':
                return fs[0] if fs else ('agg', '', 0, ())
            return ('agg', '', 0, fs)
        if k == 'discr':
            root, path = self.place_loc(st, fr, r[1])
            v = self.load(st, root, path)
            return self.discr_of(v, self.op_ty(fn, ['c', r[1]]))
        if k == 'bin':
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(r[1], a, b, self.op_ty(fn, r[2]))
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                ty = self.F.ty(self.op_ty(fn, r[2]) or '')
                if ty['k'] == 'bool':
                    return b_not(a)
                if is_const(a) and ty['k'] == 'uint':
                    return const((~cval(a)) & ((1 << ty['b']) - 1))
                return ('app', 'bitnot', a)
            if r[1] == 'Neg':
                return scale(as_lin(a), -1) if a[0] == 'lin' else ('app', 'neg', a)
            if r[1] == 'PtrMetadata':
                return self.seq_len(st, a)
            return ('app', 'un:' + r[1], a)
        if k == 'cast':
            return self.cast(st, fn, r, self.operand(st, fr, r[2]))
        return ('other', where)

    def discr_of(self, v, ty=None):
        if v[0] == 'agg':
            t = self.F.ty(v[1])
            if t['k'] == 'adt' and t['enum']:
                return const(int(t['vs'][v[2]]['d']))
            if t['k'] == 'other' and v[1] in ('Option', 'Result'):
                return const(v[2])
            return const(0)
        if v[0] == 'upd':
            return self.discr_of(v[1], ty)
        if v[0] == 'cmp3':
            return v
        t = self.F.ty(ty or '')
        if t['k'] == 'adt' and t['enum'] and len(t['vs']) == 1:
            return const(int(t['vs'][0]['d']))
        r = ('discr', v)
        if t['k'] == 'adt' and t['enum'] and r not in self.dom:
            self.dom[r] = frozenset(int(x['d']) for x in t['vs'])
        return r

    def narrow(self, s, a):
        """after excluding values of discriminant a: contradiction (None) or the single one left"""
        d = self.dom.get(a)
        if d is None:
            return s
        rest = d - s.facts.get(('isnt', a), frozenset())
        if not rest:
            return None
        if len(rest) == 1:
            s.facts[('is', a)] = next(iter(rest))
        return s

    def cast(self, st, fn, r, v):
        kind, ty = r[1], r[3]
        t = self.F.ty(ty)
        if 'Unsize' in kind:
            srct = self.F.ty(self.op_ty(fn, r[2]) or '')
            if srct['k'] in ('ref', 'ptr'):
                inner = self.F.ty(srct['t'])
                if inner['k'] == 'array' and v[0] != 'slice':
                    return ('slice', v, ZERO, const(inner['n']))
            return v
        if kind.startswith('IntToInt'):
            src = self.F.ty(self.op_ty(fn, r[2]) or '')
            if is_const(v) and t['k'] in ('int', 'uint'):
                x = cval(v) & ((1 << t['b']) - 1)
                if t['k'] == 'int' and x >> (t['b'] - 1):
                    x -= 1 << t['b']
                return const(x)
            if t['k'] in ('int', 'uint'):
                if src['k'] in ('bool', 'char'):
                    return v
                if src['k'] in ('int', 'uint'):
                    if t['b'] >= src['b'] and (src['k'] == t['k'] or (src['k'] == 'uint' and t['b'] > src['b'])):
                        return v
                    if src['k'] == t['k'] and t['b'] == src['b']:
                        return v
                    return ('app', 'cast:%s->%s' % (self.op_ty(fn, r[2]), ty), from_lin(v))
                # discriminant read etc.
                if v[0] in ('discr', 'cmp3'):
                    return v
            return ('app', 'cast:->%s' % ty, from_lin(v))
        if kind.startswith('Transmute') or kind.startswith('PtrToPtr') or kind.startswith('PointerCoercion') \
                or kind.startswith('Subtype'):
            if kind.startswith('Transmute'):
                sty = self.op_ty(fn, r[2])
                if t['k'] not in ('ref', 'ptr') and v[0] not in ('ref', 'slice', 'box') and sty != ty:
                    if t['k'] == 'adt' and self.F.ty(sty or '')['k'] in ('ptr',):
                        return v
                    return ('app', 'transmute:%s' % ty, from_lin(v))
            return v
        return ('app', 'cast:' + kind + ':' + ty, v)

    def binop(self, op, a, b, ty):
        t = self.F.ty(ty or '')
        if t['k'] == 'uint' and op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne', 'Rem', 'Div'):
            for x in (a, b):
                x = from_lin(x)
                if x[0] != 'lin':
                    self.nonneg_atoms.add(x)
        if op in ('Add', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            return mul(a, b)
        if op == 'AddWithOverflow':
            return ('agg', '', 0, (add(a, b), ('ovf', 'add', from_lin(a), from_lin(b), ty)))
        if op == 'SubWithOverflow':
            return ('agg', '', 0, (sub(a, b), ('ovf', 'sub', from_lin(a), from_lin(b), ty)))
        if op == 'MulWithOverflow':
            return ('agg', '', 0, (mul(a, b), ('ovf', 'mul', from_lin(a), from_lin(b), ty)))
        if t['k'] in ('int', 'uint', 'bool', 'char') or ty is None or a[0] in ('lin', 'discr', 'cmp3') or b[0] == 'lin':
            if op == 'Eq':
                if t['k'] == 'bool':
                    if is_const(b):
                        return a if cval(b) else b_not(a)
                    if is_const(a):
                        return b if cval(a) else b_not(b)
                return canon_eq(sub(a, b))
            if op == 'Ne':
                if t['k'] == 'bool' and is_const(b):
                    return b_not(a) if cval(b) else a
                return b_not(canon_eq(sub(a, b)))
            if op == 'Lt':
                return canon_lt(sub(a, b))
            if op == 'Ge':
                return b_not(canon_lt(sub(a, b)))
            if op == 'Gt':
                return canon_lt(sub(b, a))
            if op == 'Le':
                return b_not(canon_lt(sub(b, a)))
        if op == 'Cmp':
            return ('cmp3', from_lin(a), from_lin(b))
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                if op == 'Div':
                    return const(int(Fraction(x, y)) if y else 0)
                if op == 'Rem':
                    return const(x - y * int(Fraction(x, y)))
                if op == 'BitAnd':
                    return const(x & y)
                if op == 'BitOr':
                    return const(x | y)
                if op == 'BitXor':
                    return const(x ^ y)
                if op in ('Shl', 'ShlUnchecked'):
                    w = t.get('b', 64)
                    return const((x << (y % w)) & ((1 << w) - 1)) if t['k'] == 'uint' else const(x << y)
                if op in ('Shr', 'ShrUnchecked'):
                    return const(x >> y)
            except (ZeroDivisionError, ValueError):
                pass
        if op == 'Rem' and is_const(b) and cval(b) > 0 and t['k'] != 'int':
            return sub(a, scale(div_term(a, cval(b)), cval(b)))
        if op == 'Div' and is_const(b) and cval(b) > 0 and t['k'] != 'int':
            return div_term(a, cval(b))
        if t['k'] == 'uint' and op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if is_const(y) and cval(y) > 0 and cval(y) & (cval(y) + 1) == 0:
                    return sub(x, scale(div_term(x, cval(y) + 1), cval(y) + 1))
        if t['k'] == 'uint' and op in ('Shr', 'ShrUnchecked') and is_const(b) and 0 <= cval(b) < 64:
            return div_term(a, 1 << cval(b))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if t['k'] == 'bool':
                if op == 'BitAnd':
                    if is_const(a):
                        return b if cval(a) else ZERO
                    if is_const(b):
                        return a if cval(b) else ZERO
                if op == 'BitOr':
                    if is_const(a):
                        return ONE if cval(a) else b
                    if is_const(b):
                        return ONE if cval(b) else a
            if op != 'BitAnd' and is_const(b) and cval(b) == 0:
                return a
            if op != 'BitAnd' and is_const(a) and cval(a) == 0:
                return b
            x, y = sorted([from_lin(a), from_lin(b)], key=T.skey)
            return ('app', op, x, y)
        if op == 'ShrUnchecked':
            op = 'Shr'
        if op == 'ShlUnchecked':
            op = 'Shl'
        if op == 'Offset':
            return ('app', 'Offset', a, from_lin(b))
        return ('app', op, from_lin(a), from_lin(b))

    # ---- sequences ------------------------------------------------------------------
    def seq_len(self, st, v):
        if v[0] == 'slice':
            return as_lin(v[3])
        if v[0] == 'bytes':
            return const(len(v[1]))
        if v[0] == 'ref':
            x = self.load(st, v[1], v[2])
            n = self.val_len_known(st, x)
            # the length of an unsized place never changes, whatever is stored in it
            return n if n is not None else as_lin(('len', ('loc', v[1], v[2])))
        n = self.val_len_known(st, v)
        return n if n is not None else as_lin(('len', v))

    def val_len_known(self, st, x):
        n = self.val_len(st, x)
        if n[0] == 'lin' and len(n[1]) == 1 and n[1][0][0] == ('len', x) and n[2] == 0:
            return None
        return n

    # ---- bookkeeping used by the std summaries ---------------------------------------
    def chain(self, site):
        out = []
        while isinstance(site, tuple) and site and site[0] == 's':
            par, step = self.sitetab[site[1]]
            out.append(step)
            site = par
        return out[::-1]

    def mk(self, fr, step):
        k = (fr, step)
        n = self.siteids.get(k)
        if n is None:
            n = len(self.sitetab)
            self.siteids[k] = n
            self.sitetab.append(k)
        return ('s', n)

    def note(self, site, kind, callee, ops, openl, st):
        key = (site, kind)
        old = self.obl.get(key)
        if openl:
            self.obl[key] = ('open', kind, site, callee['def'], tuple(openl), ops)
        elif old is None:
            self.obl[key] = ('ok', kind, site, callee['def'], (), ops)

    def panic(self, site, callee, st):
        self.panics.setdefault(site, []).append((callee['def'], st))

    def alloc(self, site, callee, n, st):
        self.allocs.append((site, callee['def'], n, st))

    def content(self, st, v):
        return self.argval(st, v)

    def locname(self, r):
        return r[1:] if r[0] == 'ref' else r

    def val_len(self, st, x, ref=None):
        if x[0] == 'rep' and x[2] is not None:
            return const(x[2])
        if x[0] == 'agg' and x[1] == 'array':
            return const(len(x[3]))
        if x[0] in ('slice', 'bytes'):
            return self.seq_len(st, x)
        if x[0] == 'vec':
            return as_lin(x[1])
        if x[0] == 'filled' and x[-1][0] == 'lin':
            return x[-1]
        if x[0] == 'upd':
            return self.val_len(st, x[1], ref)
        if x[0] == 'bytesof':
            return x[2]
        return as_lin(('len', x))

    # ---- branching ---------------------------------------------------------------------
    def decide(self, st, v):
        """truth value of a boolean term if known, else None"""
        if is_const(v):
            return bool(cval(v))
        if v[0] == 'lin':
            v = from_lin(v)
        if v[0] == 'not':
            d = self.decide(st, v[1])
            return None if d is None else not d
        f = st.facts.get(v)
        if f is not None:
            return bool(f)
        if v[0] == 'eq0':
            if st.is_zero(v[1]):
                return True
            r = st.reduce(v[1])
            if is_const(r):
                return False
            if r != v[1]:
                f = st.facts.get(canon_eq(r))
                if f is not None:
                    return bool(f)
            # known discriminant / switch value
            if len(v[1][1]) == 1:
                (a, k) = v[1][1][0]
                kv = st.facts.get(('is', a))
                if kv is not None:
                    return k * kv + v[1][2] == 0
                ex = st.facts.get(('isnt', a))
                if ex is not None and (-v[1][2]) % k == 0 and (-v[1][2]) // k in ex:
                    return False
            # strict order facts
            for l in (v[1], scale(v[1], -1)):
                c = canon_lt(l)
                if is_const(c):
                    continue
                if c[0] == 'not':
                    f = st.facts.get(c[1])
                    f = None if f is None else not f
                else:
                    f = st.facts.get(c)
                if f:
                    return False
        if v[0] == 'lt':
            r = st.reduce(v[1])
            if is_const(r):
                return cval(r) < 0
            if r != v[1]:
                c = canon_lt(r)
                if is_const(c):
                    return bool(cval(c))
                return self.decide(st, c) if c != v else None
            f = st.facts.get(canon_eq(v[1]))
            if f:
                return False
            return self.lt_from_bounds(st, v[1])
        if v[0] == 'ovf':
            return self.ovf_known(st, v)
        return None

    def lt_from_bounds(self, st, l):
        """l < 0 from constant lower/upper bounds of single atoms"""
        lo = hi = 0
        for a, k in l[1]:
            alo, ahi = self.bounds(st, a)
            x, y = (alo, ahi) if k > 0 else (ahi, alo)
            lo = None if lo is None or x is None else lo + k * x
            hi = None if hi is None or y is None else hi + k * y
        if hi is not None and hi + l[2] < 0:
            return True
        if lo is not None and lo + l[2] >= 0:
            return False
        return None

    def bounds(self, st, a):
        lo, hi = None, None
        if a[0] in ('len', 'kiter', 'discr') or (a[0] == 'app' and a[1] in ('div', 'min', 'saturating_mul', 'div_ceil', 'size_of')):
            lo = 0
        if a[0] == 'app' and a[1] == 'min':
            for x in a[2:]:
                if is_const(as_lin(x)):
                    hi = cval(as_lin(x))
        if a in self.nonneg_atoms or a[0] == 'sym' and a[1] in self.nonneg_hint:
            lo = 0
        if a[0] == 'app' and a[1] == 'div' and len(a) == 4:
            pass
        # facts on this atom alone
        for f, val in st.facts.items():
            if f[0] == 'lt' and len(f[1][1]) == 1 and f[1][1][0][0] == a:
                k, c = f[1][1][0][1], f[1][2]
                if k == 1:
                    if val:          # a + c < 0
                        hi = -c - 1 if hi is None else min(hi, -c - 1)
                    else:            # a >= -c
                        lo = -c if lo is None else max(lo, -c)
            elif f[0] == 'is' and f[1] == a:
                lo = hi = val
        return lo, hi

    def ovf_known(self, st, v):
        if v[1] == 'sub':
            d = self.decide(st, canon_lt(sub(v[2], v[3])))
            if d is False:
                return False
        m = re.match(r'([ui])(8|16|32|64|128|size)$', str(v[4])) if len(v) > 4 else None
        a, b = as_lin(v[2]), as_lin(v[3])
        if m and is_const(a) and is_const(b):
            w = 64 if m.group(2) == 'size' else int(m.group(2))
            x = {'mul': cval(a) * cval(b), 'add': cval(a) + cval(b), 'sub': cval(a) - cval(b)}[v[1]]
            lo, hi = (0, (1 << w) - 1) if m.group(1) == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            return not lo <= x <= hi
        return None

    def assume(self, st, v, truth):
        """copy of st with the fact v == truth; None when contradictory"""
        if v[0] == 'lin' and not is_const(v):
            v = from_lin(v)
        while v[0] == 'not':
            v = v[1]
            truth = not truth
        d = self.decide(st, v)
        if d is not None:
            return st if d == truth else None
        s = st.copy()
        s.facts[v] = truth
        if v[0] == 'eq0':
            if truth:
                if not s.add_eq(v[1]):
                    return None
                if len(v[1][1]) == 1 and v[1][1][0][1] == 1:
                    s.facts[('is', v[1][1][0][0])] = -v[1][2]
            elif len(v[1][1]) == 1 and v[1][1][0][1] == 1:
                a = v[1][1][0][0]
                s.facts[('isnt', a)] = s.facts.get(('isnt', a), frozenset()) | {-v[1][2]}
                return self.narrow(s, a)
        if v[0] == 'lt' and len(v[1][1]) == 1:
            a = v[1][1][0][0]
            lo, hi = self.bounds(s, a)
            if lo is not None and lo == hi and ('is', a) not in s.facts:
                if not s.add_eq(sub(a, const(lo))):
                    return None
                s.facts[('is', a)] = lo
        return s

    def assume_is(self, st, v, n):
        """fact: integer/discriminant term v equals n"""
        v = from_lin(v)
        if is_const(as_lin(v)):
            return st if same_int(cval(as_lin(v)), n) else None
        if v[0] == 'cmp3':
            a, b = v[1], v[2]
            n = {255: -1}.get(n, n)
            if n == 0:
                return self.assume(st, canon_eq(sub(a, b)), True)
            s = self.assume(st, canon_lt(sub(a, b)), n == -1)
            if s is None:
                return None
            if n == 1:
                s = self.assume(s, canon_eq(sub(a, b)), False)
            return s
        if v[0] == 'lin':
            return self.assume(st, canon_eq(sub(v, const(n))), True)
        kv = st.facts.get(('is', v))
        if kv is not None:
            return st if same_int(kv, n) else None
        ex = st.facts.get(('isnt', v))
        if ex is not None and n in ex:
            return None
        s = st.copy()
        s.facts[('is', v)] = n
        if v[0] not in ('discr',):
            if not s.add_eq(sub(v, const(n))):
                return None
        return s

    def assume_isnt(self, st, v, ns):
        v = from_lin(v)
        if is_const(as_lin(v)):
            return None if any(same_int(cval(as_lin(v)), n) for n in ns) else st
        if v[0] == 'cmp3':
            rest = [x for x in (-1, 0, 1) if x not in [{255: -1}.get(n, n) for n in ns]]
            if len(rest) == 1:
                return self.assume_is(st, v, rest[0])
            return st
        if v[0] == 'lin':
            for n in ns:
                st = self.assume(st, canon_eq(sub(v, const(n))), False)
                if st is None:
                    return None
            return st
        kv = st.facts.get(('is', v))
        if kv is not None:
            return None if any(same_int(kv, n) for n in ns) else st
        for n in ns:
            l = sub(v, const(n))
            if st.is_zero(l):
                return None
        s = st.copy()
        s.facts[('isnt', v)] = st.facts.get(('isnt', v), frozenset()) | frozenset(ns)
        return self.narrow(s, v)

    # ---- functions ---------------------------------------------------------------------
    def run(self, name, args=None, st=None):
        fn = self.fns[self.F.roots[name]]
        if args is None:
            args = self.sym_args(fn)
        st = st or State()
        return self.exec_fn(fn, args, st, (name,), 0)

    def sym_args(self, fn):
        args = []
        for i in range(1, fn['argc'] + 1):
            t = self.F.ty(fn['locals'][i])
            if t['k'] == 'ref':
                args.append(('ref', ('m', 'arg%d' % (i - 1)), ()))
            else:
                args.append(('sym', 'arg%d' % (i - 1)))
                if t['k'] == 'uint':
                    self.nonneg_hint.add('arg%d' % (i - 1))
        return args

    def exec_fn(self, fn, args, st, ctx, depth):
        if depth > MAXDEPTH:
            raise Undecided('inlining depth at %s' % fn['def'])
        fr = ctx
        st = st.copy()
        n = fn['argc']
        if fn.get('spread') and len(args) != n:
            pass
        for i in range(n):
            st.env[('l', fr, i + 1)] = args[i] if i < len(args) else ('uninit', i)
        rets, exits, backs = self.explore(fn, fr, [(0, st)], None, None, depth)
        out = []
        for s in rets:
            v = s.env.get(('l', fr, 0), ('agg', '', 0, ()))
            e = {k: x for k, x in s.env.items() if not (k[0] == 'l' and k[1] == fr)}
            out.append((State(e, s.facts, s.eqs, s.trace), v))
        return self.merge_rets(out, fr)

    def merge_rets(self, outs, fr):
        groups = {}
        order = []
        for s, v in outs:
            k = (s.trace, v)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        res = []
        for k in order:
            for s in self.merge(groups[k], None, ('ret', fr)):
                res.append((s, k[1]))
        if len(res) > MAXP:
            # property simulation: partitions with the same events and the same kind of
            # outcome are joined
            g2 = {}
            for s, v in res:
                vk = v if v[0] == 'agg' and v[2] == 1 and 'Result' in str(v[1]) else v[1:3] if v[0] == 'agg' else 'o'
                g2.setdefault((s.trace, (vk, self.kept(s))), []).append((s, v))
            res = []
            for (tr, vk), g in g2.items():
                acc, av = g[0]
                for i, (s, v) in enumerate(g[1:]):
                    a = State(dict(acc.env), acc.facts, acc.eqs, tr)
                    b = State(dict(s.env), s.facts, s.eqs, tr)
                    a.env['ret'] = av
                    b.env['ret'] = v
                    acc = self.join2(a, b, ('ret', fr, i))
                    av = acc.env.pop('ret')
                res.append((acc, av))
            if len(res) > 4 * MAXP:
                raise Undecided('too many partitions at return (%d)' % len(res))
        return res

    # ---- merging --------------------------------------------------------------------------
    def merge(self, sts, live, tag):
        """join states that agree on trace and environment; keep the others apart"""
        if len(sts) <= 1:
            return sts
        out = {}
        order = []
        for s in sts:
            k = (s.trace, frozenset(s.env.items()), self.kept(s))
            if k in out:
                out[k] = self.join_facts(out[k], s)
            else:
                out[k] = s
                order.append(k)
        res = [out[k] for k in order]
        if len(res) > MAXP:
            res = self.join_vals(res, tag)
        return res

    def join_facts(self, a, b):
        if a.facts == b.facts and a.eqs == b.eqs:
            return a
        f = {}
        for k, v in a.facts.items():
            if k in b.facts:
                w = b.facts[k]
                if w == v:
                    f[k] = v
                elif k[0] == 'isnt':
                    f[k] = v & w
        if a.eqs == b.eqs:
            eqs = a.eqs
        else:
            eqs = tuple(e for e in a.eqs if e in b.eqs or b.is_zero(e))
            r = State({}, {}, eqs, ())
            for e in b.eqs:
                if e not in eqs and a.is_zero(e) and not r.is_zero(e):
                    r.add_eq(e)
            eqs = r.eqs
        return State(a.env, f, eqs, a.trace)

    def join_vals(self, sts, tag):
        groups = {}
        for s in sts:
            groups.setdefault((s.trace, (self.signature(s), self.kept(s))), []).append(s)
        res = []
        for (tr, _), g in groups.items():
            acc = g[0]
            for i, s in enumerate(g[1:]):
                acc = self.join2(acc, s, (tag, i))
            res.append(acc)
        if len(res) > 4 * MAXP:
            raise Undecided('too many traces at %s' % (tag,))
        return res

    def kept(self, s):
        """branch facts that stay partitioned: the shape of the caller's own objects"""
        if self.opts.get('keep_all'):
            return frozenset(s.facts.items())
        if self.opts.get('keep_ranges'):
            # comparisons of one value with constants also stay apart (they select match arms)
            return frozenset((f, v) for f, v in s.facts.items()
                             if f[0] in ('is', 'isnt', 'lt', 'eq0') and self.one_value(f[1]))
        return frozenset((f, v) for f, v in s.facts.items()
                         if f[0] in ('is', 'isnt') and f[1][0] == 'discr' and self.own_state(f[1][1]))

    def one_value(self, v):
        if v[0] == 'discr':
            return self.own_state(v[1])
        if v[0] == 'lin':
            return len(v[1]) == 1 and self.one_value(v[1][0][0])
        while v[0] == 'fld':
            v = v[1]
        return v[0] in ('val', 'sym')

    def own_state(self, v):
        while v[0] == 'fld':
            v = v[1]
        return v == ('sym', '*arg0')

    def signature(self, s):
        sig = []
        for k, v in s.env.items():
            if v[0] == 'agg' and isinstance(v[1], str) and k[0] == 'l':
                if 'Result' in v[1] or 'ControlFlow' in v[1]:
                    sig.append((k, v if v[2] == 1 else 0))
                elif 'Option' in v[1]:
                    sig.append((k, v[2]))
        return frozenset(sig)

    def join2(self, acc, s, tag):
        tr = acc.trace
        a0, b0 = acc, s
        acc = self.join_facts(State(acc.env, acc.facts, acc.eqs, tr), s)
        env = {}
        cells = []
        for k in sorted(set(a0.env) | set(s.env), key=T.skey):
            x = a0.env.get(k) or self.default_root(k)
            y = s.env.get(k) or self.default_root(k)
            env[k] = x if x == y else self.join_val(x, y, (tag, k), cells)
        acc = State(env, acc.facts, acc.eqs, tr)
        # affine relations that hold on both sides carry over to the joined values
        cs = []
        for j, x, y in cells:
            if numeric(x) and numeric(y):
                x, y = a0.reduce(x), b0.reduce(y)
                cs.append((j, x, [lin_vec(sub(x, y), 0)]))
        self.relate(acc, cs)
        return acc

    def relate(self, st, cells):
        """cells: (symbol, base value, difference vectors); adds symbol_i - base_i = sum r_k (symbol_k - base_k)
        for every linear dependency between the difference vectors"""
        out = []
        basis = []           # (pivot, vector, combination over cell indices)
        for i, cell in enumerate(cells):
            vec = {}
            vs = cell[2]
            for v in vs:
                vec.update(v)
            comb = {i: Fraction(1)}
            for pv, bv, bc in basis:
                if pv in vec:
                    f = vec[pv] / bv[pv]
                    for a, k in bv.items():
                        n = vec.get(a, 0) - f * k
                        if n:
                            vec[a] = n
                        else:
                            vec.pop(a, None)
                    for a, k in bc.items():
                        comb[a] = comb.get(a, 0) - f * k
            if vec:
                pv = min(vec, key=T.skey)
                basis.append((pv, vec, comb))
                continue
            # sum comb_k (sym_k - base_k) = 0
            den = 1
            for k in comb.values():
                den = den * k.denominator // _gcd(den, k.denominator)
            l = ZERO
            for a, k in comb.items():
                k = int(k * den)
                if k:
                    l = add(l, scale(sub(as_lin(cells[a][0]), as_lin(cells[a][1])), k))
            if st is not None:
                st.add_eq(l)
            else:
                out.append((l, [(cells[a][0], cells[a][1], cells[a][3], k) for a, k in comb.items() if k]))
        return out

    def rel_holds(self, B, cl, comb):
        l = ZERO
        den = 1
        for _, _, _, k in comb:
            den = den * k.denominator // _gcd(den, k.denominator)
        for sym, base, loc, k in comb:
            y = add(as_lin(sym), ONE) if loc is None else cl[loc][1] if loc in cl else sym
            l = add(l, scale(sub(as_lin(y), as_lin(base)), int(k * den)))
        return B.is_zero(l)

    def join_val(self, x, y, tag, cells):
        if x == y:
            return x
        if x[0] == 'agg' and y[0] == 'agg' and x[1:3] == y[1:3] and len(x[3]) == len(y[3]):
            return ('agg', x[1], x[2], tuple(self.join_val(a, b, (tag, i), cells) for i, (a, b) in enumerate(zip(x[3], y[3]))))
        cs = self.split_comps(x, y)
        if cs:
            v = x
            for c in cs:
                v = self._upd(None, v, (c,), self.join_val(self.proj(None, x, c), self.proj(None, y, c), (tag, c), cells))
            return v
        j = ('join', repr(tag))
        cells.append((j, x, y))
        return j

    # ---- exploration -------------------------------------------------------------------------
    def explore(self, fn, fr, entries, region, head, depth):
        c = self.cfg_of(fn)
        vis = self.visited.setdefault(fn['id'], set())
        pending = {}
        first = True
        for bb, s in entries:
            pending.setdefault(bb, []).append(s)
        rets, exits, backs = [], [], []
        steps = 0
        while pending:
            bb = min(pending, key=lambda b: c.order[b])
            sts = pending.pop(bb)
            steps += 1
            if steps > 20000:
                raise Undecided('step limit in %s' % fn['def'])
            live = c.live_in(bb)
            if len(sts) > 1:
                for s in sts:
                    self.prune(s, fr, live)
                sts = self.merge(sts, live, (fr, bb))
            if bb in c.loops and not (bb == head and first):
                if bb != head:
                    for s in sts:
                        self.prune(s, fr, live)
                        r2, x2, st2 = self.do_loop(fn, fr, bb, s, depth)
                        rets += r2
                        for b2, s2 in x2:
                            self.route(b2, s2, pending, exits, backs, region, head)
                    continue
            first = False
            vis.add(bb)
            for s in sts:
                s = s.copy()
                for b2, s2 in self.block(fn, fr, bb, s, depth):
                    if b2 is None:
                        rets.append(s2)
                    else:
                        self.route(b2, s2, pending, exits, backs, region, head)
        return rets, exits, backs

    def route(self, b2, s2, pending, exits, backs, region, head):
        if head is not None and b2 == head:
            backs.append(s2)
        elif region is not None and b2 not in region:
            exits.append((b2, s2))
        else:
            pending.setdefault(b2, []).append(s2)

    def prune(self, s, fr, live):
        if live is None:
            return
        dead = [k for k in s.env if k[0] == 'l' and k[1] == fr and k[2] not in live]
        for k in dead:
            del s.env[k]

    def do_loop(self, fn, fr, head, entry, depth):
        c = self.cfg_of(fn)
        body = c.loops[head]
        lid = self.site(fr, 'L%d' % head)
        limit = self.opts.get('unroll')
        if limit:
            # iterate literally first: a loop of a constant number of rounds is then exact
            rets, exits, sts = [], [], [entry]
            for _ in range(limit):
                live = c.live_in(head)
                seen = set(s.trace for s in sts)
                r, x, sts = self.explore(fn, fr, [(head, s.copy()) for s in sts], body, head, depth)
                if sts and any(s.trace in seen for _, s in x):
                    break                   # leaves or continues on an unknown condition
                rets += r
                exits += x
                for s in sts:
                    self.prune(s, fr, live)
                if not sts or len(sts) > 64:
                    break
            if not sts:
                return rets, exits, entry
        plan = {}
        S = entry
        rel = None
        bases = {}
        for it in range(18):
            self._cells = None
            rets, exits, backs = self.explore(fn, fr, [(head, S.copy())], body, head, depth)
            changed = False
            live = c.live_in(head)
            if self.opts.get('fork'):
                # a flag set in this round that makes the next test of the condition leave the loop: leave now
                keep = []
                for B in backs:
                    if self.flag_flipped(fn, fr, S, B, live):
                        r2, x2, b2 = self.explore(fn, fr, [(head, B.copy())], body, head, depth)
                        if not b2:
                            rets += r2
                            exits += x2
                            continue
                    keep.append(B)
                backs = keep
            recs = []
            for B in backs:
                self.prune(B, fr, live)
                self._cells = {}
                recs.append((B, self._cells))
                for k in set(S.env) | set(B.env):
                    x = S.env.get(k, self.default_root(k))
                    y = B.env.get(k, self.default_root(k))
                    if x != y and self.widen(x, y, (k,), plan, S, B):
                        changed = True
            self._cells = None
            if not changed:
                if rel is None:
                    cs = self.loop_relations(recs, bases, lid)
                    rel = self.relate(None, cs) if cs else []
                    if rel:
                        S = S.copy()
                        for e, _ in rel:
                            S.add_eq(e)
                        continue
                elif rel:
                    # the relations assumed at the header must hold again at every back edge
                    ok = [(e, comb) for e, comb in rel if all(self.rel_holds(B, cl, comb) for B, cl in recs)]
                    if len(ok) != len(rel):
                        rel = ok
                        S = S.copy()
                        S.eqs = entry.eqs
                        for e, _ in rel:
                            S.add_eq(e)
                        continue
                break
            rel = None
            bases = {}
            self._bases = bases
            S = entry.copy()
            kk = ('kiter', lid)
            for k in set(entry.env) | set(p[0] for p in plan):
                x = entry.env.get(k, self.default_root(k))
                S.env[k] = self.apply_plan(x, (k,), plan, kk, lid)
        else:
            raise Undecided('loop does not stabilise in %s' % fn['def'])
        n = len(S.trace)
        segs = frozenset(b.trace[n:] for b in backs)
        if segs and segs != frozenset([()]):
            ev = ('loop', lid, segs, fn['id'], head)
        elif backs:
            ev = ('loop', lid, frozenset([()]), fn['id'], head)
        else:
            ev = None

        kk = ('kiter', lid)

        def bound(l, val):
            # the proposition kk + r < 0 behind a fact, and its truth
            for a, k in l[1]:
                if a == kk:
                    if k == 1:
                        return l, val
                    if k == -1:
                        return sub(scale(l, -1), ONE), not val
            return None, None

        def last_round(s):
            # counted up to an unchanging bound that every earlier round was below: the bound itself
            for f, val in s.facts.items():
                if f[0] != 'lt' or f in entry.facts:
                    continue
                l, t = bound(f[1], val)
                if l is None or t is not False or any(a != kk and T.mentions(a, lambda x: lid in x) for a, _ in l[1]):
                    continue
                if all(B.facts.get(f) == (not val) for B in backs) and self.decide(entry, canon_lt(sub(as_lin(kk), l))) is False:
                    s.add_eq(l)

        def fix(s):
            if ev is None:
                return s
            last_round(s)
            return State(s.env, s.facts, s.eqs, s.trace[:n] + (ev,) + s.trace[n:])
        self.loopinfo = getattr(self, 'loopinfo', {})
        self.loopinfo[lid] = dict(fn=fn, head=head, backs=backs, plan=plan, entry=entry, S=S, exits=exits, rets=rets)
        return [fix(s) for s in rets], [(b, fix(s)) for b, s in exits], S

    def flag_flipped(self, fn, fr, S, B, live):
        for k, v in B.env.items():
            if k[0] == 'l' and k[1] == fr and (live is None or k[2] in live) and is_const(v) and fn['locals'][k[2]] == 'bool':
                x = S.env.get(k)
                if x is not None and x != v:
                    return True
        return False

    def is_struct(self, v):
        """an aggregate of a struct or tuple type (one shape, so its fields can be told apart)"""
        if v[0] != 'agg' or v[2] != 0 or not v[3]:
            return False
        if v[1] == '':
            return True
        t = self.F.types.get(v[1])
        return bool(t) and t['k'] == 'adt' and not t['enum']

    def split_comps(self, x, y):
        """field components to treat separately when two versions of one object differ"""
        bx = x[1] if x[0] == 'upd' else x
        by = y[1] if y[0] == 'upd' else y
        comps = [c for v in (x, y) if v[0] == 'upd' for c, _ in v[2]]
        if any(c[0] != 'f' or c[1] is not None for c in comps):
            if bx != by or any(c[0] != 'f' for c in comps):
                return None
        if bx == by:
            return sorted(set(comps), key=T.skey)
        for a, o in ((bx, by), (by, bx)):
            if self.is_struct(a) and o[0] in ('fld', 'sym', 'agg', 'join', 'phi'):
                if o[0] == 'agg' and (o[1] != a[1] or o[2] != a[2] or len(o[3]) != len(a[3])):
                    return None
                return [('f', None, i) for i in range(len(a[3]))]
        return None

    def loop_relations(self, recs, bases, lid):
        """linear dependencies between what each iteration adds to the widened cells"""
        if not bases or not recs:
            return []
        cells = [(('kiter', lid), ZERO, [{('be', i, ''): Fraction(1)} for i in range(len(recs))], None)]
        for loc in sorted(bases, key=repr):
            x0 = bases[loc]
            sym = None
            vs = []
            ok = numeric(x0)
            for i, (B, cl) in enumerate(recs):
                if loc in cl:
                    p, y = cl[loc]
                    sym = p
                    if not (numeric(p) and numeric(y)):
                        ok = False
                        break
                    vs.append(lin_vec(B.reduce(sub(y, p)), i))
            if ok and sym is not None:
                cells.append((sym, x0, vs, loc))
        return cells

    def widen(self, x, y, loc, plan, S, B):
        """compare header value x with back-edge value y; update plan; True if plan changed"""
        if x == y:
            return False
        if x[0] == 'agg' and y[0] == 'agg' and x[2] == y[2] and not x[3] and not y[3] and {x[1], y[1]} <= {'', '()'}:
            return False
        p = plan.get(loc)
        if p is not None and self._cells is not None:
            self._cells[loc] = (x, y)
        if p == 'phi':
            return False
        if p is not None and p[0] == 'seq':
            n = self.val_len_known(B, y)
            if n is not None and n == p[1]:
                return False
            plan[loc] = 'phi'
            return True
        if p is None and y[0] == 'filled':
            # a sequence of known length overwritten in place: the content changes, the length stays
            n, m = self.val_len_known(S, x), self.val_len_known(B, y)
            if n is not None and n == m:
                plan[loc] = ('seq', n)
                return True
        if p is not None and p[0] == 'ind':
            d = sub(y, x)
            if d == p[1]:
                return False
            plan[loc] = 'phi'
            return True
        if x[0] == 'agg' and y[0] == 'agg' and x[1] == y[1] and x[2] == y[2] and len(x[3]) == len(y[3]):
            ch = False
            for i, (a, b) in enumerate(zip(x[3], y[3])):
                if self.widen(a, b, loc + (i,), plan, S, B):
                    ch = True
            return ch
        if x[0] == 'iter' and y[0] == 'iter' and x[1] == y[1] and len(x) == len(y):
            ch = False
            for i in range(2, len(x)):
                if x[i] != y[i] and self.widen(x[i], y[i], loc + (i,), plan, S, B):
                    ch = True
            return ch
        if x[0] == 'vec' and y[0] == 'vec' and x[2] == y[2]:
            return self.widen(x[1], y[1], loc + ('n',), plan, S, B)
        cs = self.split_comps(x, y)
        if cs:
            ch = False
            for c in cs:
                a, b = self.proj(S, x, c), self.proj(B, y, c)
                if a != b and self.widen(a, b, loc + (('u', c),), plan, S, B):
                    ch = True
            return ch
        d = sub(y, x) if numeric(x) and numeric(y) else None
        if d is not None and is_const(d) and p is None:
            plan[loc] = ('ind', d)
        else:
            plan[loc] = 'phi'
        return True

    def apply_plan(self, x, loc, plan, kk, lid):
        p = plan.get(loc)
        if p is not None:
            self._bases[loc] = x
        if p == 'phi':
            return ('phi', lid, repr(loc))
        if p is not None and p[0] == 'seq':
            return ('filled', ('phi', lid, repr(loc)), None, (), p[1])
        if p is not None:
            return add(x, scale(as_lin(kk), cval(p[1])))
        sub_ = [l for l in plan if len(l) > len(loc) and l[:len(loc)] == loc]
        if not sub_:
            return x
        if x[0] == 'agg':
            return ('agg', x[1], x[2], tuple(self.apply_plan(a, loc + (i,), plan, kk, lid) for i, a in enumerate(x[3])))
        if x[0] == 'iter':
            return x[:2] + tuple(self.apply_plan(x[i], loc + (i,), plan, kk, lid) if isinstance(x[i], tuple) else x[i]
                                 for i in range(2, len(x)))
        if x[0] == 'vec':
            return ('vec', self.apply_plan(x[1], loc + ('n',), plan, kk, lid)) + x[2:]
        us = {l[len(loc)][1] for l in sub_ if isinstance(l[len(loc)], tuple) and l[len(loc)][0] == 'u'}
        if us:
            v = x
            for cpt in sorted(us, key=T.skey):
                nv = self.apply_plan(self.proj(None, x, cpt), loc + (('u', cpt),), plan, kk, lid)
                v = self._upd(None, v, (cpt,), nv)
            return v
        return x

    def site(self, fr, x):
        return (self.ctxid(fr), x)

    _ctx = {}

    def ctxid(self, fr):
        return fr

    # ---- blocks ----------------------------------------------------------------------------
    def block(self, fn, fr, bb, st, depth, start=0):
        b = fn['blocks'][bb]
        fork = self.opts.get('fork')
        for i, s in enumerate(b['s'] if not start else b['s'][start:]):
            if s[0] == '=':
                v = self.rvalue(st, fr, fn, s[2], (fr, bb, s[3]))
                r, p = self.place_loc(st, fr, s[1])
                if fork and v[0] in ('eq0', 'lt', 'not') and fork(self, st, v, None):
                    # decided where it is computed, so that it stays an event of this point
                    out = []
                    for truth in (False, True):
                        s2 = self.assume(st, v, truth)
                        if s2 is not None:
                            s2 = s2.copy() if s2 is st else s2
                            fork(self, s2, v, truth)
                            r, p = self.place_loc(s2, fr, s[1])
                            self.store(s2, r, p, const(int(truth)))
                            out += self.block(fn, fr, bb, s2, depth, start + i + 1)
                    return out
                self.store(st, r, p, v)
            elif s[0] == 'sd':
                r, p = self.place_loc(st, fr, s[1])
                v = self.load(st, r, p)
                if v[0] == 'agg':
                    self.store(st, r, p, ('agg', v[1], s[2], v[3]))
                else:
                    self.store(st, r, p, ('agg', '?', s[2], ()))
        t = b['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'ret':
            return [(None, st)]
        if k in ('unreach', 'resume', 'abort', 'other'):
            return []
        if k == 'drop':
            h = self.opts.get('on_drop')
            if h:
                return [(t[2], s) for s in h(self, st, fr, fn, t)]
            return [(t[2], st)]
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            ty = self.F.ty(self.op_ty(fn, t[1]) or '')
            out = []
            if ty['k'] == 'bool' or (v[0] in ('not', 'lt', 'eq0', 'ovf')):
                tv = dict((x, y) for x, y in t[2])
                for truth in (False, True):
                    s = self.assume(st, v, truth)
                    if s is not None:
                        out.append((tv.get(int(truth), t[3]), s))
                return out
            ns = []
            w = ty.get('b')
            for n, tgt in t[2]:
                if ty['k'] == 'int' and w and n >> (w - 1):
                    n -= 1 << w
                ns.append(n)
                s = self.assume_is(st, v, n)
                if s is not None:
                    out.append((tgt, s))
            s = self.assume_isnt(st, v, ns)
            if s is not None and not self.exhausted(st, v, ns, t, fn):
                out.append((t[3], s))
            return out
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            want = bool(t[2])
            d = self.decide(st, v)
            key = (fn['id'], bb, fr)
            if d == want:
                self.obl.setdefault(key, ('ok', t[4], t[6], fn['def'], None, None))
                return [(t[3], st)]
            if t[4] == 'bounds':
                ops = tuple(self.operand(st, fr, o) for o in t[5])
            else:
                ops = tuple(self.operand(st, fr, o) for o in t[5])
            self.obl[key] = ('open', t[4], t[6], fn['def'], ops, st.facts)
            s = self.assume(st, v, want)
            return [(t[3], s)] if s is not None else []
        if k == 'call':
            fv = self.operand(st, fr, t[1])
            args = [self.operand(st, fr, o) for o in t[2]]
            outs = self.call_value(st, fv, args, fn, fr, bb, t, depth)
            res = []
            for s, v in outs:
                if t[4] is None:
                    continue
                r, p = self.place_loc(s, fr, t[3])
                self.store(s, r, p, v)
                res.append((t[4], s))
            return res
        raise Undecided('terminator %s' % k)

    def exhausted(self, st, v, ns, t, fn):
        v = from_lin(v)
        if v[0] == 'discr':
            # all variants covered by explicit targets?
            blk = fn['blocks'][t[3]]
            if blk['t'][0] == 'unreach':
                return True
        return False

    # ---- calls -----------------------------------------------------------------------------
    def call_value(self, st, fv, args, fn, fr, bb, t, depth):
        site = self.mk(fr, (fn['id'], bb))
        if fv[0] == 'fn':
            callee = self.fns[fv[1]]
            return self.call(st, callee, args, site, depth, t)
        if fv[0] == 'agg' and self.F.ty(fv[1])['k'] == 'closure':
            return self.call_closure(st, fv, args, site, depth)
        if fv[0] == 'fnx':
            return [(st.copy(), ('ev', site, fv[1]))]
        return [(st.copy(), ('app', 'callptr', fv) + tuple(self.argval(st, a) for a in args))]

    def argval(self, st, a, d=0):
        """value-number an argument: references are replaced by what they point at"""
        if a[0] == 'ref' and d < 4:
            return ('refv', self.argval(st, self.load(st, a[1], a[2]), d + 1))
        if a[0] == 'slice' and a[1][0] == 'ref':
            return ('slice', self.argval(st, a[1], d + 1), a[2], a[3])
        if a[0] == 'agg':
            return ('agg', a[1], a[2], tuple(self.argval(st, x, d) for x in a[3]))
        return a

    def call(self, st, callee, args, site, depth, t=None):
        st = st.copy()
        for h in self.extra:
            r = h(self, st, callee, args, site, depth)
            if r is not None:
                return r
        d = callee['def']
        own = callee.get('crate') == 'deku' or str(callee.get('crate')).startswith('corpus')   # never a library function
        h = self.std.get(d) if not own else None
        if h is None and not own:
            for rx, hh in self.stdre:
                if rx.search(d):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, callee, args, site, depth)
            if r is not None:
                return r
        tr = callee.get('trait')
        if tr in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call') or \
                callee['kind'] == 'closure_once' or callee.get('closure_of'):
            r = self.call_fnlike(st, callee, args, site, depth)
            if r is not None:
                return r
        if 'blocks' in callee and callee['kind'] in ('item', 'closure_once'):
            return self.exec_fn(callee, args, st, site, depth + 1)
        return self.opaque(st, callee, args, site)

    def call_fnlike(self, st, callee, args, site, depth):
        f = args[0] if args else None
        if f is None:
            return None
        g = f
        n = 0
        while g[0] == 'ref' and n < 4:
            g = self.load(st, g[1], g[2])
            n += 1
        if g[0] == 'fn':
            packed = args[1] if len(args) > 1 else ('agg', '', 0, ())
            a = list(packed[3]) if packed[0] == 'agg' else [packed]
            return self.call(st, self.fns[g[1]], a, self.mk(site, ('fnptr', 0)), depth + 1)
        if g[0] == 'agg' and self.F.ty(g[1])['k'] == 'closure':
            return self.call_closure(st, f, args[1:], site, depth, callee)
        if callee.get('closure_of') and 'blocks' in callee:
            return self.exec_closure(st, callee, args, site, depth)
        return None

    def exec_closure(self, st, callee, args, site, depth):
        # args: (self, packed tuple) with the "rust-call" ABI
        a = [args[0]]
        rest = args[1:]
        if len(rest) == 1 and rest[0][0] == 'agg' and rest[0][1] == '' and callee['argc'] == 1 + len(rest[0][3]):
            a += list(rest[0][3])
        elif callee['argc'] == 1 + len(rest):
            a += rest
        elif len(rest) == 1:
            n = callee['argc'] - 1
            a += [self.proj(st, rest[0], ('f', None, i)) for i in range(n)]
        return self.exec_fn(callee, a, st, site, depth + 1)

    def call_closure(self, st, f, rest, site, depth, via=None):
        g = f
        while g[0] == 'ref':
            g = self.load(st, g[1], g[2])
        body = self.closure_body(g, via)
        if body is None or 'blocks' not in body:
            return [(st.copy(), ('ev', site, 'closure'))]
        # self argument by value or by reference according to the body's signature
        t1 = self.F.ty(body['locals'][1])
        st = st.copy()
        if t1['k'] == 'ref':
            if f[0] != 'ref':
                root = ('l', site, 'env')
                st.env[root] = g
                f = ('ref', root, ())
            else:
                f2 = self.load(st, f[1], f[2])
                if f2[0] == 'ref':
                    f = f2
            selfv = f
        else:
            selfv = g
        return self.exec_closure(st, body, [selfv] + list(rest), site, depth)

    def closure_body(self, g, via):
        if isinstance(g[2], int) and g[2] < len(self.fns) and self.fns[g[2]].get('closure_of') and g[2] != 0:
            return self.fns[g[2]]
        # constant (capture-less) closures carry no body id: find it by type
        name = g[1]
        t = self.F.ty(name)
        cands = [f for f in self.fns if f.get('closure_of') and f['def'] == t.get('def') and 'blocks' in f]
        if len(cands) == 1:
            return cands[0]
        if via is not None and via.get('closure_of'):
            return via
        return None

    def opaque(self, st, callee, args, site):
        """unknown function: pure application unless it gets a mutable reference"""
        self.uninlined[callee['def']] = self.uninlined.get(callee['def'], 0) + 1
        d = callee['def']
        muts = self.mut_args(callee, args)
        if not muts:
            return [(st, ('app', d, *[self.argval(st, a) for a in args]))]
        for i in muts:
            a = args[i]
            old = self.argval(st, a)
            self.wr(st, a, ('havoc', d, site, i))
        return [(st, ('ev', site, d))]

    def mut_args(self, callee, args):
        # only callees with a body have parameter types; for the rest be conservative by name
        out = []
        ptys = callee.get('locals')
        for i, a in enumerate(args):
            if a[0] not in ('ref', 'slice'):
                continue
            if ptys:
                t = self.F.ty(ptys[i + 1]) if i + 1 < len(ptys) else {'k': 'other'}
                if t['k'] in ('ref', 'ptr') and t['mut']:
                    out.append(i)
            elif i == 0 and re.search(r'(_mut|::push|::insert|::extend|::clear|::fill|::next|::set|::append|::reserve|::truncate|write_fmt|::read_to_end|::remove|::pop|store_be|store_le|copy_from)', callee['def']):
                out.append(i)
        return out


NUMERIC_TAGS = ('lin', 'sym', 'fld', 'app', 'len', 'kiter', 'phi', 'idx', 'join', 'ion', 'newpos')


def numeric(v):
    return v[0] in NUMERIC_TAGS


def lin_vec(l, tag):
    l = as_lin(l)
    d = {('be', tag, a): Fraction(k) for a, k in l[1]}
    if l[2]:
        d[('be', tag, '')] = Fraction(l[2])
    return d


def from_lin_c(v):
    """index component: keep constants as lin, unwrap single atoms"""
    return v


def same_int(a, b):
    if a == b:
        return True
    for w in (8, 16, 32, 64, 128):
        if a < 0 and (a + (1 << w)) == b:
            return True
        if b < 0 and (b + (1 << w)) == a:
            return True
    return False


def div_term(a, n):
    """floor(a / n) for non-negative a: pull multiples of n out of the affine part"""
    a = as_lin(a)
    whole = {}
    rest = {}
    for t, k in a[1]:
        q, r = divmod(k, n)
        if q:
            whole[t] = q
        if r:
            rest[t] = r
    q, r = divmod(a[2], n)
    base = T._norm(whole, q)
    rem = T._norm(rest, r)
    if is_const(rem):
        return base
    return add(base, ('app', 'div', rem, const(n)))


class Cfg:
    def __init__(self, fn):
        self.fn = fn
        bl = fn['blocks']
        n = len(bl)
        self.succ = [self._succ(b['t']) for b in bl]
        seen = set()
        post = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        self.order = {b: i for i, b in enumerate(rpo)}
        self.rpo = rpo
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        self.preds = preds
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    x = self._inter(idom, x, p)
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(preds[x])
        # blocks of a loop must be processed before the code after it
        self._reorder()
        self._live = None

    def _reorder(self):
        """RPO numbers such that loop bodies are contiguous (exits after the body)"""
        if not self.loops:
            return
        # stable topological order ignoring back edges, preferring innermost loop members
        depth = {b: frozenset(h for h, bd in self.loops.items() if b in bd) for b in self.rpo}
        indeg = {b: 0 for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                if not self.dominates(s, b):
                    indeg[s] += 1
        ready = [0]
        out = []
        cur = None
        while ready:
            def key(b):
                sh = len(depth[b] & depth[out[-1]]) if out else 0
                return (-sh, self.order[b])
            ready.sort(key=key)
            b = ready.pop(0)
            out.append(b)
            for s in self.succ[b]:
                if not self.dominates(s, b):
                    indeg[s] -= 1
                    if indeg[s] == 0:
                        ready.append(s)
        if len(out) == len(self.rpo):
            self.order = {b: i for i, b in enumerate(out)}

    def _inter(self, idom, a, b):
        while a != b:
            while self.order[a] > self.order[b]:
                a = idom[a]
            while self.order[b] > self.order[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def _succ(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return list(dict.fromkeys([x for _, x in t[2]] + [t[3]]))
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[3]]
        return []

    # liveness of locals (address-taken locals are always live)
    def live_in(self, bb):
        if self._live is None:
            self._compute_live()
        return self._live.get(bb)

    def _compute_live(self):
        fn = self.fn
        addr = set()
        use = {}
        dfn = {}

        def ops(o, acc):
            if o[0] in ('c', 'm'):
                pl(o[1], acc)

        def pl(p, acc):
            acc.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == 'i':
                    acc.add(e[1])

        def rv(r, acc):
            k = r[0]
            if k in ('use', 'rep'):
                ops(r[1], acc)
            elif k == 'ref':
                if not any(e == '*' for e in r[1][1]):
                    addr.add(r[1][0])
                pl(r[1], acc)
            elif k == 'agg':
                for o in r[4]:
                    ops(o, acc)
            elif k == 'discr':
                pl(r[1], acc)
            elif k == 'bin':
                ops(r[2], acc)
                ops(r[3], acc)
            elif k == 'un':
                ops(r[2], acc)
            elif k == 'cast':
                ops(r[2], acc)

        for b in self.rpo:
            u, d = set(), set()
            blk = fn['blocks'][b]

            def usevars(acc):
                for x in acc:
                    if x not in d:
                        u.add(x)
            for s in blk['s']:
                if s[0] == '=':
                    acc = set()
                    rv(s[2], acc)
                    if s[1][1]:
                        pl(s[1], acc)
                    usevars(acc)
                    if not s[1][1]:
                        d.add(s[1][0])
                elif s[0] == 'sd':
                    acc = set()
                    pl(s[1], acc)
                    usevars(acc)
            t = blk['t']
            acc = set()
            if t[0] == 'switch':
                ops(t[1], acc)
            elif t[0] == 'drop':
                pl(t[1], acc)
            elif t[0] == 'assert':
                ops(t[1], acc)
                for o in t[5]:
                    ops(o, acc)
            elif t[0] == 'call':
                ops(t[1], acc)
                for o in t[2]:
                    ops(o, acc)
                if t[3][1]:
                    pl(t[3], acc)
            elif t[0] == 'ret':
                acc.add(0)
            usevars(acc)
            if t[0] == 'call' and not t[3][1]:
                d.add(t[3][0])
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                i = use[b] | (o - dfn[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self._live = {b: live[b] | addr for b in self.rpo}
