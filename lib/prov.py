"""Where every bit comes from: a bit-provenance analysis of the type-checked, monomorphised MIR.

The abstract value of a data bit is its origin: bit p of the stream, bit i of the value handed in, or a
constant; the value of an integer is the vector of the origins of its bits.  Sizes, offsets and orders are
the fixed parameters of the analysed instance.  A branch on data splits the analysis into "all these bits
are zero" and "one of them is not", and the first refines the origins.  Library functions are modelled by
what they do to bit vectors.  The code is never run and has no concrete input; what the abstract semantics
does not cover raises Unknown, which the check reports (it fails closed).
"""
import re
import sys
from engine import norm_def

sys.setrecursionlimit(20000)


class Unknown(Exception):
    pass


class Panic(Exception):
    pass


class Infeasible(Exception):
    pass


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class OnePlace:
    """a place seen as an array of one element"""
    __slots__ = ('ip', 'r')

    def __init__(self, ip, r):
        self.ip = ip
        self.r = r

    def get(self):
        return [self.ip.load(self.r.c, self.r.p)]

    def set(self, v):
        self.ip.store(self.r.c, self.r.p, v[0])


class BitPlace:
    """one bit of a bit slice, as a place of type bool"""
    __slots__ = ('s', 'i', 'ip')

    def __init__(self, ip, s, i):
        self.ip = ip
        self.s = s
        self.i = i

    def get(self):
        return mk((self.ip.bget(self.s, self.i),))

    def set(self, v):
        self.ip.bset(self.s, self.i, self.ip.bits(v, 1)[0])


class Agg:
    __slots__ = ('ty', 'var', 'f')

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = f

    def __repr__(self):
        return '%s#%s%r' % (self.ty.split('<')[0].split('::')[-1], self.var, self.f)


class Ref:
    __slots__ = ('c', 'p')

    def __init__(self, c, p=()):
        self.c = c
        self.p = p

    def __repr__(self):
        return '&'


class Sl:
    """&[T] or &mut [T]: the list behind (c, p), elements lo..hi"""
    __slots__ = ('c', 'p', 'lo', 'hi')

    def __init__(self, c, p, lo, hi):
        self.c = c
        self.p = p
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return '&[%d..%d]' % (self.lo, self.hi)


class BSl:
    """&BitSlice<u8, O>: bits lo..hi of the bytes behind (c, p)"""
    __slots__ = ('c', 'p', 'lo', 'hi', 'o')

    def __init__(self, c, p, lo, hi, o):
        self.c = c
        self.p = p
        self.lo = lo
        self.hi = hi
        self.o = o

    def __repr__(self):
        return '&bits[%d..%d]%s' % (self.lo, self.hi, self.o)


class Bits:
    """an integer (or bool) of which some bits are data; origins, least significant first"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'Bits' + repr(self.b)


class Cnt:
    """add + mul * (number of zero bits at the front of `b`)"""
    __slots__ = ('b', 'mul', 'add', 'some')

    def __init__(self, b, mul=1, add=0, some=True):
        self.b = b
        self.mul = mul
        self.add = add
        self.some = some      # one of the bits is known to be one

    def rng(self):
        n = len(self.b) - (1 if self.some else 0)
        x, y = self.add, self.add + self.mul * n
        return (x, y) if x <= y else (y, x)


class Fn:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i


class Str:
    def __init__(self, v=None):
        self.v = v

    def __repr__(self):
        return 'str'


class It:
    """an iterator over a list of ready items"""
    __slots__ = ('items', 'i', 'j', 'rem')

    def __init__(self, items, rem=None):
        self.items = items
        self.i = 0
        self.j = len(items)
        self.rem = rem

    def next(self, ip):
        if self.i >= self.j:
            return None
        self.i += 1
        return (self.items[self.i - 1],)

    def next_back(self, ip):
        if self.i >= self.j:
            return None
        self.j -= 1
        return (self.items[self.j],)

    def size(self, ip):
        return self.j - self.i

    def clone(self):
        x = It(self.items, self.rem)
        x.i, x.j = self.i, self.j
        return x


class Ones(It):
    """positions of the ones (or zeros) of a bit slice, front to back"""
    __slots__ = ('cnt',)

    def __init__(self, bits, cnt):
        It.__init__(self, bits)
        self.cnt = cnt

    def clone(self):
        x = Ones(self.items, self.cnt)
        x.i, x.j = self.i, self.j
        return x

    def next(self, ip):
        n = self.cnt(ip, self.items[self.i:self.j])
        if type(n) is not int:
            r = Cnt(n.b, n.mul, n.add + self.i, n.some)
            self.i = self.j = None          # what is left depends on data
            return (r,)
        if n >= self.j - self.i:
            self.i = self.j
            return None
        self.i += n + 1
        return (self.i - 1,)

    def next_back(self, ip):
        n = self.cnt(ip, self.items[self.i:self.j][::-1])
        if type(n) is not int:
            r = Cnt(n.b, -n.mul, self.j - 1 - n.add, n.some)
            self.i = self.j = None
            return (r,)
        if n >= self.j - self.i:
            self.i = self.j
            return None
        self.j -= n + 1
        return (self.j,)

    def size(self, ip):
        x = [ip.res(l) for l in self.items[self.i:self.j]]
        if any(l not in (0, 1) for l in x):
            raise Unknown('number of ones of data')
        return sum(x)


class Wrap:
    """an iterator adapter"""
    __slots__ = ('k', 'a', 'x', 'n')

    def __init__(self, k, a, x=None):
        self.k = k
        self.a = a
        self.x = x
        self.n = 0

    def clone(self):
        w = Wrap(self.k, dup(self.a), dup(self.x))
        w.n = self.n
        return w

    def size(self, ip):
        n = ip.it_size(self.a)
        if self.k == 'zip':
            return min(n, ip.it_size(self.x))
        if self.k == 'skip':
            return max(0, n - self.x)
        if self.k == 'take':
            return min(n, self.x)
        if self.k == 'step':
            return -(-n // self.x) if not self.n else n // self.x
        if self.k == 'chain':
            return n + ip.it_size(self.x)
        if self.k in ('filter', 'skip_while', 'take_while'):
            raise Unknown('number of items of ' + self.k)
        return n

    def next(self, ip):
        k = self.k
        if k == 'zip':
            a = ip.it_next(self.a)
            if a is None:
                return None
            b = ip.it_next(self.x)
            if b is None:
                return None
            return (Agg('', 0, [a[0], b[0]]),)
        if k == 'enumerate':
            a = ip.it_next(self.a)
            if a is None:
                return None
            self.n += 1
            return (Agg('', 0, [self.n - 1, a[0]]),)
        if k == 'skip':
            while self.x > 0:
                self.x -= 1
                if ip.it_next(self.a) is None:
                    return None
            return ip.it_next(self.a)
        if k == 'take':
            if self.x <= 0:
                return None
            self.x -= 1
            return ip.it_next(self.a)
        if k == 'rev':
            return ip.it_back(self.a)
        if k == 'map':
            a = ip.it_next(self.a)
            return None if a is None else (ip.apply(self.x, [a[0]]),)
        if k == 'copied':
            a = ip.it_next(self.a)
            return None if a is None else (dup(ip.deref(a[0])),)
        if k == 'step':
            if self.n:
                for _ in range(self.x - 1):
                    if ip.it_next(self.a) is None:
                        return None
            self.n = 1
            return ip.it_next(self.a)
        if k in ('filter', 'skip_while', 'take_while'):
            while not (k == 'take_while' and self.n):
                a = ip.it_next(self.a)
                if a is None:
                    return None
                if k == 'skip_while' and self.n:
                    return a
                if ip.truth(ip.apply(self.x, [Ref(Cell(a[0]))])) == (k != 'skip_while'):
                    self.n = int(k == 'skip_while')
                    return a
                if k == 'take_while':
                    self.n = 1
            return None
        if k == 'chain':
            a = ip.it_next(self.a)
            return a if a is not None else ip.it_next(self.x)
        raise Unknown('iterator ' + k)

    def next_back(self, ip):
        k = self.k
        if k == 'rev':
            return ip.it_next(self.a)
        if k == 'enumerate':
            n = ip.it_size(self.a)
            a = ip.it_back(self.a)
            return None if a is None else (Agg('', 0, [self.n + n - 1, a[0]]),)
        if k == 'map':
            a = ip.it_back(self.a)
            return None if a is None else (ip.apply(self.x, [a[0]]),)
        if k == 'copied':
            a = ip.it_back(self.a)
            return None if a is None else (dup(ip.deref(a[0])),)
        if k == 'skip' and ip.it_size(self.a) > self.x:
            return ip.it_back(self.a)
        if k == 'skip':
            return None
        if k == 'zip':
            n, m = ip.it_size(self.a), ip.it_size(self.x)
            for _ in range(n - m):
                ip.it_back(self.a)
            for _ in range(m - n):
                ip.it_back(self.x)
            a = ip.it_back(self.a)
            if a is None:
                return None
            return (Agg('', 0, [a[0], ip.it_back(self.x)[0]]),)
        raise Unknown('iterator back ' + k)


def dup(v):
    if type(v) is Agg:
        return Agg(v.ty, v.var, [dup(x) for x in v.f])
    if type(v) is list:
        return [dup(x) for x in v]
    if type(v) in (It, Wrap, Ones):
        return v.clone()
    return v


def mk(b, w=None, signed=False):
    """integer value of a vector of origins"""
    x = 0
    for i, l in enumerate(b):
        if l == 1:
            x |= 1 << i
        elif l != 0:
            return Bits(tuple(b))
    if signed and b and b[-1] == 1:
        x -= 1 << len(b)
    return x


def neg(l):
    if l == 0:
        return 1
    if l == 1:
        return 0
    return l[1] if l[0] == 'n' else ('n', l)


OK = 0
ERR = 1


class Interp:
    def __init__(self, facts):
        self.F = facts
        self.fns = facts.fns
        self.tyc = {}
        self.hc = {}
        self.by_closure = None
        self.visited = set()
        self.models = set()
        self.maxsteps = 400000

    # ---- exploration -------------------------------------------------------------
    def paths(self, root, mkargs, limit=4000):
        """yield (outcome, interp state) for every partition of the data"""
        stack = [[]]
        n = 0
        while stack:
            script = stack.pop()
            n += 1
            if n > limit:
                raise Unknown('too many partitions of the data')
            self.script = script
            self.taken = []
            self.assign = {}
            self.nonzero = []
            self.sink = []
            self.nread = 0
            self.steps = 0
            try:
                args = mkargs(self)
                r = self.exec(self.fns[self.F.roots[root]], args)
                out = ('ret', r)
            except Panic as e:
                out = ('panic', str(e))
            except Infeasible:
                out = None
            for i in range(len(script), len(self.taken)):
                stack.append([t for t in self.taken[:i]] + [1 - self.taken[i]])
            if out is not None:
                yield out

    def choose(self):
        i = len(self.taken)
        c = self.script[i] if i < len(self.script) else 1
        self.taken.append(c)
        return c

    def res(self, l):
        while type(l) is tuple:
            if l in self.assign:
                l = self.assign[l]
                continue
            if l[0] == 'n':
                x = self.res(l[1])
                return neg(x)
            return l
        return l

    def all_zero(self, labels):
        """is every one of these bits zero?  Splits the data when it is not known."""
        s = set()
        for l in labels:
            l = self.res(l)
            if l == 1:
                return False
            if l != 0:
                s.add(l)
        if not s:
            return True
        for l in s:
            if neg(l) in s:
                return False
        for nz in self.nonzero:
            r = set(self.res(x) for x in nz)
            if 1 in r:
                continue
            r.discard(0)
            if r <= s:
                return False
        if self.choose():
            for l in s:
                self.bind(l, 0)
            self.recheck()
            return True
        if len(s) == 1:
            self.bind(next(iter(s)), 1)
            self.recheck()
        else:
            self.nonzero.append(frozenset(s))
        return False

    def bind(self, l, v):
        l = self.res(l)
        if type(l) is not tuple:
            if l != v:
                raise Infeasible
            return
        if l[0] == 'n':
            self.assign[l[1]] = 1 - v
        else:
            self.assign[l] = v

    def recheck(self):
        again = True
        while again:
            again = False
            for nz in self.nonzero:
                r = set(self.res(x) for x in nz)
                if 1 in r:
                    continue
                r.discard(0)
                if not r:
                    raise Infeasible
                if len(r) == 1:
                    self.bind(next(iter(r)), 1)
                    again = True

    # ---- integers -------------------------------------------------------------------
    def bits(self, v, w):
        if type(v) is int:
            return tuple((v >> i) & 1 for i in range(w))
        if type(v) is Bits:
            b = tuple(self.res(l) for l in v.b)
            if len(b) < w:
                b = b + (0,) * (w - len(b))
            return b[:w]
        if type(v) is bool:
            return (int(v),) + (0,) * (w - 1)
        if type(v) is Agg and len(v.f) == 1 and v.ty.split('<')[0].split('::')[-1] in ('NonZero', 'MaybeUninit', 'ManuallyDrop', ''):
            return self.bits(v.f[0], w)
        raise Unknown('bits of %r' % (v,))

    def truth(self, v):
        if type(v) is int:
            return v != 0
        if type(v) is Bits:
            return not self.all_zero(v.b)
        raise Unknown('condition %r' % (v,))

    def conc(self, v, what='size'):
        if type(v) is int:
            return v
        if type(v) is Bits:
            x = mk(tuple(self.res(l) for l in v.b))
            if type(x) is int:
                return x
        if type(v) is Cnt:
            lo, hi = v.rng()
            if lo == hi:
                return lo
            while lo < hi:                     # split on its value
                if self.lt(v, lo + 1, 64, False):
                    hi = lo
                else:
                    lo += 1
            return lo
        raise Unknown('%s depends on data: %r' % (what, v))

    def lt(self, a, b, w, signed):
        if type(a) is int and type(b) is int:
            return a < b
        if type(a) is Cnt and type(b) is int:
            lo, hi = a.rng()
            if hi < b:
                return True
            if lo >= b:
                return False
            if a.mul > 0:      # add + c < b  <=>  c < b - add  <=>  not the first (b-add) zero
                return not self.all_zero(a.b[:b - a.add])
            return self.all_zero(a.b[:a.add - b + 1])     # add - c < b <=> c >= add-b+1
        if type(b) is Cnt and type(a) is int:
            return not self.lt(b, a + 1, w, signed)
        if type(b) is int:
            x = self.bits(a, w)
            if signed:
                if b == 0:
                    return not self.all_zero((x[-1],))
                if b == -1:
                    raise Unknown('signed comparison')
                if self.all_zero((x[-1],)):
                    return b > 0 and self.ult(x[:-1], b)
                if b >= 0:
                    return True
                return self.ult(x[:-1], b + (1 << (w - 1)))
            return self.ult(x, b)
        if type(a) is int:
            return not self.lt(b, a + 1, w, signed)
        raise Unknown('comparison of %r and %r' % (a, b))

    def ult(self, x, c):
        """x < c for a constant c"""
        if c <= 0:
            return False
        if c >> len(x):
            return True
        if c & (c - 1) == 0:
            return self.all_zero(x[c.bit_length() - 1:])
        # decide from the top bit down
        for i in range(len(x) - 1, -1, -1):
            ci = (c >> i) & 1
            z = self.all_zero((x[i],))
            if ci and z:
                return True
            if not ci and not z:
                return False
        return False

    def eq(self, a, b, w):
        if type(a) is int and type(b) is int:
            return a == b
        if type(a) is Cnt or type(b) is Cnt:
            if type(b) is Cnt:
                a, b = b, a
            if type(b) is int:
                return not self.lt(a, b, w, False) and self.lt(a, b + 1, w, False)
            raise Unknown('equality of counts')
        x, y = self.bits(a, w), self.bits(b, w)
        ls = []
        for p, q in zip(x, y):
            l = self.xor(p, q)
            ls.append(l)
        return self.all_zero(ls)

    def xor(self, p, q):
        if p == q:
            return 0
        if p == 0:
            return q
        if q == 0:
            return p
        if p == 1:
            return neg(q)
        if q == 1:
            return neg(p)
        if p == neg(q):
            return 1
        raise Unknown('xor of two data bits')

    def and_(self, p, q):
        if p == 0 or q == 0:
            return 0
        if p == 1:
            return q
        if q == 1 or p == q:
            return p
        if p == neg(q):
            return 0
        raise Unknown('and of two data bits')

    def or_(self, p, q):
        return neg(self.and_(neg(p), neg(q)))

    def width(self, ty):
        t = self.F.ty(ty or '')
        if t['k'] in ('int', 'uint', 'float'):
            return t['b'], t['k'] == 'int'
        if t['k'] == 'bool':
            return 1, False
        if t['k'] == 'char':
            return 32, False
        if t['k'] == 'ptr' or t['k'] == 'ref':
            return 64, False
        raise Unknown('integer type ' + str(ty))

    def wrap(self, x, w, signed):
        x &= (1 << w) - 1
        if signed and x >> (w - 1):
            x -= 1 << w
        return x

    def binop(self, op, a, b, ty, tyb):
        if op.endswith('Unchecked'):
            op = op[:-9]
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if type(a) in (Ref, Sl, BSl):
                raise Unknown('pointer comparison')
            w, s = self.width(ty)
            if op == 'Eq':
                return int(self.eq(a, b, w))
            if op == 'Ne':
                return int(not self.eq(a, b, w))
            if op == 'Lt':
                return int(self.lt(a, b, w, s))
            if op == 'Ge':
                return int(not self.lt(a, b, w, s))
            if op == 'Gt':
                return int(self.lt(b, a, w, s))
            return int(not self.lt(b, a, w, s))
        w, s = self.width(ty)
        if op == 'Cmp':
            x = 0 if self.eq(a, b, w) else (-1 if self.lt(a, b, w, s) else 1)
            return Agg('std::cmp::Ordering', x + 1, [])
        over = op.endswith('WithOverflow')
        if over:
            op = op[:-12]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        r, o = None, 0
        if type(a) is int and type(b) is int:
            if op == 'Add':
                r = a + b
            elif op == 'Sub':
                r = a - b
            elif op == 'Mul':
                r = a * b
            elif op == 'Div':
                if b == 0:
                    raise Panic('division by zero')
                r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            elif op == 'Rem':
                if b == 0:
                    raise Panic('division by zero')
                r = abs(a) % abs(b) * (-1 if a < 0 else 1)
            elif op == 'BitAnd':
                r = a & b
            elif op == 'BitOr':
                r = a | b
            elif op == 'BitXor':
                r = a ^ b
            elif op == 'Shl':
                o = 1 if not 0 <= b < w else 0
                r = a << (b % w)
                r, x = self.wrap(r, w, s), o
                return Agg('', 0, [r, x]) if over else r
            elif op == 'Shr':
                o = 1 if not 0 <= b < w else 0
                r = a >> (b % w)
                return Agg('', 0, [r, o]) if over else r
            else:
                raise Unknown('operator ' + op)
            o = int(not lo <= r <= hi)
            r = self.wrap(r, w, s)
            return Agg('', 0, [r, o]) if over else r
        if type(a) is Cnt or type(b) is Cnt:
            if op == 'Add' and type(b) is int:
                r = Cnt(a.b, a.mul, a.add + b, a.some)
            elif op == 'Add' and type(a) is int:
                r = Cnt(b.b, b.mul, b.add + a, b.some)
            elif op == 'Sub' and type(b) is int:
                r = Cnt(a.b, a.mul, a.add - b, a.some)
            elif op == 'Sub' and type(a) is int:
                r = Cnt(b.b, -b.mul, a - b.add, b.some)
            else:
                return self.binop(op + ('WithOverflow' if over else ''), self.conc(a), self.conc(b), ty, tyb)
            x, y = r.rng()
            if x < lo or y > hi:
                return self.binop(op + ('WithOverflow' if over else ''), self.conc(a), self.conc(b), ty, tyb)
            return Agg('', 0, [r, 0]) if over else r
        if op in ('Shl', 'Shr'):
            n = self.conc(b, 'shift')
            o = int(not 0 <= n < w)
            n %= w
            x = self.bits(a, w)
            if op == 'Shl':
                r = (0,) * n + x[:w - n]
            else:
                r = x[n:] + ((x[-1] if s else 0),) * n
            r = mk(r, w, s)
            return Agg('', 0, [r, o]) if over else r
        x, y = self.bits(a, w), self.bits(b, w)
        if op == 'BitAnd':
            return mk([self.and_(p, q) for p, q in zip(x, y)], w, s)
        if op == 'BitOr':
            return mk([self.or_(p, q) for p, q in zip(x, y)], w, s)
        if op == 'BitXor':
            return mk([self.xor(p, q) for p, q in zip(x, y)], w, s)
        if op == 'Add' and all(p == 0 or q == 0 for p, q in zip(x, y)):
            r = mk([self.or_(p, q) for p, q in zip(x, y)], w, s)
            return Agg('', 0, [r, 0]) if over else r
        if op == 'Mul' and type(b) is int and b > 0 and b & (b - 1) == 0 and not s:
            k = b.bit_length() - 1
            r = mk((0,) * k + x[:w - k], w, s)
            o = 0 if not k else int(not self.all_zero(x[w - k:]))
            return Agg('', 0, [r, o]) if over else r
        if op in ('Div', 'Rem') and type(b) is int and b > 0 and b & (b - 1) == 0 and not s:
            k = b.bit_length() - 1
            return mk(x[k:] + (0,) * k, w, s) if op == 'Div' else mk(x[:k] + (0,) * (w - k), w, s)
        raise Unknown('%s of data' % op)

    # ---- memory -----------------------------------------------------------------------
    def load(self, c, p):
        v = c.get()
        for i in p:
            v = self.sub(v, i)
        return v

    def sub(self, v, i):
        if type(v) is Agg:
            return v.f[i]
        if type(v) is list:
            return v[i]
        if v is None:
            raise Unknown('field of an unset place')
        if type(v) is Cell:
            return v.get()
        raise Unknown('field %r of %r' % (i, v))

    def store(self, c, p, val):
        if type(c) is OnePlace and p:
            return self.store(c.r.c, c.r.p + tuple(p[1:]), val)
        if not p:
            c.set(val)
            return
        v = c.get()
        if v is None:
            v = Agg('?', 0, [])
            c.set(v)
        for i in p[:-1]:
            n = self.sub(v, i)
            v = n
        i = p[-1]
        if type(v) is Agg:
            while len(v.f) <= i:
                v.f.append(None)
            v.f[i] = val
        elif type(v) is list:
            v[i] = val
        else:
            raise Unknown('store into %r' % (v,))

    def deref(self, v):
        if type(v) is Ref:
            return self.load(v.c, v.p)
        if type(v) is Agg and len(v.f) == 1:
            return self.deref(v.f[0])
        raise Unknown('deref of %r' % (v,))

    def place(self, fr, pl):
        c, p = fr[pl[0]], ()
        for e in pl[1]:
            if e == '*':
                v = self.load(c, p)
                while type(v) is Agg and len(v.f) == 1 and v.ty not in ('', '?'):
                    v = v.f[0]
                if type(v) is Ref:
                    c, p = v.c, v.p
                elif type(v) in (Sl, BSl, Str):
                    c, p = Cell(v), ('whole',)
                else:
                    raise Unknown('deref of %r' % (v,))
            elif e[0] == 'f':
                p = p + (e[1],)
            elif e[0] == 'd':
                pass
            elif e[0] == 'i':
                i = self.conc(fr[e[1]].get(), 'index')
                c, p = self.at(c, p, i)
            elif e[0] == 'ci':
                if p and p[-1] == 'whole':
                    s = c.get()
                    c, p = s.c, s.p + ((s.hi - e[1]) if e[2] else (s.lo + e[1]),)
                else:
                    n = len(self.load(c, p))
                    p = p + ((n - e[1]) if e[2] else e[1],)
            elif e[0] == 'ss':
                s = self.as_sl(c, p)
                c, p = Cell(Sl(s.c, s.p, s.lo + e[1], (s.hi - e[2]) if e[3] else s.lo + e[2])), ('whole',)
            else:
                raise Unknown('projection %r' % (e,))
        return c, p

    def as_sl(self, c, p):
        if p and p[-1] == 'whole':
            return c.get()
        return Sl(c, p, 0, len(self.load(c, p)))

    def at(self, c, p, i):
        if p and p[-1] == 'whole':
            s = c.get()
            if not 0 <= i < s.hi - s.lo:
                raise Panic('index out of range')
            return s.c, s.p + (s.lo + i,)
        if not 0 <= i < len(self.load(c, p)):
            raise Panic('index out of range')
        return c, p + (i,)

    def konst(self, k):
        kk = k['k']
        if kk == 'int':
            v = k['v']
            t = self.F.ty(k.get('ty') or '')
            if t['k'] == 'int':
                v = self.wrap(v, t['b'], True)
            return v
        if kk == 'fn':
            if k['id'] is None:
                raise Unknown('function constant ' + k['def'])
            return Fn(k['id'])
        if kk == 'bytes':
            if k['str']:
                return Str(k.get('v'))
            return Sl(Cell(list(k['v'])), (), 0, len(k['v']))
        if kk == 'agg':
            if self.F.ty(k['ty'])['k'] == 'array':
                return [self.konst(x) for x in k['f']]
            return Agg(k['ty'], k['var'], [self.konst(x) for x in k['f']])
        if kk == 'ref':
            v = self.konst(k['v'])
            if type(v) is Sl or type(v) is Str:
                return v
            return Ref(Cell(v))
        if kk == 'opq':
            return ('opq', k.get('n', ''), k['ty'])
        raise Unknown('constant %r' % (k,))

    def operand(self, fr, o):
        k = o[0]
        if k == 'c':
            c, p = self.place(fr, o[1])
            if p and p[-1] == 'whole':
                # an unsized place is never copied: a constant reference to a reference, kept as one
                if o[1][1] and o[1][1][-1] == '*':
                    c, p = self.place(fr, [o[1][0], o[1][1][:-1]])
                    v = self.load(c, p)
                    if type(v) in (Sl, Str):
                        return v
                raise Unknown('value of a slice')
            return dup(self.load(c, p))
        if k == 'm':
            c, p = self.place(fr, o[1])
            return self.load(c, p)
        if k == 'k':
            return self.konst(o[1])
        if k == 'rc':
            return 0
        raise Unknown('operand %r' % (o,))

    def op_ty(self, fn, o):
        key = id(o)
        t = self.tyc.get(key)
        if t is None:
            t = (self._op_ty(fn, o), o)
            self.tyc[key] = t
        return t[0]

    def _op_ty(self, fn, o):
        if o[0] == 'k':
            return o[1].get('ty')
        if o[0] not in ('c', 'm'):
            return None
        return self.place_ty(fn, o[1])

    def place_ty(self, fn, pl):
        t = fn['locals'][pl[0]]
        var = 0
        for p in pl[1]:
            ti = self.F.ty(t)
            if p == '*':
                if ti['k'] not in ('ref', 'ptr'):
                    return None
                t = ti['t']
            elif p[0] == 'f':
                if ti['k'] == 'adt' and var < len(ti['vs']) and p[1] < len(ti['vs'][var]['f']):
                    t = ti['vs'][var]['f'][p[1]][1]
                elif ti['k'] in ('tuple', 'closure') and p[1] < len(ti['ts']):
                    t = ti['ts'][p[1]]
                else:
                    return None
                var = 0
            elif p[0] == 'd':
                var = p[1]
            elif p[0] in ('i', 'ci'):
                if ti['k'] not in ('array', 'slice'):
                    return None
                t = ti['t']
            elif p[0] == 'ss':
                pass
            else:
                return None
        return t

    # ---- rvalues ------------------------------------------------------------------------
    def rvalue(self, fr, fn, r):
        k = r[0]
        if k == 'use':
            return self.operand(fr, r[1])
        if k == 'ref':
            c, p = self.place(fr, r[1])
            if p and p[-1] == 'whole':
                s = c.get()
                return s
            return Ref(c, p)
        if k == 'bin':
            a = self.operand(fr, r[2])
            b = self.operand(fr, r[3])
            return self.binop(r[1], a, b, self.op_ty(fn, r[2]), self.op_ty(fn, r[3]))
        if k == 'agg':
            fs = [self.operand(fr, o) for o in r[4]]
            if r[1] in ('adt', 'closure'):
                return Agg(r[2], r[3], fs)
            if r[1] == 'array':
                return fs
            if r[1] == 'rawptr':
                return fs[0]
            return Agg('', 0, fs)
        if k == 'discr':
            c, p = self.place(fr, r[1])
            v = self.load(c, p)
            if type(v) is Agg:
                if v.ty == 'std::cmp::Ordering':
                    return v.var - 1
                t = self.F.ty(v.ty)
                if t['k'] == 'adt' and t['enum']:
                    return int(t['vs'][v.var]['d'])
                return v.var
            raise Unknown('discriminant of %r' % (v,))
        if k == 'un':
            a = self.operand(fr, r[2])
            if r[1] == 'PtrMetadata':
                if type(a) in (Sl, BSl):
                    return a.hi - a.lo
                if type(a) is Ref:
                    return len(self.deref(a))
                raise Unknown('length of %r' % (a,))
            w, s = self.width(self.op_ty(fn, r[2]))
            if r[1] == 'Not':
                return mk([neg(x) for x in self.bits(a, w)], w, s)
            if type(a) is int:
                return self.wrap(-a, w, s)
            raise Unknown('negation of data')
        if k == 'cast':
            return self.cast(fr, fn, r)
        if k == 'rep':
            v = self.operand(fr, r[1])
            n = r[2]
            if not isinstance(n, int):
                n = int(n)
            return [dup(v) for _ in range(n)]
        raise Unknown('rvalue ' + k)

    def cast(self, fr, fn, r):
        kind, ty = r[1], r[3]
        v = self.operand(fr, r[2])
        if 'Unsize' in kind:
            if type(v) is Ref:
                x = self.load(v.c, v.p)
                if type(x) is list:
                    return Sl(v.c, v.p, 0, len(x))
            return v
        if kind.startswith('IntToInt'):
            w, s = self.width(ty)
            sty = self.op_ty(fn, r[2])
            if type(v) is int:
                return self.wrap(v, w, s)
            if type(v) is Cnt:
                lo, hi = v.rng()
                if lo >= 0 and hi >> w == 0:
                    return v
                return self.wrap(self.conc(v), w, s)
            sw, ss = self.width(sty)
            x = self.bits(v, sw)
            if w > sw:
                x = x + ((x[-1] if ss else 0),) * (w - sw)
            return mk(x[:w], w, s)
        if kind.startswith('Transmute'):
            return self.transmute(v, self.op_ty(fn, r[2]), ty)
        if kind.startswith('PtrToPtr') or kind.startswith('PointerCoercion') or kind.startswith('Subtype'):
            return v
        raise Unknown('cast ' + kind)

    def transmute(self, v, sty, ty):
        if sty == ty:
            return v
        a, b = self.F.ty(sty or ''), self.F.ty(ty)
        if ty.startswith('std::option::Option<std::num::NonZero<') and type(v) in (int, Bits, Cnt):
            if not self.truth(v):
                return Agg('std::option::Option', 0, [])
            return Agg('std::option::Option', 1, [Agg('std::num::NonZero', 0, [Agg('', 0, [v])])])
        if ty.startswith('std::num::NonZero<') and type(v) in (int, Bits, Cnt):
            return Agg('std::num::NonZero', 0, [Agg('', 0, [v])])
        def num(t):
            return t['k'] in ('int', 'uint', 'float')
        if num(a) and b['k'] == 'array':
            x = self.bits(v, a['b'])
            return [mk(x[i:i + 8]) for i in range(0, a['b'], 8)]
        if a['k'] == 'array' and num(b):
            x = ()
            for e in v:
                x += self.bits(e, 8)
            return mk(x, b['b'], b['k'] == 'int')
        if num(a) and num(b):
            return mk(self.bits(v, a['b']), b['b'], b['k'] == 'int')
        if a['k'] in ('ref', 'ptr') and b['k'] in ('ref', 'ptr'):
            return v
        if num(a) and b['k'] == 'adt' and b['enum'] and type(v) is int:
            for i, x in enumerate(b['vs']):
                if int(x['d']) == v:
                    return Agg(ty, i, [])
        return v

    # ---- functions --------------------------------------------------------------------------
    def exec(self, fn, args):
        if not fn.get('blocks'):
            raise Unknown('no body for ' + fn['def'])
        fr = [Cell() for _ in fn['locals']]
        for i, a in enumerate(args):
            fr[i + 1].v = a
        blocks = fn['blocks']
        fid = fn['id']
        bb = 0
        while True:
            b = blocks[bb]
            self.visited.add((fid, bb))
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unknown('does not end')
            for s in b['s']:
                if s[0] == '=':
                    v = self.rvalue(fr, fn, s[2])
                    pl = s[1]
                    if not pl[1]:
                        fr[pl[0]].v = v
                    else:
                        c, p = self.place(fr, pl)
                        self.store(c, p, v)
                elif s[0] == 'sd':
                    c, p = self.place(fr, s[1])
                    v = self.load(c, p)
                    self.store(c, p, Agg(v.ty if type(v) is Agg else '?', s[2], v.f if type(v) is Agg else []))
            t = b['t']
            k = t[0]
            if k == 'goto':
                bb = t[1]
            elif k == 'ret':
                return fr[0].v
            elif k == 'call':
                fv = self.operand(fr, t[1])
                av = [self.operand(fr, o) for o in t[2]]
                if type(fv) is not Fn:
                    r = self.apply(fv, av)
                else:
                    r = self.call(self.fns[fv.id], av, fn, t)
                if t[4] is None:
                    raise Panic('panics in %s' % fn['def'])
                pl = t[3]
                if not pl[1]:
                    fr[pl[0]].v = r
                else:
                    c, p = self.place(fr, pl)
                    self.store(c, p, r)
                bb = t[4]
            elif k == 'switch':
                v = self.operand(fr, t[1])
                if type(v) is int:
                    w = self.F.ty(self.op_ty(fn, t[1]) or '').get('b')
                    bb = t[3]
                    for n, tgt in t[2]:
                        if n == v or (v < 0 and w and n == v + (1 << w)):
                            bb = tgt
                            break
                else:
                    w, s = self.width(self.op_ty(fn, t[1]))
                    bb = t[3]
                    for n, tgt in t[2]:
                        if self.eq(v, self.wrap(n, w, s) if type(v) is not Bits else n, w):
                            bb = tgt
                            break
            elif k == 'assert':
                v = self.operand(fr, t[1])
                if self.truth(v) != bool(t[2]):
                    raise Panic('%s in %s at %s' % (t[4], fn['def'], t[6]))
                bb = t[3]
            elif k == 'drop':
                bb = t[2]
            elif k == 'unreach':
                raise Infeasible
            else:
                raise Unknown('terminator ' + k)

    def apply(self, f, args):
        """call a closure or function value"""
        g = f
        while type(g) is Ref:
            g = self.load(g.c, g.p)
        if type(g) is Fn:
            return self.call(self.fns[g.id], args, None, None)
        if type(g) is Agg and self.F.ty(g.ty)['k'] == 'closure':
            body = self.closure_body(g)
            t1 = self.F.ty(body['locals'][1])
            selfv = (f if type(f) is Ref else Ref(Cell(g))) if t1['k'] == 'ref' else g
            if type(selfv) is Ref and type(self.load(selfv.c, selfv.p)) is Ref:
                selfv = self.load(selfv.c, selfv.p)
            return self.exec(body, [selfv] + args)
        raise Unknown('call of %r' % (f,))

    def closure_body(self, g):
        if isinstance(g.var, int) and 0 < g.var < len(self.fns) and self.fns[g.var].get('closure_of'):
            return self.fns[g.var]
        by = self.by_closure
        if by is None:
            by = self.by_closure = {}
            for f in self.fns:
                if f.get('closure_of') and f.get('blocks'):
                    ty = f['locals'][1]
                    x = self.F.ty(ty)
                    by.setdefault(x['t'] if x['k'] == 'ref' else ty, f)
        if g.ty in by:
            return by[g.ty]
        t = self.F.ty(g.ty)
        cands = [f for f in self.fns if f.get('closure_of') and f.get('raw') and f['def'] == norm_def(t.get('def', ''))
                 and f.get('blocks')]
        if len(cands) == 1:
            return cands[0]
        raise Unknown('closure ' + g.ty)

    def call(self, callee, args, fn, t):
        h = self.hc.get(callee['id'])
        if h is None:
            h = self.find(callee)
            self.hc[callee['id']] = h
        if h is not False:
            r = h(self, callee, args)
            if r is not NotImplemented:
                self.models.add(callee['def'])
                return r
        if callee.get('closure_of') or callee['kind'] == 'closure_once' or \
                callee.get('trait') in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            rest = args[1:]
            if len(rest) == 1 and type(rest[0]) is Agg and rest[0].ty in ('', '()'):
                rest = rest[0].f
            return self.apply(args[0], rest)
        return self.exec(callee, args)

    def find(self, callee):
        import provmodel
        d = callee['def']
        tr = callee.get('trait')
        own = callee.get('crate') == 'deku' or str(callee.get('crate')).startswith('corpus')   # never a library function
        h = provmodel.TABLE.get(d) if not own else None
        if h is None and tr:
            h = provmodel.TRAITS.get(tr)
        if h is None and not own:
            for rx, hh in provmodel.REGEX:
                if rx.search(d):
                    h = hh
                    break
        return h if h is not None else False

    # ---- iterators ----------------------------------------------------------------------------
    def it_next(self, x):
        if type(x) is Ref:
            return self.it_next(self.load(x.c, x.p))
        if type(x) in (It, Wrap, Ones):
            return x.next(self)
        if type(x) is Agg and 'Range' in x.ty and 'Inclusive' not in x.ty:
            a, b = self.conc(x.f[0]), self.conc(x.f[1])
            if a >= b:
                return None
            x.f[0] = a + 1
            return (a,)
        raise Unknown('iterator %r' % (x,))

    def it_back(self, x):
        if type(x) is Ref:
            return self.it_back(self.load(x.c, x.p))
        if type(x) in (It, Wrap, Ones):
            return x.next_back(self)
        if type(x) is Agg and 'Range' in x.ty and 'Inclusive' not in x.ty:
            a, b = self.conc(x.f[0]), self.conc(x.f[1])
            if a >= b:
                return None
            x.f[1] = b - 1
            return (b - 1,)
        raise Unknown('iterator %r' % (x,))

    def it_size(self, x):
        if type(x) is Ref:
            return self.it_size(self.load(x.c, x.p))
        if type(x) in (It, Wrap, Ones):
            return x.size(self)
        if type(x) is Agg and 'Range' in x.ty:
            return max(0, self.conc(x.f[1]) - self.conc(x.f[0]))
        raise Unknown('iterator %r' % (x,))

    def is_it(self, x):
        while type(x) is Ref:
            x = self.load(x.c, x.p)
        return type(x) in (It, Wrap, Ones) or (type(x) is Agg and x.ty.split('<')[0].split('::')[-1] == 'Range')

    # ---- bits of bit slices -----------------------------------------------------------------------
    def bloc(self, s, i):
        if not 0 <= i < s.hi - s.lo:
            raise Panic('bit index out of range')
        q = s.lo + i
        return q // 8, (7 - q % 8) if s.o == 'M' else q % 8

    def bget(self, s, i):
        byte, k = self.bloc(s, i)
        a = self.load(s.c, s.p)
        return self.bits(a[byte], 8)[k]

    def bset(self, s, i, l):
        byte, k = self.bloc(s, i)
        a = self.load(s.c, s.p)
        x = list(self.bits(a[byte], 8))
        x[k] = l
        a[byte] = mk(tuple(x))

    def bvec(self, s):
        a = self.load(s.c, s.p)
        out = []
        n = s.hi - s.lo
        i = 0
        cur, byte = None, -1
        for q in range(s.lo, s.hi):
            if q // 8 != byte:
                byte = q // 8
                cur = self.bits(a[byte], 8)
            out.append(cur[7 - q % 8] if s.o == 'M' else cur[q % 8])
        return out

    def bput(self, s, ls):
        for i, l in enumerate(ls):
            self.bset(s, i, l)
