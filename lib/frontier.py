"""Frontier of the analysis: the opaque stream, opaque field types, and what counts as an event."""
import re
import terms as T
import stdmodel as S
from terms import ZERO, ONE, const, add, as_lin, from_lin

IO_RE = re.compile(r'sym::Io as .*>::(\w+)$')


def bump(st, name, n):
    g = ('g', name)
    st.env[g] = add(st.env.get(g, ZERO), n)


def io_handler(en, st, callee, args, site, depth):
    m = IO_RE.search(callee['def'])
    if not m:
        return None
    nm = m.group(1)
    out = []
    err = ('ioerr', nm, site)
    s2 = st.copy()
    s2.emit(('io', nm, 'ERR', err))
    s1 = st.copy()
    if nm in ('read_exact', 'write_all'):
        b = S.seqref(en, st, args[1])
        n = en.seq_len(st, b)
        c = en.argval(st, b) if nm == 'write_all' else ()
        s1.emit(('io', nm, from_lin(n), c))
        bump(s1, nm, n)
        if nm == 'read_exact':
            S.fill_seq(en, s1, b, ('io', site), site)
        out.append((s1, S.ok()))
    elif nm in ('read_vectored', 'write_vectored', 'read_to_end', 'read_to_string'):
        r = ('ion', nm, site)
        s1.emit(('io', nm, r) + tuple(en.argval(st, a) for a in args[1:]))
        bump(s1, 'write_all' if nm == 'write_vectored' else 'read_exact', r)
        out.append((s1, S.ok(r)))
    elif nm in ('read', 'write'):
        b = S.seqref(en, st, args[1])
        r = ('ion', nm, site)
        s1.emit(('io', nm, r))
        bump(s1, 'read_exact' if nm == 'read' else 'write_all', r)
        if nm == 'read':
            S.fill_seq(en, s1, b, ('io', site), site)
        out.append((s1, S.ok(r)))
    elif nm == 'seek':
        r = ('newpos', site)
        s1.emit(('io', nm, args[1], r))
        # relative accounting restarts at a seek
        s1.env[('g', 'pre')] = s1.env.get(('g', 'read_exact'), ZERO)
        s1.env[('g', 'read_exact')] = ZERO
        s1.env[('g', 'seeked')] = ('seekto', args[1], r)
        out.append((s1, S.ok(r)))
    else:
        s1.emit(('io', nm, 'OK') + tuple(en.argval(st, a) for a in args[1:]))
        out.append((s1, S.ok(('ev', site, nm))))
    out.append((s2, S.err(err)))
    return out


class Shape:
    """field indices of the Reader / Writer / leftover types, looked up by name"""

    def __init__(self, F):
        self.F = F
        self.reader = self.find('Reader', 'bits_read')
        self.writer = self.find('Writer', 'bits_written')
        self.leftover = None
        for n, t in F.types.items():
            if t['k'] == 'adt' and re.search(r'(^|::)Leftover$', n):
                self.leftover = (n, t)
        self.bbv = None
        for n, t in F.types.items():
            if t['k'] == 'adt' and re.search(r'(^|::)BoundedBitVec<', n):
                self.bbv = (n, t)

    def find(self, base, field):
        for n, t in self.F.types.items():
            if t['k'] == 'adt' and not t['enum'] and re.search(r'(^|::)%s<' % base, n):
                if field in [f[0] for f in t['vs'][0]['f']]:
                    return (n, t)
        return None

    def idx(self, which, field):
        t = getattr(self, which)
        if t is None:
            return None
        for i, f in enumerate(t[1]['vs'][0]['f']):
            if f[0] == field:
                return i
        return None

    def fld(self, en, st, v, which, field):
        i = self.idx(which, field)
        if i is None:
            return None
        return en.proj(st, v, ('f', None, i))

    def discr(self, st, v):
        """known variant index of an enum value, or None"""
        if v[0] == 'agg':
            return v[2]
        k = st.facts.get(('is', ('discr', v)))
        return k

    def bits_size(self, en, st, b):
        for i, f in enumerate(self.bbv[1]['vs'][0]['f']):
            if f[0] == 'size':
                return as_lin(en.proj(st, b, ('f', None, i)))
        return as_lin(('bbvlen', b))

    def variant_field(self, en, st, v, var, i=0):
        if v[0] == 'agg':
            return v[3][i]
        return en.proj(st, v, ('f', var, i))

    def leftover_len(self, en, st, opt):
        """bit length of an Option<Leftover> value as an affine term"""
        d = self.discr(st, opt)
        if d == 0:
            return ZERO
        if d is None:
            # a single negative fact decides a two-variant enum
            ex = st.facts.get(('isnt', ('discr', opt)), frozenset())
            if 1 in ex:
                return ZERO
            if 0 in ex:
                d = 1
            else:
                return as_lin(('lolen', opt))
        inner = self.variant_field(en, st, opt, 1)
        names = [v['n'] for v in self.leftover[1]['vs']]
        d2 = self.discr(st, inner)
        if d2 is None:
            ex = st.facts.get(('isnt', ('discr', inner)), frozenset())
            rest = [i for i in range(len(names)) if i not in ex]
            if len(rest) == 1:
                d2 = rest[0]
        if d2 is None:
            return as_lin(('lolen', opt))
        if names[d2] == 'Byte':
            return const(8)
        return self.bits_size(en, st, self.variant_field(en, st, inner, d2))


def find_type(F, rx):
    for n, t in F.types.items():
        if re.search(rx, n) and t['k'] == 'adt':
            return n, t
    return None, None


class Errs:
    """variant indices of DekuError and ErrorKind"""

    def __init__(self, F):
        n, t = find_type(F, r'(^|::)DekuError$')
        self.ty = n
        self.var = {v['n']: i for i, v in enumerate(t['vs'])} if t else {}
        n, t = find_type(F, r'(^|::)ErrorKind$')
        self.kind = {v['n']: int(v['d']) for v in t['vs']} if t else {}

    def name(self, v):
        """variant name of a DekuError value"""
        if v[0] == 'agg':
            for k, i in self.var.items():
                if i == v[2]:
                    return k
        return None


def result_of(v):
    """('ok', payload) / ('err', payload) / None of a Result value"""
    if v[0] == 'agg' and len(v[3]) == 1:
        return ('ok' if v[2] == 0 else 'err', v[3][0])
    return None
