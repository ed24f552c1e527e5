"""Specifications of derived types, and an oracle of what reading / writing / updating them must do.

A specification is data (fields and their attributes).  From it two things are derived independently
of each other: the Rust source of the type (analysed after macro expansion, as compiled MIR), and the
set of abstract behaviours the documentation of the attributes promises.  The oracle knows nothing
about the macro's code.
"""
import re

ENDIAN = {'little': 'Endian.Little', 'big': 'Endian.Big'}
ORDER = {'lsb': 'Order.Lsb0', 'msb': 'Order.Msb0'}


class U:
    """call of an opaque user function; kind: n (usize), s (i64), b (bool), l (Leaf), e (Endian), o (Order), m (map), r (reader), w (writer)"""

    def __init__(self, kind, k, *args, leaf=None, raw=None):
        self.kind, self.k, self.args, self.leaf, self.raw = kind, k, args, leaf, raw
        self.loose = False

    def weak(self):
        """the same value spelled with the loosest-binding operator, so that an expansion that does not keep it together changes it"""
        u = U(self.kind, self.k, *self.args, leaf=self.leaf, raw=self.raw)
        u.loose = True
        return u

    def rust(self):
        t = self.rust_()
        if not self.loose:
            return t
        return 'false || ' + t if self.kind == 'b' else t + ' | 0'

    def rust_(self):
        a = ', '.join(x.rust() if isinstance(x, (U, Raw)) else str(x) for x in self.args)
        t = '(%s,)' % a if self.args else '()'
        if self.kind == 'r':
            return 'crate::sym::ur::<%d, %d, _, _>(deku::reader, %s)' % (self.k, self.leaf, t)
        if self.kind == 'w':
            return 'crate::sym::uw::<%d, _, _>(deku::writer, %s)' % (self.k, t)
        g = '%d, _' % self.k if self.leaf is None else '%d, %d, _' % (self.k, self.leaf)
        return 'crate::sym::u%s::<%s>(%s)' % (self.kind, g, t)

    def canon(self, p):
        a = ','.join(p.val(x) for x in self.args)
        return 'u%s%d(%s)' % (self.kind, self.k, a)


class X(int):
    """a constant spelled as an expression"""

    def __new__(cls, n, text):
        x = int.__new__(cls, n)
        x.text = text
        return x


class F:
    def __init__(self, name, ty, **at):
        self.name, self.ty, self.at = name, ty, at
        if 'map' in at and 'src' not in at:
            at['map'].src = at['src'] = 'Leaf<9>'

    @property
    def mty(self):
        return self.at.get('model', self.ty)

    def get(self, k, d=None):
        return self.at.get(k, d)


def L(k):
    return 'Leaf<%d>' % k


class Path:
    """one abstract behaviour under construction"""

    def __init__(self, side):
        self.side = side
        self.ev = []
        self.facts = {}
        self.env = {}
        self.res = None
        self.last = '-'
        self.off = None             # the offset a field's own expressions see: where the field starts
        self.upd = {}

    def copy(self):
        q = Path(self.side)
        q.ev, q.facts, q.env, q.res, q.last, q.off, q.upd = list(self.ev), dict(self.facts), dict(self.env), self.res, self.last, self.off, dict(self.upd)
        return q

    def val(self, x):
        if isinstance(x, U):
            return x.canon(self)
        if isinstance(x, int):
            return str(x)
        if x == 'deku::bit_offset':
            return 'bits@' + (self.off or self.last)
        if x == 'deku::byte_offset':
            return 'div(bits@%s,8)' % (self.off or self.last)
        return self.env.get(x.lstrip('*&'), x) if isinstance(x, str) else x.canon(self)

    def event(self, *what, stream=True):
        """(ok path, error path)"""
        n = len(self.ev)
        a, b = self.copy(), self.copy()
        a.ev.append(what + ('OK',))
        if stream:
            a.last = str(n)
        b.ev.append(what + ('ERR',))
        b.res = ('e#%d' % n)
        return a, b

    def fork(self, atom):
        """(true path, false path) on a boolean atom"""
        out = []
        for t in (True, False):
            q = self.copy()
            if atom in q.facts:
                if q.facts[atom] != t:
                    q = None
            else:
                q.facts[atom] = t
            out.append(q)
        return out


class Ty:
    """a derived struct or enum"""

    def __init__(self, name, fields=None, variants=None, tuple_=False, needs='', derive='read,write', generics='', where='', attrs='', extra='', group='', **at):
        self.name, self.fields, self.variants, self.tuple_ = name, fields, variants, tuple_
        self.needs = set(x for x in needs.split(',') if x)
        self.derive = set(derive.split(','))
        self.generics, self.where, self.rawattrs, self.extra = generics, where, attrs, extra
        self.at = at
        self.group = {group} if isinstance(group, str) else set(group)

    def get(self, k, d=None):
        return self.at.get(k, d)

    # -- Rust source -------------------------------------------------------------
    def rust(self):
        ds = []
        for d, m in (('read', 'DekuRead'), ('write', 'DekuWrite'), ('size', 'DekuSize')):
            if d in self.derive:
                ds.append(m)
        o = []
        cf = cfg_of(self.needs)
        if cf:
            o.append('#[cfg(%s)]' % cf)
        if self.extra:
            o.append(self.extra)
            if cf:
                o.append('#[cfg(%s)]' % cf)
        temp = any(f.get('temp') for f in self.allfields())
        if temp:
            o.append('#[deku_derive(%s)]' % ', '.join(ds))
        else:
            o.append('#[derive(%s)]' % ', '.join(ds))
        at = attr_list(self.at, top=True)
        if at:
            o.append('#[deku(%s)]' % at)
        if self.rawattrs:
            o.append(self.rawattrs)
        if self.fields is not None:
            o.append('pub struct %s%s %s' % (self.name, self.generics, body(self.fields, self.tuple_, self.where, True)))
        else:
            o.append('pub enum %s%s %s {' % (self.name, self.generics, self.where))
            for v in self.variants:
                a = attr_list(v.at)
                o.append(('    #[deku(%s)]\n' % a if a else '') + '    %s%s%s,' % (
                    v.name, body(v.fields, v.tuple_, '', False) if v.fields else '', ' = %s' % v.disc if v.disc is not None else ''))
            o.append('}')
        args = self.get('ctx')
        ct = ''
        if args:
            names = [x.split(':')[0].strip() for x in args.split(',')]
            types = [x.split(':')[1].strip() for x in args.split(',')]
            ct = ', ctx: ' + (types[0] if len(types) == 1 else '(%s)' % ', '.join(types))
        g1 = self.at.get('inst', '')
        T = self.name + g1
        cfa = '#[cfg(%s)]\n' % cf if cf else ''
        c = 'ctx' if ct else '()'
        if 'read' in self.derive:
            o.append('%spub fn r_%s(r: &mut Reader<Io>%s) -> Result<%s, DekuError> { <%s as DekuReader<%s>>::from_reader_with_ctx(r, %s) }' % (cfa, self.name, ct, T, T, ctx_ty(ct), c))
            if self.get('ctx_default'):
                o.append('%spub fn rd_%s(r: &mut Reader<Io>) -> Result<%s, DekuError> { <%s as DekuReader>::from_reader_with_ctx(r, ()) }' % (cfa, self.name, T, T))
        if 'write' in self.derive:
            o.append('%spub fn w_%s(w: &mut Writer<Io>, v: &%s%s) -> Result<(), DekuError> { <%s as DekuWriter%s>::to_writer(v, w, %s) }' % (cfa, self.name, T, ct, T, '<%s>' % ctx_ty(ct).split(', ', 1)[1] if ct else '', c))
            if self.get('ctx_default'):
                o.append('%spub fn wd_%s(w: &mut Writer<Io>, v: &%s) -> Result<(), DekuError> { <%s as DekuWriter>::to_writer(v, w, ()) }' % (cfa, self.name, T, T))
            if not self.get('noupd'):
                o.append('%spub fn u_%s(v: &mut %s) -> Result<(), DekuError> { v.update() }' % (cfa, self.name, T))
        idt = self.deku_id_type()
        if idt:
            o.append("%spub fn u_id_%s(v: &%s) -> Result<%s, DekuError> { <%s as DekuEnumExt<%s>>::deku_id(v) }" % (cfa, self.name, T, idt, T, idt))
        if 'size' in self.derive:
            o.append('%spub fn s_%s() -> usize { <%s as DekuSize>::SIZE_BITS }' % (cfa, self.name, T))
            o.append('%spub fn s_B_%s() -> usize { const { match <%s as DekuSize>::SIZE_BYTES { Some(n) => n, None => usize::MAX } } }' % (cfa, self.name, T))
        return '\n'.join(o)

    def deku_id_type(self):
        """the type of the identifier query, for the enums that have one"""
        if self.variants is None or self.generics or 'read' not in self.derive:
            return None
        if self.get('id_type'):
            return self.get('id_type')
        if self.get('id') and self.get('ctx'):
            for x in self.get('ctx').split(','):
                n, ty_ = [y.strip() for y in x.split(':')]
                if n == str(self.get('id')):
                    return ty_
        return None

    def allfields(self):
        if self.fields is not None:
            return self.fields
        return [f for v in self.variants for f in v.fields or []]


class V:
    def __init__(self, name, fields=None, tuple_=True, disc=None, **at):
        self.name, self.fields, self.tuple_, self.disc, self.at = name, fields or [], tuple_, disc, at

    def get(self, k, d=None):
        return self.at.get(k, d)


def ctx_ty(ct):
    return "'_, " + ct.split(': ', 1)[1] if ct else "'_, ()"


def cfg_of(needs):
    xs = []
    for n in sorted(needs):
        if n == 'alloc':
            xs.append('any(feature = "alloc", feature = "std")')
        elif n == '!bits':
            xs.append('not(feature = "bits")')
        else:
            xs.append('feature = "%s"' % n)
    return xs[0] if len(xs) == 1 else 'all(%s)' % ', '.join(xs) if xs else ''


STRS = ('count', 'bits_read', 'bytes_read', 'until', 'map', 'reader', 'writer', 'cond', 'default', 'assert_', 'assert_eq', 'ctx', 'update', 'temp_value',
        'pad_bits_before', 'pad_bytes_before', 'pad_bits_after', 'pad_bytes_after', 'seek_from_current', 'seek_from_end', 'seek_from_start', 'ctx_default',
        'bits', 'bytes', 'endian', 'bit_order', 'id_endian', 'id_type', 'id', 'id_pat')
MODEL_ONLY = ('inst', 'model', 'noupd', 'src', 'update_all', 'sizes', 'id_ty')


def attr_list(at, top=False):
    out = []
    for k, v in at.items():
        if k in MODEL_ONLY:
            continue
        key = k.rstrip('_')
        if v is True:
            out.append(key)
        elif k == 'magic':
            out.append('magic = b"%s"' % ''.join('\\x%02x' % b for b in v))
        elif k == 'skip':
            out.append('skip' if v == 'all' else 'skip(%s)' % v)
        elif isinstance(v, X):
            out.append('%s = "%s"' % (key, v.text))
        elif k in ('bits', 'bytes') and isinstance(v, int):
            out.append('%s = %d' % (key, v))
        elif k == 'id' and isinstance(v, int) and not isinstance(v, bool):
            out.append('id = %d' % v)
        elif k == 'id' and isinstance(v, bytes):
            out.append('id = b"%s"' % v.decode())
        elif isinstance(v, (tuple, list)):
            out.append('%s = "%s"' % (key, ', '.join(x.rust() if isinstance(x, (U, Raw)) else str(x) for x in v)))
        elif isinstance(v, U):
            out.append('%s = "%s"' % (key, v.rust()))
        elif isinstance(v, Raw):
            out.append('%s = "%s"' % (key, v.text))
        elif isinstance(v, Cl):
            out.append('%s = "%s"' % (key, v.rust()))
        else:
            out.append('%s = "%s"' % (key, v))
    return ', '.join(out)


class Raw:
    """literal Rust text with the canonical value the oracle gives it"""

    def __init__(self, text, canon):
        self.text, self.c = text, canon

    def rust(self):
        return self.text

    def canon(self, p):
        return self.c


class Cl:
    """closure attribute: until (bool of one element) or map"""

    def __init__(self, kind, k, leaf=None, *caps):
        self.kind, self.k, self.leaf, self.caps = kind, k, leaf, caps

    def rust(self):
        if self.kind == 'b':
            return '|x: &_| crate::sym::ub::<%d, _>((%s,))' % (self.k, ', '.join(('x',) + self.caps))
        return '|x: %s| crate::sym::um::<%d, %d, _>((%s,))' % (self.src, self.k, self.leaf, ', '.join(('x',) + self.caps))


def body(fields, tup, where, pub):
    if fields is None or not fields:
        return (where + ';') if pub else ''
    ls = []
    for f in fields:
        a = attr_list(f.at)
        ls.append(('#[deku(%s)] ' % a if a else '') + ('pub ' if pub else '') + ('' if tup else f.name + ': ') + f.ty)
    if tup:
        return '(%s)%s' % (', '.join(ls), (' ' + where + ';') if pub else '')
    return '%s { %s }' % (where, ', '.join(ls))


# ---- oracle -------------------------------------------------------------------
def each(ps, f):
    out = []
    for p in ps:
        if p.res is not None:
            out.append(p)
        else:
            out += [q for q in f(p) if q is not None]
    return out


def canon_ctx(items):
    if not items:
        return '()'
    if len(items) == 1:
        return items[0]
    return '(' + ','.join(items) + ')'


def endian_of(v, p):
    return ENDIAN.get(v) or p.val(v)


def order_of(v, p):
    return ORDER.get(v) or p.val(v)


def args_of(p, endian, bits, bytes_, order, ctx):
    it = []
    if endian:
        it.append(endian_of(endian, p))
    if bits:
        it.append('BitSize(%s)' % p.val(bits))
    if bytes_:
        it.append('ByteSize(%s)' % p.val(bytes_))
    if order:
        it.append(order_of(order, p))
    for c in ctx or ():
        it.append(p.val(c))
    return it


def do_seek(ps, at, side):
    for k, w in (('seek_from_current', 'Current'), ('seek_from_end', 'End'), ('seek_from_start', 'Start')):
        if k in at:
            def f(p, k=k, w=w):
                e = at[k]
                v = p.val(e)
                ps = [p]
                if isinstance(e, U) and (e.kind == 'n' and w != 'Start' or e.kind == 's' and w == 'Start'):
                    a, b = p.fork('fits(%s,%s)' % (v, 'u64' if w == 'Start' else 'i64'))
                    if b:
                        b.res = '?'          # any error, no panic
                    ps = [q for q in (a, b) if q]
                out = []
                for q in ps:
                    if q.res:
                        out.append(q)
                        continue
                    a, b = q.event('seek', '%s(%s)' % (w, v))
                    b.res = 'Io(kind(%s))' % b.res
                    out += [a, b]
                return out
            ps = each(ps, f)
    if at.get('seek_rewind'):
        def f(p):
            a, b = p.event('seek', 'Start(0)')
            b.res = 'Io(kind(%s))' % b.res
            return [a, b]
        ps = each(ps, f)
    return ps


def do_magic(ps, m, side):
    if not m:
        return ps
    if side == 'w':
        return each(ps, lambda p: p.event('write', 'bytes', 'b' + m.hex(), '()'))
    for b in m:
        def f(p, b=b):
            n = len(p.ev)
            a, e = p.event('read', 'u8', '()')
            x, y = a.fork('#%d==%d' % (n, b))
            y.res = 'Parse'
            return [x, y, e]
        ps = each(ps, f)
    return ps


def do_pad(ps, at, when, order, side, bits):
    pb, py = at.get('pad_bits_' + when), at.get('pad_bytes_' + when)
    if pb is None and py is None:
        return ps

    def f(p):
        bad = []
        scaled = bits and (isinstance(py, U) or py is not None and isinstance(pb, U))
        if scaled:
            # an amount that does not fit in bits
            bad.append(p.copy())
            bad[-1].res = '??'
        for x in (pb, py):
            if isinstance(x, U) and x.kind == 's':
                p, b = p.fork('fits(%s,usize)' % p.val(x))
                if b and not scaled:
                    b.res = '?'
                    bad.append(b)
                if not p:
                    return bad
        if bits:
            n = lincanon([(pb, 1)] if pb is not None else [], [(py, 8)] if py is not None else [], p)
            o = order_of(order, p) if order else ('Order.Msb0' if side == 'r' else '-')
        else:
            n, o = lincanon([(py, 1)], [], p), '-'
        last = p.ev[-1] if p.ev else None
        if last and last[0] == 'pad' and last[2] == o:
            # padding next to padding: one run of the summed size
            p.ev = p.ev[:-1]
            n = linsum(last[1], n)
        return tuple(bad) + tuple(p.event('pad', n, o))
    return each(ps, f)


def lincanon(a, b, p):
    c = 0
    terms = {}
    for x, k in a + b:
        v = p.val(x)
        if v.lstrip('-').isdigit():
            c += int(v) * k
        else:
            terms[v] = terms.get(v, 0) + k
    parts = ['%d*%s' % (k, t) if k != 1 else t for t, k in sorted(terms.items())]
    if c or not parts:
        parts.append(str(c))
    return '+'.join(parts)


def linsum(a, b):
    c, terms = 0, {}
    for x in a.split('+') + b.split('+'):
        m = re.fullmatch(r'(?:(\d+)\*)?(.*)', x)
        if x.lstrip('-').isdigit():
            c += int(x)
        else:
            terms[m.group(2)] = terms.get(m.group(2), 0) + int(m.group(1) or 1)
    parts = ['%d*%s' % (k, t) if k != 1 else t for t, k in sorted(terms.items())]
    return '+'.join(parts + ([str(c)] if c or not parts else []))


def limit_of(p, f):
    for k, n in (('count', 'Count(%s)'), ('bytes_read', 'ByteSize(ByteSize(%s))'), ('bits_read', 'BitSize(BitSize(%s))')):
        if f.get(k) is not None:
            return 'Limit.' + n % p.val(f.get(k))
    if f.get('until') is not None:
        c = f.get('until')
        return 'Limit.Until(λ{ub%d(%s)})' % (c.k, ','.join(('x',) + tuple(p.val(x) for x in c.caps)))
    if f.get('read_all'):
        return 'Limit.End'
    return None


def read_field(ps, t, f, bits, pad_id=False):
    at = f.at
    endian = at.get('endian') or t.get('endian')
    order = at.get('bit_order') or t.get('bit_order')
    ps = do_seek(ps, at, 'r')
    ps = do_magic(ps, at.get('magic'), 'r')
    ps = do_pad(ps, at, 'before', order, 'r', bits)

    def setv(p, v):
        p.env[f.name] = v
        return p

    def normal(p):
        if pad_id:
            return [setv(p, p.env['__id'])]
        n = len(p.ev)
        if 'reader' in at:
            r = at['reader']
            a, b = p.event('ureader', r.canon(p))
            ps = [a, b]
        else:
            bad = []
            for k in ('count', 'bytes_read', 'bits_read'):
                if isinstance(f.get(k), U) and f.get(k).kind == 's':
                    p, b = p.fork('fits(%s,usize)' % p.val(f.get(k)))
                    if b:
                        b.res = 'Parse'
                        if 'reader' not in at:
                            bad.append(b)
                    if not p:
                        return bad
            ctx = canon_ctx(args_of(p, endian, at.get('bits'), at.get('bytes'), order, at.get('ctx')))
            lim = limit_of(p, f)
            if lim is not None:
                if 'count' in at and f.mty == 'Vec<u8>' and order in (None, 'msb') and not any(at.get(k) for k in ('bits', 'bytes', 'ctx')):
                    # nothing but the count to tell the elements
                    ctx = 'ReadExact(%s)' % p.val(at['count'])
                else:
                    ctx = '(%s,%s)' % (lim, ctx)
            ty = at.get('src', f.mty)
            a, b = p.event('read', ty, ctx)
            ps = [a, b] + bad
        a.env[f.name] = '#%d' % n
        if 'map' in at:
            def m(q):
                c = at['map']
                k = len(q.ev)
                x, y = q.event('umap', 'um%d(%s)' % (c.k, ','.join(('#%d' % n,) + tuple(q.val(z) for z in c.caps))), stream=False)
                x.env[f.name] = '#%d' % k
                return [x, y]
            ps = each(ps, m)
        return ps

    def default(p):
        d = at.get('default')
        return [setv(p, p.val(d) if d is not None else 'default<%s>' % f.mty)]

    skip = at.get('skip')
    if skip == 'write':
        skip = None
        cond = None
    else:
        cond = at.get('cond')

    def main(p):
        p = p.copy()
        p.off = p.last
        if skip and cond is not None:
            a, b = p.fork(cond.canon(p))
            return (default(a) if a else []) + (normal(b) if b else [])
        if skip:
            return default(p)
        if cond is not None:
            a, b = p.fork(cond.canon(p))
            return (normal(a) if a else []) + (default(b) if b else [])
        return normal(p)
    ps = each(ps, main)

    def asserts(p):
        out = [p]
        if 'assert_' in at:
            a, b = p.fork(at['assert_'].canon(p))
            out = [a]
            if b:
                b.res = 'Assertion'
                out.append(b)
        return [x for x in out if x]
    ps = each(ps, asserts)

    def asserteq(p):
        if 'assert_eq' not in at:
            return [p]
        a, b = p.fork(eqatom(p.env[f.name], p.val(at['assert_eq'])))
        if b:
            b.res = 'Assertion'
        return [a, b]
    ps = each(ps, asserteq)
    ps = do_pad(ps, at, 'after', order, 'r', bits)
    return ps


def eqatom(a, b):
    return 'eq(%s)' % ','.join(sorted([a, b]))


def ctx_env(t, p, dflt=False):
    if t.get('ctx'):
        names = [x.split(':')[0].strip() for x in t.get('ctx').split(',')]
        if dflt:
            d = t.get('ctx_default')
            d = d if isinstance(d, (list, tuple)) else [d]
            for n, v in zip(names, d):
                p.env[n] = p.val(v)
        elif len(names) == 1:
            p.env[names[0]] = 'ctx'
        else:
            for i, n in enumerate(names):
                p.env[n] = 'ctx.%d' % i


def oracle_read(t, bits, dflt=False):
    p = Path('r')
    ctx_env(t, p, dflt)
    ps = [p]
    if t.fields is not None:
        ps = do_seek(ps, t.at, 'r')
    ps = do_magic(ps, t.get('magic'), 'r')
    if t.fields is not None:
        for f in t.fields:
            ps = read_field(ps, t, f, bits)

        def fin(p):
            p.res = 'Ok(%s)' % build(t.name, [p.env[f.name] for f in t.fields if not f.get('temp')])
            return [p]
        return each(ps, fin)
    # enum: the identifier, then the fields of the matching variant
    def ident(p):
        if t.get('id') is not None:
            p.env['__id'] = p.val(t.get('id'))
            return [p]
        n = len(p.ev)
        ie = t.get('id_endian') or t.get('endian')
        a, b = p.event('read', t.get('id_type'), canon_ctx(args_of(p, ie, t.get('bits'), t.get('bytes'), t.get('bit_order'), None)))
        a.env['__id'] = '#%d' % n
        return [a, b]
    ps = each(ps, ident)

    def dispatch(p):
        out = []
        rest = Dom.of(t)
        if re.fullmatch(r'-?\d+', p.env['__id']):
            rest.ivs = [(int(p.env['__id']),) * 2]
        dv = None
        for v in t.variants:
            m = rest.match(v, v_id(t, v))
            if v.get('default') and dv is None:
                dv = v
            if m is None:
                continue
            out += variant(p, v, m)
        if not rest.empty():
            if dv is not None:
                out += variant(p, dv, rest.left())
            else:
                q = p.copy()
                known(q, rest.left())
                q.res = 'Parse'
                out.append(q)
        return out

    def known(p, vals):
        if p.env['__id'] != vals:
            p.facts['%s∈' % p.env['__id']] = vals

    def variant(p, v, vals):
        q = p.copy()
        known(q, vals)
        if v.get('reader') is not None:
            return each([q], lambda p: variant_reader(p, v))
        ps = [q]
        for i, f in enumerate(v.fields):
            ps = read_field(ps, t, f, bits, pad_id=(i == 0 and v.get('id_pat') is not None and t.get('id') is None))

        def fin(p):
            p.res = 'Ok(%s)' % build('%s.%s' % (t.name, v.name), [p.env[f.name] for f in v.fields if not f.get('temp')])
            return [p]
        return each(ps, fin)

    def variant_reader(p, v):
        n = len(p.ev)
        a, b = p.event('ureader', v.get('reader').canon(p))
        a.res = 'Ok(#%d)' % n
        return [a, b]
    return each(ps, dispatch)


def build(name, vals):
    return '%s(%s)' % (name, ','.join(vals))


def v_id(t, v):
    if v.disc is not None and v.get('id') is None and v.get('id_pat') is None:
        return ('d', v.disc)
    if v.get('id') is not None:
        return ('v', v.get('id'))
    return ('p', v.get('id_pat'))


BOUNDS = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32 - 1), 'i8': (-128, 127), 'u64': (0, 2**64 - 1), 'i16': (-32768, 32767), 'bool': (0, 1)}


class Dom:
    """the identifiers not matched yet"""

    @staticmethod
    def of(t):
        d = Dom()
        d.ty = t.get('id_ty') or t.get('id_type')
        d.ivs = [BOUNDS[d.ty]]
        return d

    def match(self, v, idv):
        k, x = idv
        if k in ('v', 'd'):
            if isinstance(x, Raw):
                x = x.c
            alts = [str(x)]
        else:
            alts = x.split('|')
        hits = []
        for x in alts:
            x = x.strip()
            if x == '_':
                iv = BOUNDS[self.ty]
            elif '..=' in x:
                a, b = x.split('..=')
                iv = (int(a, 0), int(b, 0))
            else:
                iv = (int(x, 0), int(x, 0))
            hit, rest = [], []
            for lo, hi in self.ivs:
                a, b = max(lo, iv[0]), min(hi, iv[1])
                if a <= b:
                    hit.append((a, b))
                    if lo < a:
                        rest.append((lo, a - 1))
                    if b < hi:
                        rest.append((b + 1, hi))
                else:
                    rest.append((lo, hi))
            hits += hit
            self.ivs = rest
        if not hits:
            return None
        return show_ivs(hits)

    def empty(self):
        return not self.ivs

    def left(self):
        return show_ivs(self.ivs)


def show_ivs(ivs):
    out = []
    for a, b in sorted(ivs):
        if out and out[-1][1] + 1 >= a:
            out[-1][1] = max(b, out[-1][1])
        else:
            out.append([a, b])
    return '|'.join('%d' % a if a == b else '%d..%d' % (a, b) for a, b in out)


def write_field(ps, t, f, bits, self_, idpat=False):
    at = f.at
    if idpat:
        def w(p):
            ctx = canon_ctx(args_of(p, t.get('id_endian') or t.get('endian'), t.get('bits'), t.get('bytes'), t.get('bit_order'), None))
            return p.event('write', f.mty, self_(f), ctx)
        return each(ps, w)
    endian = at.get('endian') or t.get('endian')
    order = at.get('bit_order') or t.get('bit_order')
    ps = do_seek(ps, at, 'w')
    ps = do_magic(ps, at.get('magic'), 'w')
    ps = do_pad(ps, at, 'before', order, 'w', bits)

    def asserts(p):
        out = [p]
        if 'assert_' in at:
            a, b = p.fork(at['assert_'].canon(p))
            out = [a]
            if b:
                b.res = 'Assertion'
                out.append(b)
        return [x for x in out if x]

    def asserteq(p):
        if 'assert_eq' not in at:
            return [p]
        a, b = p.fork(eqatom(p.env[f.name], p.val(at['assert_eq'])))
        if b:
            b.res = 'Assertion'
        return [a, b]
    ps = each(ps, asserts)
    ps = each(ps, asserteq)

    def normal(p):
        if 'writer' in at:
            return p.event('uwriter', at['writer'].canon(p))
        if at.get('temp') and 'temp_value' not in at:
            return [p]
        ctx = canon_ctx(args_of(p, endian, at.get('bits'), at.get('bytes'), order, at.get('ctx')))
        return p.event('write', f.mty, p.env[f.name], ctx)

    skip = at.get('skip')
    if skip == 'read':
        skip = None

    def main(p):
        if at.get('temp') and 'temp_value' in at:
            if skip and at.get('cond') is None:
                pass
            else:
                p.env[f.name] = p.val(at['temp_value'])
        if skip and at.get('cond') is not None:
            a, b = p.fork(at['cond'].canon(p))
            return ([a] if a else []) + (list(normal(b)) if b else [])
        if skip:
            return [p]
        return normal(p)
    ps = each(ps, main)
    return do_pad(ps, at, 'after', order, 'w', bits)


def oracle_write(t, bits, dflt=False):
    p = Path('w')
    ctx_env(t, p, dflt)
    ps = [p]
    if t.fields is not None:
        stored = [f for f in t.fields if not f.get('temp')]
        for i, f in enumerate(stored):
            p.env[f.name] = 'self.%d' % i
        ps = do_seek(ps, t.at, 'w')
        ps = do_magic(ps, t.get('magic'), 'w')
        for f in t.fields:
            ps = write_field(ps, t, f, bits, lambda f: p.env[f.name])
        return each(ps, ok_unit)
    ps = do_magic(ps, t.get('magic'), 'w')

    def dispatch(p):
        out = []
        for v in t.variants:
            q = p.copy()
            q.facts.update({'variant': v.name} if len(t.variants) > 1 else {})
            stored = [f for f in v.fields if not f.get('temp')]
            for i, f in enumerate(stored):
                q.env[f.name] = 'self.%s.%d' % (v.name, i)
            qs = [q]
            if v.get('writer') is not None:
                qs = each(qs, lambda p: p.event('uwriter', v.get('writer').canon(p)))
                out += each(qs, ok_unit)
                continue
            stores_id = v.get('id_pat') is not None and v.fields and t.get('id') is None
            if t.get('id') is None and not stores_id:
                val = id_value(t, v)
                ie = t.get('id_endian') or t.get('endian')
                qs = each(qs, lambda p: p.event('write', t.get('id_type'), val, canon_ctx(
                    args_of(p, ie, t.get('bits'), t.get('bytes'), t.get('bit_order'), None))))
            for i, f in enumerate(v.fields):
                qs = write_field(qs, t, f, bits, lambda f, q=q: q.env[f.name], idpat=bool(i == 0 and stores_id))
            out += each(qs, ok_unit)
        return out
    return each(ps, dispatch)


def oracle_id(t):
    """the identifier query: the declared identifier of the stored variant, an error for those without"""
    return [(v.name, 'Ok(%s)' % id_value(t, v) if v.get('id') is not None else 'IdVariantNotFound') for v in t.variants]


def id_value(t, v):
    k, x = v_id(t, v)
    if isinstance(x, Raw):
        return x.c
    if k == 'p':
        return str(v.disc)
    return str(int(x))


def ok_unit(p):
    p.res = 'Ok(())'
    return [p]


def oracle_update(t):
    p = Path('u')
    out = []
    def run(p, fields, pre, stored):
        ps = [p]
        for i, f in enumerate(stored):
            p.env[f.name] = '%s.%d' % (pre, i)
            p.upd[f.name] = '%s.%d' % (pre, i)
        for f in fields:
            if f.get('update') is not None and not f.get('temp'):
                def g(p, f=f):
                    e = f.get('update')
                    v = p.val(e)
                    if e.raw:
                        n = len(p.ev)
                        a, b = p.event('uconv', v, stream=False)
                        a.upd[f.name] = a.env[f.name] = '#%d' % n
                        a.env['self.' + f.name] = '#%d' % n
                        return [a, b]
                    p.upd[f.name] = p.env[f.name] = p.env['self.' + f.name] = v
                    return [p]
                ps = each(ps, g)
        for q in ps:
            if q.res is None:
                q.res = 'Ok(())'
                q.facts['final'] = ','.join(q.upd[f.name] for f in stored)
        return ps
    if t.fields is not None:
        stored = [f for f in t.fields if not f.get('temp')]
        for i, f in enumerate(stored):
            p.env['self.' + f.name] = 'self.%d' % i
        return run(p, t.fields, 'self', stored)
    for v in t.variants:
        q = p.copy()
        q.facts.update({'variant': v.name} if len(t.variants) > 1 else {})
        out += run(q, v.fields, 'self.' + v.name, [f for f in v.fields if not f.get('temp')])
    return out


def oracle_size(t, bits):
    def fsize(f):
        at = f.at
        if at.get('temp'):
            return 0
        n = len(at.get('magic') or b'') * 8
        for w in ('before', 'after'):
            n += at.get('pad_bits_' + w, 0) + 8 * at.get('pad_bytes_' + w, 0)
        if at.get('bits') is not None:
            n += at['bits']
        elif at.get('bytes') is not None:
            n += at['bytes'] * 8
        else:
            n += size_of(f.mty)
        return n
    n = len(t.get('magic') or b'') * 8
    if t.fields is not None:
        return n + sum(fsize(f) for f in t.fields)
    if t.get('bits') is not None:
        n += t.get('bits')
    elif t.get('bytes') is not None:
        n += 8 * t.get('bytes')
    elif t.get('id') is None:
        n += size_of(t.get('id_type'))
    best = 0
    for v in t.variants:
        fs = v.fields
        if v.get('id_pat') is not None and t.get('id') is None and fs:
            fs = fs[1:]
        best = max(best, sum(fsize(f) for f in fs))
    return n + best


def split_top(s):
    out, d, cur = [], 0, ''
    for ch in s:
        d += ch in '([<'
        d -= ch in ')]>'
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return [x.strip() for x in out + [cur] if x.strip()]


TYPES = {}


def size_of(ty):
    m = re.fullmatch(r'Leaf<(\d+)>', ty)
    if m:
        return leaf_bits(int(m.group(1)))
    m = re.fullmatch(r'\[(.*); (\d+)\]', ty)
    if m:
        return size_of(m.group(1)) * int(m.group(2))
    m = re.fullmatch(r'[uif](\d+)', ty)
    if m:
        return int(m.group(1))
    if ty == 'bool':
        return 8
    if ty.startswith('('):
        return sum(size_of(x) for x in split_top(ty[1:-1]))
    if ty.startswith('Box<'):
        return size_of(ty[4:-1])
    return oracle_size(TYPES[ty], True)


def leaf_bits(k):
    return 1000 + k * 17
