"""Where each bit of a number goes: the bit-provenance analysis (prov.py) of every number type in every context form."""
import build as B
import engine
import prov
from checks import check
from prov import Agg, Ref, Cell, Bits, Interp, Unknown, mk

_NF = {}
WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'f32': 32, 'f64': 64}
WIDTH.update({k.replace('u', 'i'): v for k, v in list(WIDTH.items()) if k[0] == 'u'})
BIG, LITTLE = 1, 0
MSB, LSB = 0, 1
FORM = {'0': '()', 'e': 'Endian', 'o': 'Order', 'eo': '(Endian, Order)', 'y': 'ByteSize', 'ey': '(Endian, ByteSize)',
        'eyo': '(Endian, ByteSize, Order)', 'b': 'BitSize', 'bo': '(BitSize, Order)', 'eb': '(Endian, BitSize)',
        'ebo': '(Endian, BitSize, Order)'}


def nfacts(feat):
    if feat not in _NF:
        d = B.dump('num', feat)
        _NF[feat] = engine.Facts(d['corpus_num.mono'])
    return _NF[feat]


def layout(n, e, o):
    """value bit held at each position of an n-bit number; None when the layout is not promised"""
    if o == MSB and e == BIG:
        return [n - 1 - i for i in range(n)]
    if o == LSB and e == LITTLE:
        return list(range(n))
    out = []
    if o == MSB:                      # little endian: bytes from the low end, each most significant bit first
        for j in range(0, n, 8):
            r = min(8, n - j)
            out += [j + r - 1 - i for i in range(r)]
        return out
    if n <= 8:
        return list(range(n))
    if n % 8:
        return None
    for j in range(n - 8, -1, -8):    # big endian, lsb first within a byte
        out += [j + i for i in range(8)]
    return out


def place(p, o):
    """bit of the stream at position p: number counted byte by byte from the least significant bit"""
    return 8 * (p // 8) + ((7 - p % 8) if o == MSB else p % 8)


def endian_arg(F, e):
    return Agg('deku::ctx::Endian', e, [])


class Inst:
    def __init__(self, ty, form, k, e, o, n, bits):
        self.ty, self.form, self.k, self.e, self.o, self.n, self.bits = ty, form, k, e, o, n, bits
        self.w = WIDTH[ty]
        self.nb = n * 8 if 'y' in form else n if 'b' in form else self.w        # bits of the number
        self.lead = 0 if k in (0, 8) else 8 if k == 16 else k
        self.tail = 3 if bits else 8
        self.signed = ty[0] == 'i'

    def name(self, rw):
        m = ('b_' if 'b' in self.form else '') + self.ty
        return '%s::%s_%s' % (m, rw, self.form)

    def before(self):
        return ('after the end-of-input test' if self.k == 8 else 'after a byte in the other order' if self.k == 16 else
                'after %d bits of the same byte' % self.lead)

    def text(self):
        s = '%s %s in %s with %s' % (self.ty, 'of %d bits' % self.nb, FORM[self.form],
                                     'big' if self.e == BIG else 'little') + ' endian, ' + ('msb' if self.o == MSB else 'lsb') + ' order, '
        return s + self.before()


def too_big(i):
    return i.nb > i.w


def spec_read(i):
    """origins of lead, number and tail, and bytes consumed"""
    def number(n, at, lay):
        b = [0] * n
        for pos, bit in enumerate(lay):
            b[bit] = ('s', place(at + pos, i.o))
        return b
    if i.k == 16:
        a = [('s', place(at, 1 - i.o)) for at in ((0, 1, 2, 3, 4, 5, 6, 7) if i.o == MSB else (3, 2, 1, 0, 7, 6, 5, 4))]
    else:
        a = number(i.lead, 0, layout(i.lead, BIG, i.o)) + [0] * (8 - i.lead)
    v = number(i.nb, i.lead, layout(i.nb, i.e, i.o) or [])
    v = v + [(v[-1] if i.signed and v else 0)] * (i.w - i.nb)
    z = number(i.tail, i.lead + i.nb, layout(i.tail, BIG, i.o)) + [0] * (8 - i.tail)
    return a, v, z, -(-(i.lead + i.nb + i.tail) // 8)


def spec_write(i):
    pos = {}
    at = 0
    if i.k == 16:
        for j, at in enumerate((0, 1, 2, 3, 4, 5, 6, 7) if i.o == MSB else (3, 2, 1, 0, 7, 6, 5, 4)):
            pos[place(at, 1 - i.o)] = ('a', j)
        at = 8
    for tag, n, e in (('a', i.lead, BIG), ('v', i.nb, i.e), ('z', i.tail, BIG)):
        for p, bit in enumerate([] if i.k == 16 and tag == 'a' else layout(n, e, i.o) or []):
            pos[place(at + p, i.o)] = (tag, bit)
        at += n if i.k != 16 or tag != 'a' else 0
    nbytes = -(-at // 8)
    return [[pos.get(8 * q + j, 0) for j in range(8)] for q in range(nbytes)]


def run_one(c, F, ip, i, rw, feat):
    root = i.name(rw)
    ip.stream_byte = lambda q: Bits(tuple(('s', q * 8 + j) for j in range(8)))

    def args(ip):
        io = Ref(Cell(Agg('sym::Io', 0, [])))
        o, e = Agg('deku::ctx::Order', i.o, []), endian_arg(F, i.e)
        if rw == 'r':
            return [io, i.k, o, e, i.n]
        a = mk(tuple(('a', j) if j < i.lead else 0 for j in range(8)))
        v = [Bits(tuple(('v', 8 * q + j) for j in range(8))) for q in range(8)] if type(i) is Op else Bits(tuple(('v', j) for j in range(i.w)))
        z = mk(tuple(('z', j) if j < i.tail else 0 for j in range(8)))
        return [io, a, Ref(Cell(v)), z, i.k, o, e, i.n]
    key = '%s|%s%s' % (root, ('be' if i.e == BIG else 'le') + ('msb' if i.o == MSB else 'lsb'), '' if i.bits else '|nobits')
    what = ('reading ' if rw == 'r' else 'writing ') + i.text() + ' [%s]' % feat
    seen = 0
    try:
        for kind, val in ip.paths(root, args):
            seen += 1
            if kind == 'panic':
                c.oblig(False, key + '|panic', '%s: %s' % (what, val))
                continue
            if type(i) is Op:
                bad = JUDGE.get(i.op, judge_rop if rw == 'r' else judge_wop)(i, ip, val)
            else:
                bad = judge_read(i, ip, val) if rw == 'r' else judge_write(i, ip, val)
            c.oblig(bad is None, key, lambda: '%s: %s' % (what, bad))
    except Unknown as u:
        c.oblig(False, key + '|unknown', '%s: the analysis cannot follow it: %s' % (what, u))
        return
    c.oblig(seen > 0, key + '|none', '%s: no behaviour found' % what)


def resolve(ip, ls):
    return [ip.res(l) for l in ls]


def shows(ls):
    """the origins of the bits of an integer, most significant first"""
    def one(l):
        if l in (0, 1):
            return str(l)
        if l[0] == 'n':
            return '!' + one(l[1])
        return '%s%d' % (l[0], l[1])
    return ' '.join(one(l) for l in reversed(ls))


def judge_read(i, ip, val):
    if val.var == 1:
        if too_big(i):
            return None
        return 'fails although the stream does not'
    if too_big(i):
        return 'succeeds although the number is wider than its type'
    a, v, z, nbytes = spec_read(i)
    got = val.f[0].f
    for what, exp, g, w in (('the bits before it', a, got[0], 8), ('the number', v, got[1], i.w), ('the bits after it', z, got[2], 8)):
        g = list(ip.bits(g, w))
        exp = resolve(ip, exp)
        if g != exp:
            return '%s come from %s, not from %s' % (what, shows(g), shows(exp))
    if ip.nread != nbytes:
        return 'takes %d bytes from the stream, not %d' % (ip.nread, nbytes)
    return None


def judge_write(i, ip, val):
    truncates = 'y' in i.form or (i.form in ('b', 'bo') and i.nb % 8 == 0) or i.ty[0] == 'f'
    # bits which must not matter for the value to fit
    s = ip.res(('v', i.w - 1))
    if i.signed:
        rest = [('v', j) for j in range(max(0, i.nb - 1), i.w - 1)]
        if s == 1:
            rest = [('n', l) for l in rest]
    else:
        rest = [('v', j) for j in range(i.nb, i.w)]
    u = set(l for l in resolve(ip, rest))
    fits = None
    if not u - {0}:
        fits = True
    elif 1 in u:
        fits = False
    else:
        for nz in ip.nonzero:
            r = set(resolve(ip, nz)) - {0}
            if r and 1 not in r and r <= u:
                fits = False
    if i.signed and s not in (0, 1) and i.nb < i.w:
        fits = None
    if val.var == 1:
        if too_big(i):
            return None
        if fits is False and not (truncates and 'y' in i.form):
            return None
        return 'fails %s' % ('although the value fits' if fits else 'for values which fit')
    if too_big(i):
        return 'succeeds although the number is wider than its type'
    if not truncates and fits is not True:
        return 'writes a value which does not fit' if fits is False else 'writes values without a test whether they fit'
    exp = spec_write(i)
    got = [list(ip.bits(x, 8)) for x in ip.sink]
    exp = [resolve(ip, x) for x in exp]
    if len(got) != len(exp):
        return 'hands %d bytes to the stream, not %d' % (len(got), len(exp))
    for q, (g, x) in enumerate(zip(got, exp)):
        if g != x:
            return 'byte %d handed to the stream is %s, not %s' % (q, shows(g), shows(x))
    return None


def sizes(w, form, tier):
    if 'b' in form:
        if tier == 'thorough':
            return list(range(0, w + 1)) + [w + 1, w + 8]
        x = {0, 1, 2, 3, 5, 7, 8, 9, 12, 13, 15, 16, 17, w // 2 - 1, w // 2, w // 2 + 1, w - 9, w - 8, w - 7, w - 1, w, w + 1, w + 8}
        return sorted(n for n in x if 0 <= n)
    if 'y' in form:
        m = w // 8
        if tier == 'thorough':
            return list(range(0, m + 2))
        return sorted({0, 1, 2, 3, m // 2, m - 1, m, m + 1})
    return [0]


def instances(ty, form, tier, bits):
    w = WIDTH[ty]
    for n in sizes(w, form, tier):
        if ty[0] == 'f' and 'y' in form and n != w // 8:
            continue
        for e in ((LITTLE, BIG) if 'e' in form else (LITTLE,)):
            for o in ((MSB, LSB) if 'o' in form else (MSB,)):
                ks = list(range(9)) + [16] if tier == 'thorough' else ([0, 1, 3, 4, 7, 8, 16] if form in ('ebo', 'eb', 'eo', 'eyo') else [0, 1, 5, 8, 16])
                if not bits:
                    ks = [0, 8]
                for k in ks:
                    i = Inst(ty, form, k, e, o, n, bits)
                    if not bits and o == LSB:
                        continue
                    if i.nb <= w and layout(i.nb, e, o) is None:
                        continue
                    yield i


def group(c, feat, rw, ty, form):
    F = nfacts(feat)
    ip = Interp(F)
    bits = 'bits' in feat.split(',')
    m = 0
    for i in instances(ty, form, c.tier, bits):
        m += 1
        run_one(c, F, ip, i, rw, feat)
    finish(c, F, ip, Inst(ty, form, 0, 0, 0, 1, bits).name(rw) + ' [%s]' % feat)
    return m


def finish(c, F, ip, root):
    c.analysed('root', root)
    for fid, bb in ip.visited:
        f = F.fns[fid]
        if f['crate'] == 'deku':
            c.analysed('function', f['def'])
            c.analysed('block', '%s#%d' % (f['def'], bb))
    for d in ip.models:
        c.analysed('library function', d)


# ---- the operations of the reader and the writer ----------------------------------------------------
ROPS = ('r_into', 'r_into_at', 'r_bits', 'r_skip', 'r_bytes', 'r_const', 'r_const_into')
WOPS = ('w_bits', 'w_bits_at', 'w_plain', 'w_bytes')


class Op:
    def __init__(self, op, k, o, n):
        self.op, self.k, self.o, self.n = op, k, o, n
        self.e, self.bits = BIG, True
        self.nb = (3 if 'const' in op else n) * (8 if 'bytes' in op or 'const' in op else 1)
        self.lead = 0 if k in (0, 8) else 8 if k == 16 else k
        self.tail = 3

    def name(self, rw):
        return 'ops::' + self.op

    def text(self):
        return '%s of %d bits in %s order %s' % (self.op, self.nb, 'msb' if self.o == MSB else 'lsb', Inst.before(self))

    def at(self):
        """place in the stream of each bit of the buffer, in the order of the buffer (msb first in a byte)"""
        n = self.nb
        if self.o == MSB:
            return [place(self.lead + j, MSB) for j in range(n)]
        if 'bytes' in self.op or 'const' in self.op:
            return [place(self.lead + 8 * (j // 8) + 7 - j % 8, LSB) for j in range(n)]
        return [place(self.lead + n - 1 - j, LSB) for j in range(n)]


def buffer(ls, skip, nbytes):
    ls = [0] * skip + ls
    ls += [0] * (8 * nbytes - len(ls))
    return [[ls[8 * q + 7 - j] for j in range(8)] for q in range(nbytes)]


def judge_rop(i, ip, val):
    if val.var == 1:
        return 'fails although the stream does not'
    got = val.f[0].f
    a, _, z, nbytes = spec_read(as_number(i))
    for what, exp, g in (('the bits before it', a, got[0]), ('the bits after it', z, got[2])):
        g = list(ip.bits(g, 8))
        if g != resolve(ip, exp):
            return '%s come from %s, not from %s' % (what, shows(g), shows(exp))
    v = got[1]
    want = [('s', p) for p in i.at()]
    if i.op == 'r_bits':
        if v.var == 0:
            g = [] if i.n == 0 else None
        else:
            b = v.f[0]
            g = [ip.bits(b.f[1][j // 8], 8)[7 - j % 8] for j in range(b.f[2])]
        if g != want:
            return 'delivers the bits %s, not %s' % (g and shows(g[::-1]), shows(want[::-1]))
    elif i.op != 'r_skip':
        g = [list(ip.bits(x, 8)) for x in v]
        want = buffer(want, 3 if i.op == 'r_into_at' else 0, len(g))
        if g != want:
            q = [x == y for x, y in zip(g, want)].index(False)
            return 'byte %d delivered is %s, not %s' % (q, shows(g[q]), shows(want[q]))
    if ip.nread != nbytes:
        return 'takes %d bytes from the stream, not %d' % (ip.nread, nbytes)
    if got[3] != i.lead + i.nb + 3:
        return 'reports %s bits read, not %d' % (got[3], i.lead + i.nb + 3)
    return None


def pending(i, byte):
    """the bits of the byte which have not been delivered, most significant first"""
    t = (i.lead + i.nb) % 8
    if t == 0:
        return byte[::-1] if i.k == 8 and i.nb == 0 else []
    return byte[:8 - t][::-1] if i.o == MSB else byte[t:][::-1]


def judge_rrest(i, ip, val):
    if val.var == 1:
        return 'fails although the stream does not'
    got = val.f[0].f
    q = (i.lead + i.nb) // 8
    want = resolve(ip, pending(i, [('s', 8 * q + j) for j in range(8)]))
    for n, v in (('first', got[1].f[0].f[0]), ('second', got[1].f[1].f[0])):
        g = [ip.res(ip.bits(x, 1)[0]) for x in v]
        if g != want:
            return 'the %s answer is the bits %s, not %s' % (n, shows(g[::-1]), shows(want[::-1]))
    a, _, z, nbytes = spec_read(as_number(i))
    g = list(ip.bits(got[2], 8))
    if g != resolve(ip, z):
        return 'the bits read after it come from %s, not from %s' % (shows(g), shows(resolve(ip, z)))
    if ip.nread != nbytes or got[3] != i.lead + i.nb + 3:
        return 'takes bits from the stream, or counts them'
    return None


def judge_wrest(i, ip, val):
    if val.var == 1:
        return 'fails although the stream does not'
    pos = {}
    for q, byte in enumerate(spec_write(as_number(i))):
        for j, l in enumerate(byte):
            if l != 0 and l[0] != 'v':
                pos[8 * q + j] = l
    for j, p in enumerate(i.at()):
        pos[p] = ('v', 8 * (j // 8) + 7 - j % 8)
    n = i.lead + i.nb
    byte = [pos.get(8 * (n // 8) + j, 0) for j in range(8)]
    t = n % 8
    want = [] if t == 0 else byte[8 - t:][::-1] if i.o == MSB else byte[:t][::-1]
    want = resolve(ip, want)
    for k, v in (('first', val.f[0].f[0].f[0]), ('second', val.f[0].f[1].f[0])):
        g = [ip.res(ip.bits(x, 1)[0]) for x in v]
        if g != want:
            return 'the %s answer is the bits %s, not %s' % (k, shows(g[::-1]), shows(want[::-1]))
    got = [list(ip.bits(b, 8)) for b in ip.sink]
    exp = [resolve(ip, [pos.get(8 * q + j, 0) for j in range(8)]) for q in range(-(-(n + 3) // 8))]
    if got != exp or val.f[0].f[2] != 8 * len(exp):
        return 'what is written afterwards is not what was to be written'
    return None


def as_number(i):
    x = Inst('u8', '0', i.k, BIG, i.o, 0, True)
    x.nb, x.w, x.signed = i.nb, 0, False
    x.whole = True
    return x


def judge_wop(i, ip, val):
    if val.var == 1:
        return 'fails although the stream does not'
    pos = {}
    x = as_number(i)
    for q, byte in enumerate(spec_write(x)):
        for j, l in enumerate(byte):
            if l != 0 and l[0] != 'v':
                pos[8 * q + j] = l
    skip = 5 if i.op == 'w_bits_at' else 0
    for j, p in enumerate(i.at()):
        j += skip
        pos[p] = ('v', 8 * (j // 8) + 7 - j % 8)
    n = i.lead + i.nb + 3
    exp = [[pos.get(8 * q + j, 0) for j in range(8)] for q in range(-(-n // 8))]
    got = [list(ip.bits(b, 8)) for b in ip.sink]
    if len(got) != len(exp):
        return 'hands %d bytes to the stream, not %d' % (len(got), len(exp))
    for q, (g, e) in enumerate(zip(got, exp)):
        if g != resolve(ip, e):
            return 'byte %d handed to the stream is %s, not %s' % (q, shows(g), shows(e))
    if val.f[0] != 8 * len(exp):
        return 'reports %s bits written, not %d' % (val.f[0], 8 * len(exp))
    return None


JUDGE = {'r_rest': judge_rrest, 'w_rest': judge_wrest}


def op_group(c, feat, rw, op):
    F = nfacts(feat)
    ip = Interp(F)
    if 'ops::' + op not in F.roots:
        return 0
    m = 0
    deep = c.tier == 'thorough'
    for n in ([0] if 'const' in op else (range(9) if deep else (0, 1, 2, 3, 8)) if 'bytes' in op else range(58) if deep else
              (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40)):
        for o in (MSB, LSB):
            for k in ([0, 1, 2, 3, 4, 5, 6, 7, 8, 16] if rw == 'r' else [0, 1, 2, 3, 4, 5, 6, 7, 16]):
                if o == LSB and (op == 'w_plain' or op == 'w_bytes' and k not in (0, 8, 16)):
                    continue        # these write in msb order: two orders in one byte
                m += 1
                run_one(c, F, ip, Op(op, k, o, n), rw, feat)
    finish(c, F, ip, 'ops::%s [%s]' % (op, feat))
    return m


def operations(c, rw, ops=None):
    work = []
    for feat in ['std,bits'] if c.tier != 'thorough' else ['std,bits', 'bits', 'alloc,bits']:
        B.dump('num', feat)
        work += [(feat, rw, op) for op in ops or (ROPS if rw == 'r' else WOPS)]
    n = sum(c.pmap(op_group, work))
    c.notes.append('%d stream operations' % n)


def numbers(c, rws, feats=None, tys=None):
    feats = feats or (['std,bits', 'std'] if c.tier != 'thorough' else ['std,bits', 'std', 'bits', '', 'alloc,bits'])
    work = []
    for feat in feats:
        B.dump('num', feat)
        for ty in tys or WIDTH:
            for form in FORM:
                if 'b' in form and ('bits' not in feat or ty[0] == 'f'):
                    continue
                for rw in rws:
                    work.append((feat, rw, ty, form))
    work.sort(key=lambda x: -WIDTH[x[2]] * ('b' in x[3]))
    n = sum(c.pmap(group, work))
    c.notes.append('%d number instances' % n)
    return n


RULE = ('each bit of the number read (or of the bytes written) has exactly the origin the layout of its size, endianness, bit order and '
        'offset gives it; sign bits extend; padding is zero; a number that does not fit is an error in bit-sized forms')


@check('P24')
def p24(c):
    c.rule(RULE)
    c.floor('root', 280)
    c.floor('function', 150)
    numbers(c, ('r', 'w'))


@check('P32')
def p32(c):
    c.rule('after every combination of pending bits and amounts, the unused bits reported are the pending ones, in the order they lie in the byte; '
           'asking again gives the same, and what is read or written afterwards is as if nobody had asked')
    operations(c, 'r', ['r_rest'])
    operations(c, 'w', ['w_rest'])
    c.floor('root', 2)
    c.floor('function', 10)
