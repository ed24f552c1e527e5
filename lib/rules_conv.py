"""P27: conversions of errors, limits and settings, for every case of what is converted."""
import build as B
from checks import check
from prov import Agg, Ref, Cell, Sl, Bits, Interp, Unknown
import provmodel
from rules_num import nfacts, finish

KIND = {'Incomplete': 'UnexpectedEof', 'Parse': 'InvalidData', 'InvalidParam': 'InvalidInput', 'Assertion': 'InvalidData', 'IdVariantNotFound': 'NotFound'}


def kindty(F):
    for t in F.types:
        if F.types[t].get('k') == 'adt' and t.split('::')[-1] == 'ErrorKind':
            return t, [v['n'] for v in F.types[t]['vs']]
    raise Unknown('no ErrorKind in the facts')


def kind_of(F, v):
    """name of the error kind held by an I/O error"""
    if type(v) is not Agg or v.ty != 'prov::IoError':
        return None
    k = v.f[0]
    if type(k) is Agg:
        return kindty(F)[1][k.var]
    return k


def dk(F):
    return [v['n'] for v in F.types['deku::DekuError']['vs']]


def lim(F):
    t = [t for t in F.types if F.types[t].get('k') == 'adt' and t.split('<')[0].endswith('::Limit')]
    if not t:
        raise Unknown('no Limit in the facts')
    return [v['n'] for v in F.types[t[0]]['vs']]


class Run:
    def __init__(self, c, feat):
        self.c, self.feat = c, feat
        self.F = nfacts(feat)
        self.ip = Interp(self.F)

    def all(self, root, mk, judge, what):
        """every behaviour of the root satisfies judge(value) -> None or complaint"""
        c, n = self.c, 0
        root = 'conv::' + root
        key = '%s|%s' % (root, what)
        try:
            for k, v in self.ip.paths(root, mk):
                n += 1
                bad = 'panics: %s' % v if k == 'panic' else judge(v)
                c.oblig(bad is None, key, lambda: '%s (%s) [%s]: %s' % (root, what, self.feat, bad))
        except Unknown as u:
            c.oblig(False, key + '|unknown', '%s (%s) [%s]: the analysis cannot follow it: %s' % (root, what, self.feat, u))
            n += 1
        c.oblig(n > 0, key + '|none', '%s (%s): no behaviour found' % (root, what))
        c.analysed('case', '%s (%s) [%s]' % (root, what, self.feat))
        finish(c, self.F, self.ip, '%s [%s]' % (root, self.feat))


def is_kind(R, want):
    def j(v):
        got = kind_of(R.F, v)
        return None if got == want else 'gives the kind %s, not %s' % (got, want)
    return j


def is_deku(R, want, kind=None):
    def j(v):
        if type(v) is not Agg or dk(R.F)[v.var] != want:
            return 'gives %r, not %s' % (v, want)
        if kind is not None:
            k = v.f[0]
            got = kindty(R.F)[1][k.var] if type(k) is Agg else k
            if got != kind:
                return 'keeps the kind %s, not %s' % (got, kind)
    return j


def is_limit(R, want, n):
    def j(v):
        if type(v) is not Agg or lim(R.F)[v.var] != want:
            return 'gives %r, not %s' % (v, want)
        if n is not None:
            x = v.f[0]
            if type(x) is Agg:
                x = x.f[0]
            if x != n:
                return 'gives %r, not %d' % (x, n)
    return j


def job(c, feat):
    R = Run(c, feat)
    F = R.F
    kt, kinds = kindty(F)
    text = Agg('std::borrow::Cow', 0, [Sl(Cell([0x61, 0x62]), (), 0, 2)])
    for i, n in enumerate(dk(F)):
        if n == 'Io':
            for j, k in enumerate(kinds):
                R.all('s_to_io', lambda ip: [Agg('deku::DekuError', i, [Agg(kt, j, [])])], is_kind(R, k), 'Io(%s)' % k)
            continue
        if n not in KIND:
            c.oblig(False, 'conv|kind ' + n, 'an error kind without a promise: ' + n)
            continue
        pay = {'Incomplete': [Agg('deku::error::NeedSize', 0, [13])], 'IdVariantNotFound': []}.get(n, [text])
        R.all('s_to_io', lambda ip: [Agg('deku::DekuError', i, list(pay))], is_kind(R, KIND[n]), n)
    for j, k in enumerate(kinds):
        R.all('s_from_io', lambda ip: [Agg('prov::IoError', 0, [Agg(kt, j, [])])], is_deku(R, 'Io', k), k)
    R.all('s_int', lambda ip: [Agg('core::num::TryFromIntError', 0, [Agg('tuple', 0, [])])], is_deku(R, 'Parse'), 'integer conversion')
    R.all('s_slice', lambda ip: [Agg('core::array::TryFromSliceError', 0, [Agg('tuple', 0, [])])], is_deku(R, 'Parse'), 'slice conversion')
    for n in list(range(0, 66)) + [127, 128, 129, 1 << 20, (1 << 64) - 1]:
        R.all('s_need', lambda ip: [n], lambda v: None if list(v.f) == [n, -(-n // 8)] else 'gives %r' % (v.f,), 'bits needed')
    # every text of up to eight bytes
    names = {'little': 0, 'big': 1}
    for ln in range(0, 9):
        def mk(ip):
            return [Sl(Cell([Bits(tuple(('s', 8 * q + b) for b in range(8))) for q in range(ln)]), (), 0, ln)]

        def j(v):
            want = None
            for nm, e in names.items():
                if len(nm) == ln and all(R.ip.res(('s', 8 * q + b)) == (ord(nm[q]) >> b & 1) for q in range(ln) for b in range(8)):
                    want = e
            if want is None:
                return None if v.var == 1 else 'accepts a text which is no endianness'
            return None if v.var == 0 and v.f[0].var == want else 'does not read its own name'
        R.all('s_endian', mk, j, 'text of %d bytes' % ln)
    for nm, e in names.items():
        R.all('s_endian', lambda ip: [Sl(Cell([ord(x) for x in nm]), (), 0, len(nm))],
              lambda v: None if v.var == 0 and v.f[0].var == e else 'does not read its own name', nm)
    R.all('s_endian_new', lambda ip: [], lambda v: None if [x.var for x in v.f] == [0, 0] else 'is not the endianness of the target', 'default endianness')
    for e in (0, 1):
        R.all('s_endian_is', lambda ip: [Agg('deku::ctx::Endian', e, [])], lambda v: None if [int(x) for x in v.f] == [1 - e, e] else 'answers %r' % (v.f,), 'endianness %d' % e)
    R.all('s_order', lambda ip: [], lambda v: None if v.var == 0 else 'is not most significant bit first', 'default order')
    N = 0x123456789
    for r, w, n in (('count', 'Count', N), ('new_count', 'Count', N), ('bytes', 'ByteSize', N), ('new_bytes', 'ByteSize', N), ('bits', 'BitSize', N),
                    ('new_bits', 'BitSize', N), ('end', 'End', None)):
        for m in ((n, 0, (1 << 64) - 1) if n else (None,)):
            R.all('s_' + r, lambda ip: [m] if n else [], is_limit(R, w, m), 'limit of %s' % m)
    for r in ('s_until', 's_into_until'):
        for x in (7, 6):
            R.all(r, lambda ip: [x], lambda v: None if v.var == 1 and int(v.f[0]) == int(x == 7) else 'is not the predicate given: %r' % v, 'predicate on %d' % x)
    R.all('s_size_of', lambda ip: [], lambda v: None if [x.f[0] for x in v] == [8, 64, 80, 0] else 'gives %r' % (v,), 'bits of a type')
    R.all('s_size_val', lambda ip: [Ref(Cell([1, 2, 3])), Ref(Cell(1))], lambda v: None if [x.f[0] for x in v] == [48, 8] else 'gives %r' % (v,), 'bits of a value')


@check('P27')
def p27(c):
    c.rule('abstract interpretation of every conversion, for each case of what is converted, against the kind, limit or setting promised')
    c.pmap(job, [(f,) for f in (['std,bits,descriptive-errors', 'alloc,bits'] if c.tier != 'thorough' else
                                ['std,bits,descriptive-errors', 'std,bits', 'alloc,bits', 'alloc', 'std'])])
    c.floor('root', 40)
