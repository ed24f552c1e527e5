"""P22: the ways into and out of a derived type, on inputs of every small length and offset with arbitrary bytes."""
import build as B
from checks import check
from prov import Agg, Ref, Cell, Sl, Bits, Interp, Unknown, mk
from rules_num import nfacts, finish, layout, place, shows, resolve, BIG, MSB, LSB

O = 'entry::'


class Lay:
    """fields of one shape: (width, bit order, byte of a seek before it)"""
    def __init__(self, ty, var, fields, order=MSB, gap=None, tag=None):
        self.ty, self.var, self.fields, self.order, self.gap, self.tag = ty, var, fields, order, gap, tag

    def total(self):
        return sum(self.fields) + (8 * self.gap[1] if self.gap else 0)

    def start(self, j):
        return sum(self.fields[:j]) + (8 * self.gap[1] if self.gap and j >= self.gap[0] else 0)


class Type:
    def __init__(self, name, shapes, idw=0, idhid=False):
        self.name, self.shapes, self.idw, self.idhid = name, shapes, idw, idhid
        self.mod = name.lower()


# idw: width of the identifier in front; tag: its value (None: any other, stored in the first field)
TYPES = [
    Type('Whole', [Lay('Whole', 0, [3, 5, 16])]),
    Type('Part', [Lay('Part', 0, [3, 4])]),
    Type('Odd', [Lay('Odd', 0, [4, 8])]),
    Type('Lsb', [Lay('Lsb', 0, [3, 5, 8], LSB)]),
    Type('Nothing', [Lay('Nothing', 0, [])]),
    Type('Far', [Lay('Far', 0, [8, 8], gap=(1, 2))]),
    Type('Beyond', [Lay('Beyond', 0, [8, 0], gap=(1, 2))]),
    Type('Ctx', [Lay('Ctx', 0, [8, 8])]),
    Type('Sum', [Lay('Sum', 0, [8], tag=1), Lay('Sum', 1, [16], tag=7)], 8),
    Type('Pat', [Lay('Pat', 0, [4], tag=1), Lay('Pat', 1, [4, 4], tag=None)], 4),
]


def stored(t, sh):
    """the fields which follow the identifier, as (index, width, offset of their first bit)"""
    out = []
    at = t.idw
    for j, w in enumerate(sh.fields):
        if t.idw and sh.tag is None and j == 0:
            out.append((j, w, 0))
            continue
        if sh.gap and j == sh.gap[0]:
            at += 8 * sh.gap[1]
        out.append((j, w, at))
        at += w
    return out, at


def field_bits(w, at, order):
    """places of the bits of a field, least significant first"""
    b = [None] * w
    for pos, bit in enumerate(layout(w, BIG, order)):
        b[bit] = place(at + pos, order)
    return b


def stream(q):
    return Bits(tuple(('s', 8 * q + j) for j in range(8)))


def shape_of(t, ip, off):
    """the shape the identifier read selects; (shape, known)"""
    if not t.idw:
        return t.shapes[0]
    ls = [ip.res(('s', p)) for p in field_bits(t.idw, off, MSB)]
    rest = None
    for sh in t.shapes:
        if sh.tag is None:
            rest = sh
        elif all(l == (sh.tag >> j & 1) for j, l in enumerate(ls)):
            return sh
    return rest


def value_is(t, sh, ip, v, off):
    if type(v) is not Agg or v.var != sh.var:
        return 'a value of another variant'
    for j, w, at in stored(t, sh)[0]:
        if w == 0:
            continue
        g = list(ip.bits(v.f[j], max(8, w)))
        e = resolve(ip, [('s', p) for p in field_bits(w, off + at, sh.order)]) + [0] * (max(8, w) - w)
        if g != e:
            return 'field %d comes from %s, not from %s' % (j, shows(g), shows(e))
    return None


def err_name(ip, F, val):
    e = val.f[0]
    return F.types['deku::DekuError']['vs'][e.var]['n']


def read_job(c, feat, t, kind):
    F = nfacts(feat)
    ip = Interp(F)
    ip.stream_byte = stream
    root = 'entry::%s::r_%s' % (t.mod, kind)
    deep = c.tier == 'thorough'
    m = 0
    for ln in range(0, 7 if deep else 6):
        for off in ((0,) if kind == 'try_from' else range(0, 57 if deep else 41)):
            sh0 = t.shapes[0]
            if sh0.gap and off % 8:
                continue
            if sh0.order == LSB and off % 8:
                continue            # skipped in the default order: two orders in one byte
            if kind == 'from_reader' and ln:
                break
            m += 1
            one_read(c, F, ip, t, kind, root, ln, off, feat)
    finish(c, F, ip, '%s [%s]' % (root, feat))
    return m


def one_read(c, F, ip, t, kind, root, ln, off, feat):
    what = '%s of %s, %d bytes from bit %d [%s]' % (kind, t.name, ln, off, feat)
    cell = {}

    def args(ip):
        if kind == 'from_reader':
            return [Ref(Cell(Agg('sym::Io', 0, []))), off]
        cell['d'] = Cell([stream(q) for q in range(ln)])
        s = Sl(cell['d'], (), 0, ln)
        return [s] if kind == 'try_from' else [s, off]
    n = 0
    try:
        for k, val in ip.paths(root, args):
            n += 1
            if k == 'panic':
                c.oblig(False, root + '|panic', '%s: panics: %s' % (what, val))
                continue
            bad = judge(F, ip, t, kind, ln, off, val, cell.get('d'))
            c.oblig(bad is None, root, lambda: '%s: %s' % (what, bad))
    except Unknown as u:
        c.oblig(False, root + '|unknown', '%s: the analysis cannot follow it: %s' % (what, u))
        return
    c.oblig(n > 0, root + '|none', '%s: no behaviour found' % what)


def judge(F, ip, t, kind, ln, off, val, d):
    sh = shape_of(t, ip, off)
    have = 10 ** 6 if kind == 'from_reader' else 8 * ln
    if t.idw and off + t.idw > have:
        need = off + t.idw
    elif sh is None:
        if val.var == 0:
            return 'succeeds although no identifier matches'
        e = err_name(F=F, ip=ip, val=val)
        return None if e == 'Parse' else 'fails with %s although no identifier matches' % e
    else:
        need = off + stored(t, sh)[1]
    if need > have:
        if val.var == 0:
            return 'succeeds although the input is too short'
        e = err_name(F=F, ip=ip, val=val)
        return None if e == 'Incomplete' else 'fails with %s although the input is too short' % e
    if kind == 'try_from' and need != have:
        if need > have - 8:
            return None                      # part of the last byte is unused: not decided here
        if val.var == 0:
            return 'succeeds although bytes are left'
        e = err_name(F=F, ip=ip, val=val)
        return None if e == 'Parse' else 'fails with %s although bytes are left' % e
    if val.var == 1:
        return 'fails (%s) although the input suffices' % err_name(F=F, ip=ip, val=val)
    r = val.f[0]
    if kind == 'try_from':
        return value_is(t, sh, ip, r, 0)
    if kind == 'from_reader':
        if r.f[0] != need:
            return 'reports %s bits, not %d' % (r.f[0], need)
        if ip.nread != -(-need // 8):
            return 'takes %d bytes from the stream, not %d' % (ip.nread, -(-need // 8))
        return value_is(t, sh, ip, r.f[1], off)
    rest = r.f[0].f
    s = rest[0]
    if type(s) is not Sl or s.c is not d:
        return 'the rest returned is not part of the input'
    if (s.lo, s.hi) != (need // 8, ln) or rest[1] != need % 8:
        return 'the rest returned is bytes %d to %d from bit %s, not %d to %d from bit %d' % (s.lo, s.hi, rest[1], need // 8, ln, need % 8)
    return value_is(t, sh, ip, r.f[1], off)


# ---- writing --------------------------------------------------------------------------------------
def write_job(c, feat, t, kind):
    F = nfacts(feat)
    ip = Interp(F)
    root = 'entry::%s::w_%s' % (t.mod, kind)
    if root not in F.roots:
        return 0
    m = 0
    for sh in t.shapes:
        if sh.gap:
            continue
        fs, total = stored(t, sh)
        nbytes = -(-total // 8)
        for room in (range(nbytes + 3) if kind == 'to_slice' else (None,)):
            m += 1
            one_write(c, F, ip, t, sh, kind, root, room, feat)
    finish(c, F, ip, '%s [%s]' % (root, feat))
    return m


def value(t, sh):
    f = []
    for j, w in enumerate(sh.fields):
        f.append(mk(tuple(('v', 100 * j + b) for b in range(w)) + (0,) * (max(8, w) - w)))
    return Agg('entry::' + t.name, sh.var, f)


def one_write(c, F, ip, t, sh, kind, root, room, feat):
    what = '%s of %s%s [%s]' % (kind, t.name, '' if room is None else ' into %d bytes' % room, feat)
    fs, total = stored(t, sh)
    exp = {}
    if t.idw and sh.tag is not None:
        for bit, p in enumerate(field_bits(t.idw, 0, MSB)):
            exp[p] = sh.tag >> bit & 1
    for j, w, at in fs:
        for bit, p in enumerate(field_bits(w, at, sh.order)):
            exp[p] = ('v', 100 * j + bit)
    nbytes = -(-total // 8)
    want = [[exp.get(8 * q + j, 0) for j in range(8)] for q in range(nbytes)]
    st = {}

    def args(ip):
        v = value(t, sh)
        v = v if kind.startswith('into') else Ref(Cell(v))
        if room is None:
            return [v]
        st['b'] = Cell([Bits(tuple(('o', 8 * q + j) for j in range(8))) for q in range(room)])
        return [v, Sl(st['b'], (), 0, room)]
    n = 0
    try:
        for k, val in ip.paths(root, args):
            n += 1
            bad = None
            if k == 'panic':
                bad = 'panics: %s' % val
            elif val.var == 1:
                if room is None or room >= nbytes:
                    bad = 'fails (%s)' % err_name(ip, F, val)
                elif err_name(ip, F, val) != 'Io':
                    bad = 'fails with %s for lack of room' % err_name(ip, F, val)
            elif room is not None and room < nbytes:
                bad = 'succeeds without enough room'
            else:
                bad = written(ip, kind, val.f[0], want, total, st.get('b'), room)
            c.oblig(bad is None, root, lambda: '%s: %s' % (what, bad))
    except Unknown as u:
        c.oblig(False, root + '|unknown', '%s: the analysis cannot follow it: %s' % (what, u))
        return
    c.oblig(n > 0, root + '|none', '%s: no behaviour found' % what)


def written(ip, kind, r, want, total, buf, room):
    w = [resolve(ip, x) for x in want]
    if kind.endswith('bits'):
        bits = [ip.bits(r.f[1][j // 8], 8)[7 - j % 8] for j in range(r.f[2])]
        e = [w[j // 8][7 - j % 8] for j in range(total)]
        return None if bits == e else 'the bits are %s, not %s' % (shows(bits[::-1]), shows(e[::-1]))
    if kind == 'to_slice':
        if r != len(want):
            return 'reports %s bytes, not %d' % (r, len(want))
        got = [list(ip.bits(x, 8)) for x in buf.v]
        w = w + [[('o', 8 * q + j) for j in range(8)] for q in range(len(want), room)]
    else:
        got = [list(ip.bits(x, 8)) for x in r.f[0]]
    if got != w:
        if len(got) != len(w):
            return 'makes %d bytes, not %d' % (len(got), len(w))
        q = [a == b for a, b in zip(got, w)].index(False)
        return 'byte %d is %s, not %s' % (q, shows(got[q]), shows(w[q]))
    return None


def id_job(c, feat, name):
    F = nfacts(feat)
    ip = Interp(F)
    t = [x for x in TYPES if x.name == name][0]
    root = 'entry::r_%s_id' % t.mod
    for sh in t.shapes:
        if sh.tag is None:
            continue
        want = [(sh.tag >> b & 1) for b in range(8)]
        n = 0
        try:
            for k, val in ip.paths(root, lambda ip: [Ref(Cell(value(t, sh)))]):
                n += 1
                good = k == 'ret' and val.var == 0 and list(ip.bits(val.f[0], 8)) == resolve(ip, want)
                c.oblig(good, root, 'the identifier of %s variant %d [%s] is not the one its data carries' % (name, sh.var, feat))
        except Unknown as u:
            c.oblig(False, root + '|unknown', '%s: the analysis cannot follow it: %s' % (root, u))
            continue
        c.oblig(n > 0, root + '|none', '%s: no behaviour found' % root)
    finish(c, F, ip, '%s [%s]' % (root, feat))
    return 0


READS = ('from_bytes', 'from_reader', 'try_from')
WRITES = ('to_bytes', 'into_vec', 'to_bits', 'into_bits', 'to_slice')


def job(c, feat, t, kind):
    if kind == 'id':
        return id_job(c, feat, t)
    t = [x for x in TYPES if x.name == t][0]
    return (read_job if kind in READS else write_job)(c, feat, t, kind)


@check('P22')
def p22(c):
    c.rule('for every input length and bit offset tried, with arbitrary bytes: success exactly when the type fits, the value from its bits, the rest '
           'and counts exact; outputs are exactly the bits of the value, padded to bytes')
    work = []
    for feat in ['std,bits'] if c.tier != 'thorough' else ['std,bits', 'alloc,bits']:
        B.dump('num', feat)
        work += [(feat, t.name, k) for t in TYPES for k in READS + WRITES] + [(feat, 'Sum', 'id'), (feat, 'Pat', 'id')]
    n = sum(c.pmap(job, work))
    c.notes.append('%d entry calls' % n)
    c.floor('root', 75)
