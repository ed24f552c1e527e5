"""What library functions do to bit vectors (models used by prov.py)."""
import re
from prov import Agg, Ref, Sl, BSl, Bits, Cnt, Fn, Str, It, Wrap, Ones, Cell, BitPlace, OnePlace, Unknown, Panic, dup, mk, neg

TABLE = {}
TRAITS = {}
REGEX = []


def fn(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def trait(*names):
    def d(f):
        for n in names:
            TRAITS[n] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            REGEX.append((re.compile(p), f))
        return f
    return d


def some(x):
    return Agg('std::option::Option', 1, [x])


def none():
    return Agg('std::option::Option', 0, [])


def opt(x):
    return none() if x is None else some(x[0])


def ok(x):
    return Agg('std::result::Result', 0, [x])


def unit():
    return Agg('', 0, [])


def nonzero_range(lo, hi, n, what):
    if not 0 <= lo <= hi <= n:
        raise Panic('%s: range %d..%d of %d' % (what, lo, hi, n))


def sl(ip, v):
    """slice view of a reference to an array or slice"""
    while type(v) is Ref:
        x = ip.load(v.c, v.p)
        if type(x) is list:
            return Sl(v.c, v.p, 0, len(x))
        if is_vec(x):
            return Sl(v.c, v.p + (0,), 0, len(x.f[0]))
        v = x
    if type(v) is Sl:
        return v
    if type(v) is Agg and len(v.f) == 1:
        return sl(ip, v.f[0])
    raise Unknown('slice of %r' % (v,))


def elems(ip, s):
    return ip.load(s.c, s.p)[s.lo:s.hi]


def rng(ip, r, n):
    """bounds of a range value"""
    if type(r) is int:
        return None
    k = r.ty.split('<')[0].split('::')[-1]
    if k == 'Range':
        return ip.conc(r.f[0]), ip.conc(r.f[1])
    if k == 'RangeTo':
        return 0, ip.conc(r.f[0])
    if k == 'RangeFrom':
        return ip.conc(r.f[0]), n
    if k == 'RangeInclusive':
        return ip.conc(r.f[0]), ip.conc(r.f[1]) + 1
    if k == 'RangeToInclusive':
        return 0, ip.conc(r.f[0]) + 1
    if k == 'RangeFull':
        return 0, n
    raise Unknown('range ' + r.ty)


def index(ip, s, i, what='slice index'):
    if type(i) is not Agg:
        i = ip.conc(i, 'index')
        if not 0 <= i < s.hi - s.lo:
            raise Panic('%s %d of %d' % (what, i, s.hi - s.lo))
        return Ref(s.c, s.p + (s.lo + i,))
    lo, hi = rng(ip, i, s.hi - s.lo)
    nonzero_range(lo, hi, s.hi - s.lo, what)
    return Sl(s.c, s.p, s.lo + lo, s.lo + hi)


# ---- streams ------------------------------------------------------------------------------
def is_io(ip, v):
    while type(v) is Ref:
        v = ip.load(v.c, v.p)
    return type(v) is Agg and v.ty == 'sym::Io'


def cursor(ip, v):
    """a cursor of the standard library behind references"""
    while type(v) is Ref:
        v = ip.load(v.c, v.p)
    return v if type(v) is Agg and v.ty.split('<')[0] in ('std::io::Cursor', 'core::io::Cursor', 'alloc::io::Cursor', 'deku::no_std_io::Cursor', 'no_std_io2::io::Cursor') else None


def vec(xs):
    return Agg('std::vec::Vec', 0, [xs])


def is_vec(x):
    return type(x) is Agg and x.ty == 'std::vec::Vec' and len(x.f) == 1 and type(x.f[0]) is list


def io_err(kind):
    return Agg('std::result::Result', 1, [Agg('prov::IoError', 0, [kind])])


def cur_bytes(ip, cu):
    x = cu.f[0]
    while type(x) is Ref:
        x = ip.load(x.c, x.p)
    return x


@rx(r'^(std::io|deku::no_std_io|no_std_io2::io)::Error::kind$')
def err_kind(ip, c, a):
    e = a[0]
    while type(e) is Ref:
        e = ip.load(e.c, e.p)
    if type(e) is not Agg or e.ty != 'prov::IoError':
        return NotImplemented
    if type(e.f[0]) is Agg:
        return e.f[0]
    for t in ('std::io::ErrorKind', 'deku::no_std_io::ErrorKind'):
        for i, v in enumerate((ip.F.types.get(t) or {}).get('vs', [])):
            if v['n'] == e.f[0]:
                return Agg(t, i, [])
    raise Unknown('error kind ' + e.f[0])


IOERR = r'^(std::io|deku::no_std_io|no_std_io2::io|std::io::error|core::io::error|core::io)(::error)?'


@rx(IOERR + r'(::<impl (std::io|core::io|alloc::io)::Error>|::Error)::new$')
def err_new(ip, c, a):
    return Agg('prov::IoError', 0, [a[0]])


@rx(IOERR + r'(::<impl (std::io|core::io|alloc::io)::Error>|::Error)::other$')
def err_other(ip, c, a):
    return Agg('prov::IoError', 0, ['Other'])


@rx(r'^<(std::io|deku::no_std_io|no_std_io2::io|core::io)::Error as std::convert::From<(std::io|deku::no_std_io|no_std_io2::io|core::io)::ErrorKind>>::from$')
def err_from_kind(ip, c, a):
    return Agg('prov::IoError', 0, [a[0]])


@trait('std::io::Seek::seek', 'deku::no_std_io::Seek::seek', 'no_std_io2::io::Seek::seek')
def seek(ip, c, a):
    t = a[1]
    n = ip.conc(t.f[0], 'seek target')
    cu = cursor(ip, a[0])
    if cu is not None:
        pos = ip.conc(cu.f[1], 'cursor position')
        x = cur_bytes(ip, cu)
        ln = len(x.f[0]) if is_vec(x) else (x.hi - x.lo)
        n += (0, ln, pos)[t.var]
        if n < 0:
            return io_err('InvalidInput')
        cu.f[1] = n
        return ok(n)
    if not is_io(ip, a[0]):
        return NotImplemented
    if t.var == 1:
        raise Unknown('seek from the end')
    ip.nread = n if t.var == 0 else ip.nread + n
    return ok(ip.nread)


@trait('std::io::Read::read_exact', 'deku::no_std_io::Read::read_exact', 'no_std_io2::io::Read::read_exact')
def read_exact(ip, c, a):
    s = sl(ip, a[1])
    arr = ip.load(s.c, s.p)
    cu = cursor(ip, a[0])
    if cu is not None:
        pos = ip.conc(cu.f[1], 'cursor position')
        x = cur_bytes(ip, cu)
        src = x.f[0] if is_vec(x) else elems(ip, x)
        n = s.hi - s.lo
        if n > len(src) - min(pos, len(src)):
            cu.f[1] = len(src)
            return io_err('UnexpectedEof')
        arr[s.lo:s.hi] = [dup(y) for y in src[pos:pos + n]]
        cu.f[1] = pos + n
        return ok(unit())
    if not is_io(ip, a[0]):
        return NotImplemented
    for i in range(s.lo, s.hi):
        q = ip.nread
        ip.nread += 1
        arr[i] = ip.stream_byte(q)
    return ok(unit())


@trait('std::io::Write::write_all', 'deku::no_std_io::Write::write_all', 'no_std_io2::io::Write::write_all')
def write_all(ip, c, a):
    s = sl(ip, a[1])
    cu = cursor(ip, a[0])
    if cu is not None:
        pos = ip.conc(cu.f[1], 'cursor position')
        x = cur_bytes(ip, cu)
        ys = [dup(y) for y in elems(ip, s)]
        if is_vec(x):
            xs = x.f[0]
            xs.extend([0] * (pos - len(xs)))
            xs[pos:pos + len(ys)] = ys
            cu.f[1] = pos + len(ys)
            return ok(unit())
        room = max(0, x.hi - x.lo - pos)
        put = ys[:room]
        ip.load(x.c, x.p)[x.lo + pos:x.lo + pos + len(put)] = put
        cu.f[1] = pos + len(put)
        return ok(unit()) if len(put) == len(ys) else io_err('WriteZero')
    if not is_io(ip, a[0]):
        return NotImplemented
    for x in elems(ip, s):
        ip.sink.append(dup(x))
    return ok(unit())


@trait('std::io::Write::flush', 'deku::no_std_io::Write::flush', 'no_std_io2::io::Write::flush')
def flush(ip, c, a):
    if not is_io(ip, a[0]) and cursor(ip, a[0]) is None:
        return NotImplemented
    return ok(unit())


# ---- vectors ----------------------------------------------------------------------------------
@fn('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def vec_new(ip, c, a):
    return vec([])


@rx(r'^std::vec::Vec::<T, A>::len$')
def vec_len(ip, c, a):
    s = sl(ip, a[0])
    return s.hi - s.lo


@rx(r'^std::vec::Vec::<T, A>::push$', r'^std::vec::Vec::<T, A>::extend_from_slice$')
def vec_push(ip, c, a):
    s = sl(ip, a[0])
    xs = ip.load(s.c, s.p)
    if c['def'].endswith('push'):
        xs.append(dup(a[1]))
    else:
        xs.extend(dup(x) for x in elems(ip, sl(ip, a[1])))
    return unit()


def vlist(ip, r):
    s = sl(ip, r)
    return ip.load(s.c, s.p)


@rx(r'^std::vec::Vec::<T, A>::(resize|truncate|pop|insert|remove|clear|is_empty|reserve|reserve_exact|shrink_to_fit|swap_remove|split_off|append|capacity)$')
def vec_edit(ip, c, a):
    k = c['def'].rsplit('::', 1)[1]
    xs = vlist(ip, a[0])
    n = len(xs)
    if k == 'resize':
        m = ip.conc(a[1])
        del xs[m:]
        xs.extend(dup(a[2]) for _ in range(m - n))
    elif k == 'truncate':
        del xs[ip.conc(a[1]):]
    elif k == 'pop':
        return opt((xs.pop(),) if xs else None)
    elif k == 'clear':
        del xs[:]
    elif k == 'is_empty':
        return int(n == 0)
    elif k == 'insert':
        i = ip.conc(a[1])
        nonzero_range(i, i, n, k)
        xs.insert(i, a[2])
    elif k in ('remove', 'swap_remove'):
        i = ip.conc(a[1])
        nonzero_range(i, i + 1, n, k)
        if k == 'remove':
            return xs.pop(i)
        xs[i], xs[-1] = xs[-1], xs[i]
        return xs.pop()
    elif k == 'split_off':
        i = ip.conc(a[1])
        nonzero_range(i, i, n, k)
        r = xs[i:]
        del xs[i:]
        return vec(r)
    elif k == 'append':
        ys = vlist(ip, a[1])
        xs.extend(ys)
        del ys[:]
    elif k == 'capacity':
        raise Unknown('capacity')
    return unit()


@fn('std::vec::from_elem')
def vec_elem(ip, c, a):
    return vec([dup(a[0]) for _ in range(ip.conc(a[1]))])


@rx(r'slice::<impl \[T\]>::(to_vec|into_vec)$', r'^std::vec::Vec<.*> as std::convert::From<&.*>>::from$')
def to_vec(ip, c, a):
    return vec([dup(x) for x in elems(ip, sl(ip, a[0]))])


def drain_it(ip, x):
    it = x if ip.is_it(x) else into_iter(ip, None, [x])
    if it is NotImplemented:
        if type(x) is Agg and is_vec(x):
            return list(x.f[0])
        raise Unknown('iteration over %r' % (x,))
    out = []
    while True:
        y = ip.it_next(it)
        if y is None:
            return out
        out.append(y[0])


@trait('std::iter::Iterator::collect')
def collect(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    t = (c['targs'] or [''])[-1]
    if t.startswith('std::vec::Vec<'):
        return vec(drain_it(ip, a[0]))
    if 'BitVec<' in t and t.split('<')[0].endswith('BitVec'):
        return bvec([ip.bits(ip.deref(x) if type(x) is Ref else x, 1)[0] for x in drain_it(ip, a[0])], tyorder(t))
    return NotImplemented


@rx(r'^<std::vec::Vec<.*> as std::iter::Extend<.*>>::extend$')
def vec_ext(ip, c, a):
    xs = vlist(ip, a[0])
    by_ref = 'Extend<&' in c['def']
    for x in drain_it(ip, a[1]):
        xs.append(dup(ip.deref(x)) if by_ref else x)
    return unit()


@rx(r'^std::vec::Vec::<T, A>::as_(mut_)?slice$', r'<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$')
def vec_slice(ip, c, a):
    return sl(ip, a[0])


# ---- integers --------------------------------------------------------------------------------
@rx(r'::to_(le|be|ne)_bytes$')
def to_bytes(ip, c, a):
    ty = selfty(c)
    w, s = ip.width(ty)
    x = ip.bits(a[0], w)
    bs = [mk(x[i:i + 8]) for i in range(0, w, 8)]
    if '::to_be_bytes' in c['def']:
        bs.reverse()
    return bs


@rx(r'::from_(le|be|ne)_bytes$')
def from_bytes(ip, c, a):
    ty = selfty(c)
    w, s = ip.width(ty)
    bs = list(a[0])
    if len(bs) * 8 != w:
        raise Unknown('from_bytes length')
    if '::from_be_bytes' in c['def']:
        bs.reverse()
    x = ()
    for b in bs:
        x += ip.bits(b, 8)
    return mk(x, w, s)


def selfty(c):
    m = re.search(r'<impl (\w+)>', c['def'])
    if not m:
        raise Unknown('integer method ' + c['def'])
    return m.group(1)


@rx(r'num::<impl \w+>::leading_zeros$', r'num::<impl \w+>::trailing_zeros$')
def leading_zeros(ip, c, a):
    w, s = ip.width(selfty(c))
    x = list(ip.bits(a[0], w))
    if 'leading' in c['def']:
        x.reverse()
    return count(ip, x)


@rx(r'num::<impl \w+>::leading_ones$', r'num::<impl \w+>::trailing_ones$')
def leading_ones(ip, c, a):
    w, s = ip.width(selfty(c))
    x = [neg(l) for l in ip.bits(a[0], w)]
    if 'leading' in c['def']:
        x.reverse()
    return count(ip, x)


def count(ip, x):
    """number of zeros at the front"""
    n = 0
    x = [ip.res(l) for l in x]
    for l in x:
        if l == 0:
            n += 1
        else:
            break
    if n == len(x):
        return n
    if x[n] == 1:
        return n
    if ip.all_zero(x):
        return len(x)
    x = [ip.res(l) for l in x]
    n = 0
    for l in x:
        if l == 0:
            n += 1
        else:
            break
    if x[n] == 1:
        return n
    if 1 in x:
        x = x[:x.index(1) + 1]
    return Cnt(tuple(x[n:]), 1, n, True)


@rx(r'num::<impl \w+>::swap_bytes$', r'num::<impl \w+>::(to|from)_(be|le)$')
def swap_bytes(ip, c, a):
    w, s = ip.width(selfty(c))
    if c['def'].endswith('_le'):
        return a[0]
    x = ip.bits(a[0], w)
    out = ()
    for i in range(w - 8, -1, -8):
        out += x[i:i + 8]
    return mk(out, w, s)


@rx(r'num::<impl \w+>::reverse_bits$')
def reverse_bits(ip, c, a):
    w, s = ip.width(selfty(c))
    return mk(tuple(reversed(ip.bits(a[0], w))), w, s)


@rx(r'num::<impl \w+>::wrapping_sh[lr]$', r'num::<impl \w+>::unbounded_sh[lr]$')
def wrapping_sh(ip, c, a):
    w, s = ip.width(selfty(c))
    n = ip.conc(a[1])
    if 'unbounded' in c['def'] and n >= w:
        if s and c['def'].endswith('r'):
            n = w - 1
        else:
            return 0
    return ip.binop('Shl' if c['def'].endswith('l') else 'Shr', a[0], n % w, selfty(c), None)


@rx(r'num::<impl \w+>::rotate_(left|right)$')
def rotate(ip, c, a):
    w, s = ip.width(selfty(c))
    n = ip.conc(a[1]) % w
    x = ip.bits(a[0], w)
    if c['def'].endswith('right'):
        n = (w - n) % w
    return mk(x[w - n:] + x[:w - n], w, s)


@rx(r'num::<impl \w+>::(saturating|wrapping)_(add|sub|mul)$')
def sat(ip, c, a):
    w, s = ip.width(selfty(c))
    x, y = ip.conc(a[0]), ip.conc(a[1])
    op = c['def'].rsplit('_', 1)[1]
    r = x + y if op == 'add' else x - y if op == 'sub' else x * y
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    if 'saturating' in c['def']:
        return max(lo, min(hi, r))
    return ip.wrap(r, w, s)


@rx(r'num::<impl \w+>::checked_(add|sub|mul|div|rem)$')
def checked(ip, c, a):
    w, s = ip.width(selfty(c))
    x, y = ip.conc(a[0]), ip.conc(a[1])
    op = c['def'].rsplit('_', 1)[1]
    if op in ('div', 'rem') and y == 0:
        return none()
    if op in ('div', 'rem') and s:
        raise Unknown(c['def'])
    r = x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else x // y if op == 'div' else x % y
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    return some(r) if lo <= r <= hi else none()


@rx(r'num::<impl \w+>::checked_sh[lr]$')
def checked_sh(ip, c, a):
    w, s = ip.width(selfty(c))
    n = ip.conc(a[1])
    if n >= w:
        return none()
    return some(ip.binop('Shl' if c['def'].endswith('l') else 'Shr', a[0], n, selfty(c), None))


@rx(r'num::<impl \w+>::div_ceil$')
def div_ceil(ip, c, a):
    return -(-ip.conc(a[0]) // ip.conc(a[1]))


@rx(r'num::<impl \w+>::next_multiple_of$')
def next_multiple(ip, c, a):
    return -(-ip.conc(a[0]) // ip.conc(a[1])) * ip.conc(a[1])


@rx(r'num::<impl \w+>::pow$')
def pow_(ip, c, a):
    return ip.conc(a[0]) ** ip.conc(a[1])


@rx(r'^std::f(32|64)::<impl f\d\d>::(to|from)_bits$', r'^core::f(32|64)::<impl f\d\d>::(to|from)_bits$')
def f_bits(ip, c, a):
    return a[0]


@trait('std::cmp::Ord::min')
def omin(ip, c, a):
    x, y = ip.conc(a[0]), ip.conc(a[1])
    return min(x, y)


@trait('std::cmp::Ord::max')
def omax(ip, c, a):
    return max(ip.conc(a[0]), ip.conc(a[1]))


@fn('std::cmp::min')
def cmin(ip, c, a):
    return min(ip.conc(a[0]), ip.conc(a[1]))


@fn('std::cmp::max')
def cmax(ip, c, a):
    return max(ip.conc(a[0]), ip.conc(a[1]))


def bytes_of(ip, t):
    ty = ip.F.types.get(t) or {}
    if ty.get('k') == 'array':
        return ty['n'] * bytes_of(ip, ty['t'])
    if t == '()' or ty.get('k') == 'tuple' and not ty['ts']:
        return 0
    w, s = ip.width(t)
    return w // 8


@rx(r'^std::mem::size_of$')
def size_of(ip, c, a):
    return bytes_of(ip, c['targs'][0])


@rx(r'^std::intrinsics::size_of_val$', r'^std::mem::size_of_val$')
def size_of_val(ip, c, a):
    return bytes_of(ip, c['targs'][0])


@rx(r'PartialEq(<str>)? for str>::(eq|ne)$', r'^<str as std::cmp::PartialEq(<str>)?>::(eq|ne)$')
def str_eq(ip, c, a):
    def text(v):
        while type(v) is Ref:
            v = ip.load(v.c, v.p)
        if type(v) is Str and v.v is not None:
            return list(v.v.encode() if type(v.v) is str else v.v)
        return elems(ip, sl(ip, v))
    x, y = text(a[0]), text(a[1])
    return int(seq_eq(ip, x, y) == (c['name'].split('::')[-1] == 'eq' if 'name' in c else True))


@fn('std::hint::must_use', 'std::hint::black_box')
def same_value(ip, c, a):
    return a[0]


@rx(r'^std::fmt::rt::Argument::<.*>::new_\w+$', r'^std::fmt::rt::<impl std::fmt::Arguments<.*>>::new(_v1|_const|_v1_formatted)?$',
    r'^std::fmt::Arguments::<.*>::(new|new_v1|new_const|from_str|from_str_nonconst)$', r'^std::fmt::format$',
    r'From<(&.*)?(std::string::String|str)> for std::borrow::Cow<.*str>>::from$')
def fmt_any(ip, c, a):
    return Agg('prov::Text', 0, [])


@fn('std::hint::unreachable_unchecked::precondition_check', 'std::hint::assert_unchecked::precondition_check',
    'std::intrinsics::cold_path')
def nothing(ip, c, a):
    return unit()


@rx(r'precondition_check$')
def precond(ip, c, a):
    return unit()


@fn('std::intrinsics::bswap')
def bswap(ip, c, a):
    w, s = ip.width(c['targs'][0])
    x = ip.bits(a[0], w)
    out = ()
    for i in range(w - 8, -1, -8):
        out += x[i:i + 8]
    return mk(out, w, s)


@fn('std::intrinsics::ctpop')
def ctpop(ip, c, a):
    w, s = ip.width(c['targs'][0])
    return ones(ip, ip.bits(a[0], w))


def ones(ip, x):
    n = 0
    for l in x:
        l = ip.res(l)
        if l not in (0, 1):
            raise Unknown('number of ones in data')
        n += l
    return n


@rx(r'^bitvec::BitSlice::<T, O>::count_(ones|zeros)$')
def b_count(ip, c, a):
    x = ip.bvec(bsl(ip, a[0], c))
    n = ones(ip, x)
    return n if c['def'].endswith('ones') else len(x) - n


@fn('std::intrinsics::exact_div')
def exact_div(ip, c, a):
    x, y = ip.conc(a[0]), ip.conc(a[1])
    if y == 0 or x % y:
        raise Panic('exact division')
    return x // y


@fn('std::intrinsics::assert_inhabited', 'std::intrinsics::assert_zero_valid', 'std::intrinsics::assert_mem_uninitialized_valid',
    'std::intrinsics::assume', 'std::intrinsics::cold_path')
def nothing(ip, c, a):
    return unit()


def seq_eq(ip, x, y):
    if len(x) != len(y):
        return False
    for i, j in zip(x, y):
        if type(i) not in (int, Bits) or type(j) not in (int, Bits):
            raise Unknown('comparison of %r' % (i,))
        if not ip.eq(i, j, 8):
            return False
    return True


@fn('std::intrinsics::raw_eq')
def raw_eq(ip, c, a):
    return int(seq_eq(ip, elems(ip, sl(ip, a[0])), elems(ip, sl(ip, a[1]))))


@rx(r'cmp::PartialEq<\[U(; N)?\]> for \[T(; N)?\]>::(eq|ne)$', r'cmp::PartialEq<&?(mut )?\[U(; N)?\]> for \[T(; N)?\]>::(eq|ne)$',
    r'^<std::vec::Vec<T, A1?> as std::cmp::PartialEq<.*>>::(eq|ne)$', r'PartialEq<.*\[U(; N)?\]> for std::vec::Vec<T, A>>::(eq|ne)$',
    r'PartialEq<std::vec::Vec<.*>> for .*\[T(; N)?\]>::(eq|ne)$')
def slice_eq(ip, c, a):
    x, y = elems(ip, sl(ip, a[0])), elems(ip, sl(ip, a[1]))
    if any(type(v) not in (int, Bits) for v in list(x) + list(y)):
        return NotImplemented
    return int(seq_eq(ip, x, y) == c['def'].endswith('::eq'))


@rx(r'^std::num::NonZero::<T>::new$')
def nz_new(ip, c, a):
    if type(a[0]) not in (int, Bits, Cnt):
        return NotImplemented
    return opt(None if not ip.truth(a[0]) else (Agg('std::num::NonZero', 0, [Agg('', 0, [a[0]])]),))


@rx(r'^std::num::NonZero::<T>::get$', r'^<.* as std::convert::From<std::num::NonZero<.*>>>::from$')
def nz_get(ip, c, a):
    x = a[0]
    while type(x) is Agg and len(x.f) == 1:
        x = x.f[0]
    return x


@rx(r'^std::array::<impl \[T; N\]>::map$')
def arr_map(ip, c, a):
    return [ip.apply(a[1], [x]) for x in a[0]]


@fn('std::intrinsics::ctlz', 'std::intrinsics::ctlz_nonzero')
def ctlz(ip, c, a):
    w, s = ip.width(c['targs'][0])
    return count(ip, list(reversed(ip.bits(a[0], w))))


@fn('std::intrinsics::saturating_sub')
def isatsub(ip, c, a):
    return max(0, ip.conc(a[0]) - ip.conc(a[1]))


# ---- panics ------------------------------------------------------------------------------------
@rx(r'^std::(rt::panic|option::(unwrap|expect)_failed|result::unwrap_failed|panicking::|panic::)',
    r'^core::panicking::', r'slice_index_fail$', r'RangeError::report$', r'assert_failed')
def panics(ip, c, a):
    raise Panic('panics (%s)' % c['def'])


# ---- memory --------------------------------------------------------------------------------------
@fn('std::mem::swap')
def swap(ip, c, a):
    x, y = ip.deref(a[0]), ip.deref(a[1])
    ip.store(a[0].c, a[0].p, y)
    ip.store(a[1].c, a[1].p, x)
    return unit()


@fn('std::mem::replace')
def replace(ip, c, a):
    x = ip.deref(a[0])
    ip.store(a[0].c, a[0].p, a[1])
    return x


@fn('std::mem::take')
def take(ip, c, a):
    x = ip.deref(a[0])
    if type(x) is Agg and 'Option' in x.ty:
        ip.store(a[0].c, a[0].p, none())
        return x
    if type(x) in (int, Bits):
        ip.store(a[0].c, a[0].p, 0)
        return x
    raise Unknown('mem::take')


@fn('std::option::Option::<T>::take')
def otake(ip, c, a):
    x = ip.deref(a[0])
    ip.store(a[0].c, a[0].p, none())
    return x


@fn('std::mem::drop')
def mdrop(ip, c, a):
    return unit()


@trait('std::clone::Clone::clone')
def clone(ip, c, a):
    v = ip.deref(a[0]) if type(a[0]) is Ref else a[0]
    return dup(v)


@trait('std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut', 'std::borrow::Borrow::borrow')
def asref(ip, c, a):
    if 'Option' in c['def']:
        return NotImplemented
    return a[0]


# ---- slices -----------------------------------------------------------------------------------------
@rx(r'slice::<impl \[T\]>::len$')
def slen(ip, c, a):
    s = sl(ip, a[0])
    return s.hi - s.lo


@rx(r'slice::<impl \[T\]>::is_empty$')
def sempty(ip, c, a):
    s = sl(ip, a[0])
    return int(s.hi == s.lo)


@trait('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def tindex(ip, c, a):
    v = a[0]
    while type(v) is Ref and type(ip.load(v.c, v.p)) in (Ref, Sl, BSl):
        v = ip.load(v.c, v.p)
    if type(v) is BSl or 'bitvec::' in c['def']:
        s = bsl(ip, v, c)
        return bindex(ip, s, a[1])
    return index(ip, sl(ip, v), a[1])


@rx(r'slice::<impl \[T\]>::get(_mut)?$')
def sget(ip, c, a):
    s = sl(ip, a[0])
    try:
        return some(index(ip, s, a[1]))
    except Panic:
        return none()


@rx(r'slice::<impl \[T\]>::get_unchecked(_mut)?$')
def sgetu(ip, c, a):
    return index(ip, sl(ip, a[0]), a[1])


@rx(r'slice::<impl \[T\]>::(first|last)(_mut)?$')
def sfirst(ip, c, a):
    s = sl(ip, a[0])
    if s.hi == s.lo:
        return none()
    return some(Ref(s.c, s.p + ((s.lo if '::first' in c['def'] else s.hi - 1),)))


@rx(r'slice::<impl \[T\]>::split_at(_mut)?(_unchecked)?$')
def split_at(ip, c, a):
    s = sl(ip, a[0])
    k = ip.conc(a[1])
    nonzero_range(0, k, s.hi - s.lo, 'split_at')
    return Agg('', 0, [Sl(s.c, s.p, s.lo, s.lo + k), Sl(s.c, s.p, s.lo + k, s.hi)])


@rx(r'slice::<impl \[T\]>::split_first(_mut)?$')
def split_first(ip, c, a):
    s = sl(ip, a[0])
    if s.hi == s.lo:
        return none()
    return some(Agg('', 0, [Ref(s.c, s.p + (s.lo,)), Sl(s.c, s.p, s.lo + 1, s.hi)]))


@rx(r'slice::<impl \[T\]>::copy_within$')
def copy_within(ip, c, a):
    s = sl(ip, a[0])
    lo, hi = rng(ip, a[1], s.hi - s.lo)
    d = ip.conc(a[2])
    nonzero_range(lo, hi, s.hi - s.lo, 'copy_within')
    if d + hi - lo > s.hi - s.lo:
        raise Panic('copy_within: destination')
    arr = ip.load(s.c, s.p)
    arr[s.lo + d:s.lo + d + hi - lo] = [dup(x) for x in arr[s.lo + lo:s.lo + hi]]
    return unit()


@rx(r'slice::<impl \[T\]>::(copy|clone)_from_slice$')
def copy_from(ip, c, a):
    s, t = sl(ip, a[0]), sl(ip, a[1])
    if s.hi - s.lo != t.hi - t.lo:
        raise Panic('copy_from_slice: lengths')
    x = [dup(e) for e in elems(ip, t)]
    arr = ip.load(s.c, s.p)
    arr[s.lo:s.hi] = x
    return unit()


@rx(r'slice::<impl \[T\]>::fill$')
def fill(ip, c, a):
    s = sl(ip, a[0])
    arr = ip.load(s.c, s.p)
    for i in range(s.lo, s.hi):
        arr[i] = dup(a[1])
    return unit()


@rx(r'slice::<impl \[T\]>::reverse$')
def reverse(ip, c, a):
    s = sl(ip, a[0])
    arr = ip.load(s.c, s.p)
    arr[s.lo:s.hi] = list(reversed(arr[s.lo:s.hi]))
    return unit()


@rx(r'slice::<impl \[T\]>::rotate_(left|right)$')
def srotate(ip, c, a):
    s = sl(ip, a[0])
    k = ip.conc(a[1])
    arr = ip.load(s.c, s.p)
    x = arr[s.lo:s.hi]
    nonzero_range(0, k, len(x), 'rotate')
    if c['def'].endswith('right'):
        k = len(x) - k
    arr[s.lo:s.hi] = x[k:] + x[:k]
    return unit()


@rx(r'slice::<impl \[T\]>::swap$')
def sswap(ip, c, a):
    s = sl(ip, a[0])
    i, j = ip.conc(a[1]), ip.conc(a[2])
    arr = ip.load(s.c, s.p)
    if max(i, j) >= s.hi - s.lo:
        raise Panic('swap')
    arr[s.lo + i], arr[s.lo + j] = arr[s.lo + j], arr[s.lo + i]
    return unit()


@rx(r'^std::array::<impl \[T; N\]>::as_(mut_)?slice$')
def as_slice(ip, c, a):
    return sl(ip, a[0])


@rx(r'^std::array::from_fn$')
def from_fn(ip, c, a):
    return NotImplemented


@trait('std::convert::TryFrom::try_from')
def try_from(ip, c, a):
    if 'for [T; N]>::try_from' in c['def'] or c['def'].startswith('<[T; N] as'):
        s = sl(ip, a[0])
        n = int(c['targs'][-1])
        if s.hi - s.lo != n:
            return Agg('std::result::Result', 1, [Agg('std::array::TryFromSliceError', 0, [unit()])])
        return ok([dup(x) for x in elems(ip, s)])
    return NotImplemented


# ---- iterators -------------------------------------------------------------------------------------------
@fn('std::slice::from_ref', 'std::slice::from_mut', 'std::array::from_ref', 'std::array::from_mut')
def from_ref(ip, c, a):
    r = a[0]
    if type(r) is Ref:
        while type(ip.load(r.c, r.p)) is Ref:
            r = ip.load(r.c, r.p)
        return Sl(OnePlace(ip, r), (), 0, 1)
    raise Unknown('from_ref')


@rx(r'slice::<impl \[T\]>::iter(_mut)?$')
def siter(ip, c, a):
    s = sl(ip, a[0])
    return It([Ref(s.c, s.p + (i,)) for i in range(s.lo, s.hi)])


def chunked(lo, hi, n, back, exact):
    out = []
    if not back:
        i = lo
        while i < hi:
            j = min(hi, i + n)
            if exact and j - i < n:
                break
            out.append((i, j))
            i = j
        return out, (i, hi)
    j = hi
    while j > lo:
        i = max(lo, j - n)
        if exact and j - i < n:
            break
        out.append((i, j))
        j = i
    return out, (lo, j)


@rx(r'slice::(api::)?<impl (bitvec::BitSlice<T, O>|\[T\])>::r?chunks(_exact)?(_mut)?$')
def chunks(ip, c, a):
    name = c['def'].rsplit('::', 1)[1]
    n = ip.conc(a[1])
    if n == 0:
        raise Panic('chunk size zero')
    if 'BitSlice' in c['def']:
        s = bsl(ip, a[0], c)
        f = lambda x: BSl(s.c, s.p, x[0], x[1], s.o)
    else:
        s = sl(ip, a[0])
        f = lambda x: Sl(s.c, s.p, x[0], x[1])
    parts, rem = chunked(s.lo, s.hi, n, name.startswith('r'), 'exact' in name)
    return It([f(x) for x in parts], f(rem))


@rx(r'::iter::R?ChunksExact(Mut)?::<.*>::(into_|take_)?remainder$')
def remainder(ip, c, a):
    x = a[0]
    while type(x) is Ref:
        x = ip.load(x.c, x.p)
    r = x.rem
    return BSl(r.c, r.p, r.lo, r.hi, r.o) if type(r) is BSl else Sl(r.c, r.p, r.lo, r.hi)


@trait('std::iter::IntoIterator::into_iter')
def into_iter(ip, c, a):
    x = a[0]
    if ip.is_it(x):
        return x
    if type(x) is list:
        return It(list(x))
    if is_vec(x):
        return It(list(x.f[0]))
    if type(x) is BSl:
        return b_iter(ip, c, [x])
    if type(x) in (Ref, Sl):
        return siter(ip, c, [x])
    return NotImplemented


@trait('std::iter::Iterator::by_ref')
def by_ref(ip, c, a):
    return a[0]


@trait('std::iter::Iterator::next')
def nxt(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    return opt(ip.it_next(a[0]))


@trait('std::iter::DoubleEndedIterator::next_back')
def nxtb(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    return opt(ip.it_back(a[0]))


@trait('std::iter::Iterator::nth')
def nth(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    for _ in range(ip.conc(a[1])):
        if ip.it_next(a[0]) is None:
            return none()
    return opt(ip.it_next(a[0]))


@trait('std::iter::Iterator::zip')
def izip(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    return Wrap('zip', a[0], into_iter(ip, c, [a[1]]))


for k in ('enumerate', 'rev', 'copied', 'cloned'):
    @trait('std::iter::Iterator::' + k)
    def wrap1(ip, c, a, k=k):
        if not ip.is_it(a[0]):
            return NotImplemented
        return Wrap('copied' if k == 'cloned' else k, a[0])

for k in ('skip', 'take'):
    @trait('std::iter::Iterator::' + k)
    def wrap2(ip, c, a, k=k):
        if not ip.is_it(a[0]):
            return NotImplemented
        return Wrap(k, a[0], ip.conc(a[1]))


for k in ('filter', 'skip_while', 'take_while'):
    @trait('std::iter::Iterator::' + k)
    def wrap3(ip, c, a, k=k):
        if not ip.is_it(a[0]):
            return NotImplemented
        return Wrap(k, a[0], a[1])


@trait('std::iter::Iterator::step_by')
def istep(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    return Wrap('step', a[0], ip.conc(a[1]))


@trait('std::iter::Iterator::size_hint')
def isizehint(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    n = ip.it_size(a[0])
    return Agg('', 0, [n, some(n)])


@trait('std::iter::Iterator::last')
def ilast(ip, c, a):
    if type(a[0]) not in (It, Ones):
        return NotImplemented
    return opt(ip.it_back(a[0]))


@rx(r'^bitvec::BitSlice::<T, O>::iter_(ones|zeros)$')
def b_iter_ones(ip, c, a):
    s = bsl(ip, a[0], c)
    x = [ip.res(l) for l in ip.bvec(s)]
    if c['def'].endswith('zeros'):
        x = [neg(l) for l in x]
    return Ones(x, count)


@rx(r'^std::array::from_fn$')
def array_from_fn(ip, c, a):
    t = [x for x in c['targs'] or [] if str(x).isdigit()]
    if not t:
        return NotImplemented
    return [ip.apply(a[0], [i]) for i in range(int(t[0]))]


@rx(r'slice::<impl \[T\]>::windows$')
def windows(ip, c, a):
    s = sl(ip, a[0])
    k = ip.conc(a[1])
    if k == 0:
        raise Panic('windows of 0')
    return It([Sl(s.c, s.p, i, i + k) for i in range(s.lo, s.hi - k + 1)])


@trait('std::iter::Iterator::map')
def imap(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    return Wrap('map', a[0], a[1])


@trait('std::iter::Iterator::chain')
def ichain(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    return Wrap('chain', a[0], into_iter(ip, c, [a[1]]))


@trait('std::iter::Iterator::position')
def position(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    n = 0
    while True:
        x = ip.it_next(a[0])
        if x is None:
            return none()
        if ip.truth(ip.apply(a[1], [x[0]])):
            return some(n)
        n += 1


@trait('std::iter::Iterator::rposition')
def rposition(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    while True:
        n = ip.it_size(a[0])
        x = ip.it_back(a[0])
        if x is None:
            return none()
        if ip.truth(ip.apply(a[1], [x[0]])):
            return some(n - 1)


@trait('std::iter::Iterator::any', 'std::iter::Iterator::all')
def iany(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    want = c['trait'].endswith('any')
    while True:
        x = ip.it_next(a[0])
        if x is None:
            return int(not want)
        if ip.truth(ip.apply(a[1], [x[0]])) == want:
            return int(want)


@trait('std::iter::Iterator::find')
def ifind(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    while True:
        x = ip.it_next(a[0])
        if x is None:
            return none()
        if ip.truth(ip.apply(a[1], [Ref(Cell(x[0]))])):
            return some(x[0])


@trait('std::iter::Iterator::fold')
def ifold(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    acc = a[1]
    while True:
        x = ip.it_next(a[0])
        if x is None:
            return acc
        acc = ip.apply(a[2], [acc, x[0]])


@trait('std::iter::Iterator::for_each')
def iforeach(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    while True:
        x = ip.it_next(a[0])
        if x is None:
            return unit()
        ip.apply(a[1], [x[0]])


@trait('std::iter::Iterator::count')
def icount(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    if type(a[0]) is Wrap:
        n = 0
        while ip.it_next(a[0]) is not None:
            n += 1
        return n
    return ip.it_size(a[0])


@trait('std::iter::ExactSizeIterator::len')
def ilen(ip, c, a):
    if not ip.is_it(a[0]):
        return NotImplemented
    return ip.it_size(a[0])


# ---- bit slices ---------------------------------------------------------------------------------------------
def order(c, i=-1):
    for t in c['targs'] or []:
        if t.endswith('Msb0'):
            return 'M'
        if t.endswith('Lsb0') or t.endswith('LocalBits'):
            return 'L'
    if 'Msb0' in c['def']:
        return 'M'
    if 'Lsb0' in c['def'] or 'LocalBits' in c['def']:
        return 'L'
    raise Unknown('bit order of ' + c['def'])


def barr(ip, v):
    x = ip.load(v.c, v.p)
    return type(x) is Agg and is_barr(x)


def is_barr(x):
    return x.ty.split('<')[0].split('::')[-1] == 'BitArray'


def is_bvec(x):
    return x.ty.split('<')[0].split('::')[-1] == 'BitVec'


def tyorder(t):
    return 'M' if t.endswith('Msb0') or t.endswith('Msb0>') else 'L'


def bsl(ip, v, c=None):
    while type(v) is Ref:
        x = ip.load(v.c, v.p)
        if type(x) is Agg and is_barr(x):
            return BSl(v.c, v.p + (1,), 0, 8 * len(x.f[1]), tyorder(x.ty))
        if type(x) is Agg and is_bvec(x):
            return BSl(v.c, v.p + (1,), 0, x.f[2], tyorder(x.ty))
        if type(x) is list and c is not None:         # an array transmuted to a bit array
            return BSl(v.c, v.p, 0, 8 * len(x), order(c))
        v = x
    if type(v) is BSl:
        return v
    raise Unknown('bit slice of %r' % (v,))


def bindex(ip, s, i):
    n = s.hi - s.lo
    if type(i) is not Agg:
        i = ip.conc(i)
        if not 0 <= i < n:
            raise Panic('bit index %d of %d' % (i, n))
        return Ref(BitPlace(ip, s, i))
    lo, hi = rng(ip, i, n)
    nonzero_range(lo, hi, n, 'bit slice index')
    return BSl(s.c, s.p, s.lo + lo, s.lo + hi, s.o)


@fn('bitvec::BitArray::<A, O>::new')
def ba_new(ip, c, a):
    return Agg('BitArray<Msb0>' if order(c) == 'M' else 'BitArray<Lsb0>', 0, [unit(), dup(a[0])])


@rx(r'^bitvec::array::traits::<impl std::convert::From<A> for bitvec::BitArray<A, O>>::from$')
def ba_from(ip, c, a):
    return ba_new(ip, c, a)


def bvec(ls, o):
    bs = []
    for i in range(0, len(ls), 8):
        x = list(ls[i:i + 8]) + [0] * (8 - len(ls[i:i + 8]))
        bs.append(mk(tuple(reversed(x)) if o == 'M' else tuple(x)))
    return Agg('BitVec<Msb0>' if o == 'M' else 'BitVec<Lsb0>', 0, [unit(), bs, len(ls)])


@rx(r'^bitvec::BitVec::<T, O>::repeat$')
def bv_repeat(ip, c, a):
    v = ip.bits(a[0], 1)[0]
    return bvec([v] * ip.conc(a[1]), order(c))


@rx(r'^bitvec::BitVec::<T, O>::(new|with_capacity)$', r'^bitvec::vec::api::<impl bitvec::BitVec<T, O>>::(new|with_capacity)$', r'^bitvec::BitVec::<T, O>::EMPTY$')
def bv_new(ip, c, a):
    return bvec([], order(c))


@rx(r'^bitvec::BitVec::<T, O>::from_(bitslice|slice|vec|element)$', r'^bitvec::slice::api::.*::to_(vec|bitvec)$', r'^bitvec::BitSlice::<T, O>::to_bitvec$',
    r'bitvec::BitVec<T, O> as std::convert::From<&\w* ?bitvec::BitSlice<T, O>>>::from$')
def bv_from(ip, c, a):
    try:
        s = bsl(ip, a[0])
    except Unknown:
        x = sl(ip, a[0])
        s = BSl(x.c, x.p, 8 * x.lo, 8 * x.hi, order(c))
    return bvec(ip.bvec(s), s.o)


@rx(r'^bitvec::BitVec::<T, O>::try_from_slice$')
def bv_try(ip, c, a):
    x = sl(ip, a[0])
    s = BSl(x.c, x.p, 8 * x.lo, 8 * x.hi, order(c))
    return ok(bvec(ip.bvec(s), s.o))


@rx(r'^bitvec::BitVec::<T, O>::as_(mut_)?bitslice$', r'bitvec::BitVec<T, O> as std::ops::Deref(Mut)?>::deref(_mut)?$',
    r'std::ops::Deref(Mut)? for bitvec::BitVec<T, O>>::deref(_mut)?$')
def bv_deref(ip, c, a):
    return bsl(ip, a[0])


@rx(r'^bitvec::BitVec::<T, O>::len$', r'bitvec::vec::api::.*::len$')
def bv_len(ip, c, a):
    s = bsl(ip, a[0], c)
    return s.hi - s.lo


def bv_set(ip, r, ls, o):
    while True:
        x = ip.load(r.c, r.p)
        if type(x) is not Ref:
            break
        r = x
    ip.store(r.c, r.p, bvec(ls, o))
    return unit()


@rx(r'^bitvec::BitVec::<T, O>::extend_from_bitslice$', r'bitvec::BitVec<.*extend_from_slice$')
def bv_extend(ip, c, a):
    s = bsl(ip, a[0])
    return bv_set(ip, a[0], ip.bvec(s) + ip.bvec(bsl(ip, a[1])), s.o)


@rx(r'bitvec::vec::api::<impl bitvec::BitVec<T, O>>::(push|insert|resize|truncate|clear|split_off|pop|remove)$', r'^bitvec::BitVec::<T, O>::(push|insert|resize|truncate|clear|split_off|pop|remove)$')
def bv_push(ip, c, a):
    s = bsl(ip, a[0])
    ls = list(ip.bvec(s))
    k = c['def'].rsplit('::', 1)[1]
    if k == 'push':
        ls.append(ip.bits(a[1], 1)[0])
    elif k == 'insert':
        ls.insert(ip.conc(a[1]), ip.bits(a[2], 1)[0])
    elif k == 'clear':
        ls = []
    elif k == 'split_off':
        n = ip.conc(a[1])
        nonzero_range(n, n, len(ls), k)
        bv_set(ip, a[0], ls[:n], s.o)
        return bvec(ls[n:], s.o)
    elif k in ('pop', 'remove'):
        i = len(ls) - 1 if k == 'pop' else ip.conc(a[1])
        if k == 'pop' and not ls:
            return none()
        nonzero_range(i, i + 1, len(ls), k)
        x = mk((ls.pop(i),))
        bv_set(ip, a[0], ls, s.o)
        return some(x) if k == 'pop' else x
    elif k == 'resize':
        n = ip.conc(a[1])
        ls = ls[:n] + [ip.bits(a[2], 1)[0]] * (n - len(ls))
    else:
        ls = ls[:ip.conc(a[1])]
    return bv_set(ip, a[0], ls, s.o)


@rx(r'^bitvec::BitVec::<T, O>::into_vec$')
def bv_into(ip, c, a):
    return vec(list(a[0].f[1]))


@rx(r'^bitvec::vec::iter::<impl std::iter::FromIterator<.*> for bitvec::BitVec<T, O>>::from_iter$')
def bv_from_iter(ip, c, a):
    return bvec([ip.bits(ip.deref(x) if type(x) is Ref else x, 1)[0] for x in drain_it(ip, a[0])], order(c))


@rx(r'^bitvec::vec::iter::<impl std::iter::Extend<.*> for bitvec::BitVec<T, O>>::extend$')
def bv_ext(ip, c, a):
    s = bsl(ip, a[0])
    return bv_set(ip, a[0], list(ip.bvec(s)) + [ip.bits(ip.deref(x) if type(x) is Ref else x, 1)[0] for x in drain_it(ip, a[1])], s.o)


@rx(r'^bitvec::BitVec::<T, O>::as_raw_(mut_)?slice$')
def bv_raw(ip, c, a):
    s = bsl(ip, a[0])
    return Sl(s.c, s.p, 0, (s.hi + 7) // 8)


@rx(r'^bitvec::BitArray::<A, O>::into_inner$')
def ba_inner(ip, c, a):
    return a[0].f[1]


@rx(r'^bitvec::BitArray::<A, O>::as_raw_(mut_)?slice$')
def ba_raw(ip, c, a):
    s = bsl(ip, a[0], c)
    return Sl(s.c, s.p, 0, s.hi // 8)


@rx(r'^bitvec::BitArray::<A, O>::len$', r'slice::api::<impl bitvec::BitSlice<T, O>>::len$')
def b_len(ip, c, a):
    s = bsl(ip, a[0], c)
    return s.hi - s.lo


@rx(r'slice::api::<impl bitvec::BitSlice<T, O>>::is_empty$')
def b_empty(ip, c, a):
    s = bsl(ip, a[0], c)
    return int(s.hi == s.lo)


@rx(r'bitvec::BitArray<A, O>>::deref(_mut)?$', r'^bitvec::BitArray::<A, O>::as_(mut_)?bitslice$')
def ba_deref(ip, c, a):
    return bsl(ip, a[0])


@rx(r'BitView>::view_bits(_mut)?$', r'BitView::view_bits(_mut)?$')
def view_bits(ip, c, a):
    r = a[0]
    while type(r) is Ref and type(ip.load(r.c, r.p)) is Ref:
        r = ip.load(r.c, r.p)
    if type(r) is Ref and type(ip.load(r.c, r.p)) in (int, Bits):
        t = (c.get('targs') or [''])[0]
        if t != 'u8' and not re.search(r'&(\'\w+ )?(mut )?u8$', (c.get('locals') or ['', ''])[1]):
            raise Unknown('bits of one ' + t)
        s = Sl(OnePlace(ip, r), (), 0, 1)
    else:
        s = sl(ip, r)
    return BSl(s.c, s.p, 8 * s.lo, 8 * s.hi, order(c))


@fn('bitvec::BitSlice::<T, O>::from_slice', 'bitvec::BitSlice::<T, O>::from_slice_mut')
def b_from_slice(ip, c, a):
    return view_bits(ip, c, a)


@fn('bitvec::BitSlice::<T, O>::try_from_slice', 'bitvec::BitSlice::<T, O>::try_from_slice_mut')
def b_try_from_slice(ip, c, a):
    return ok(view_bits(ip, c, a))


@rx(r'^bitvec::BitSlice::<T, O>::from_element(_mut)?$')
def b_from_element(ip, c, a):
    v = a[0]
    cell = Cell([ip.deref(v)])
    if c['def'].endswith('_mut'):
        raise Unknown(c['def'])
    return BSl(cell, (), 0, 8, order(c))


@fn('bitvec::BitSlice::<T, O>::empty')
def b_emptyslice(ip, c, a):
    return BSl(Cell([]), (), 0, 0, order(c))


@rx(r'slice::api::<impl bitvec::BitSlice<T, O>>::split_at(_mut)?$')
def b_split(ip, c, a):
    s = bsl(ip, a[0], c)
    k = ip.conc(a[1])
    nonzero_range(0, k, s.hi - s.lo, 'bit split_at')
    return Agg('', 0, [BSl(s.c, s.p, s.lo, s.lo + k, s.o), BSl(s.c, s.p, s.lo + k, s.hi, s.o)])


@rx(r'slice::api::<impl bitvec::BitSlice<T, O>>::get(_mut)?$')
def b_get(ip, c, a):
    s = bsl(ip, a[0], c)
    try:
        r = bindex(ip, s, a[1])
    except Panic:
        return none()
    if type(r) is Ref:
        return some(Agg('BitRef', 0, [r]))
    return some(r)


@rx(r'BitRef<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$')
def bitref_deref(ip, c, a):
    v = a[0]
    while type(v) is Ref and type(v.c) is not BitPlace:
        v = ip.load(v.c, v.p)
        if type(v) is Agg and v.ty == 'BitRef':
            v = v.f[0]
    return v


@rx(r'BitRef.*::(commit|set|replace)$')
def bitref_commit(ip, c, a):
    v = a[0]
    while type(v) is Ref and type(v.c) is not BitPlace:
        v = ip.load(v.c, v.p)
    if type(v) is Agg:
        v = v.f[0]
    x = ip.load(v.c, v.p)
    ip.store(v.c, v.p, a[1])
    return x if c['def'].endswith('replace') else unit()


@rx(r'^bitvec::BitSlice::<T, O>::(set|replace)$')
def b_set(ip, c, a):
    s = bsl(ip, a[0], c)
    i = ip.conc(a[1])
    x = ip.bget(s, i)
    ip.bset(s, i, ip.bits(a[2], 1)[0])
    return mk((x,)) if c['def'].endswith('replace') else unit()


@rx(r'slice::(api|ops)::<impl bitvec::BitSlice<T, O>>::fill$', r'^bitvec::BitSlice::<T, O>::fill$')
def b_fill(ip, c, a):
    s = bsl(ip, a[0], c)
    l = ip.bits(a[1], 1)[0]
    ip.bput(s, [l] * (s.hi - s.lo))
    return unit()


@rx(r'copy_from_bitslice$', r'clone_from_bitslice$')
def b_copy(ip, c, a):
    s, t = bsl(ip, a[0]), bsl(ip, a[1])
    if s.hi - s.lo != t.hi - t.lo:
        raise Panic('copy_from_bitslice: lengths %d and %d' % (s.hi - s.lo, t.hi - t.lo))
    ip.bput(s, ip.bvec(t))
    return unit()


@rx(r'copy_within$')
def b_copy_within(ip, c, a):
    s = bsl(ip, a[0], c)
    n = s.hi - s.lo
    lo, hi = rng(ip, a[1], n)
    d = ip.conc(a[2])
    nonzero_range(lo, hi, n, 'bit copy_within')
    if d + hi - lo > n:
        raise Panic('bit copy_within: destination')
    x = ip.bvec(s)[lo:hi]
    for i, l in enumerate(x):
        ip.bset(s, d + i, l)
    return unit()


@rx(r'^bitvec::BitSlice::<T, O>::shift_(end|start)$')
def b_shift(ip, c, a):
    s = bsl(ip, a[0], c)
    n = s.hi - s.lo
    k = ip.conc(a[1])
    x = ip.bvec(s)
    if k > n:
        raise Panic('bit shift by %d of %d' % (k, n)) 
    x = [0] * k + x[:n - k] if c['def'].endswith('end') else x[k:] + [0] * k
    ip.bput(s, x)
    return unit()


@rx(r'BitSlice<T, O>>::rotate_(left|right)$', r'BitSlice<T, O>>::reverse$')
def b_rot(ip, c, a):
    s = bsl(ip, a[0], c)
    x = ip.bvec(s)
    if c['def'].endswith('reverse'):
        x.reverse()
    else:
        k = ip.conc(a[1])
        nonzero_range(0, k, len(x), 'rotate')
        if c['def'].endswith('right'):
            k = len(x) - k
        x = x[k:] + x[:k]
    ip.bput(s, x)
    return unit()


@rx(r'^bitvec::BitSlice::<T, O>::(first|last)_(one|zero)$')
def b_first(ip, c, a):
    s = bsl(ip, a[0], c)
    x = [ip.res(l) for l in ip.bvec(s)]
    name = c['def'].rsplit('::', 1)[1]
    if name.endswith('zero'):
        x = [neg(l) for l in x]
    if name.startswith('last'):
        x.reverse()
    n = count(ip, x)
    if type(n) is int and n >= len(x):
        return none()
    if name.startswith('last'):
        n = len(x) - 1 - n if type(n) is int else Cnt(n.b, -n.mul, len(x) - 1 - n.add, n.some)
    return some(n)


@rx(r'^bitvec::BitSlice::<T, O>::(leading|trailing)_(ones|zeros)$')
def b_leading(ip, c, a):
    s = bsl(ip, a[0], c)
    x = [ip.res(l) for l in ip.bvec(s)]
    name = c['def'].rsplit('::', 1)[1]
    if name.endswith('ones'):
        x = [neg(l) for l in x]
    if name.startswith('trailing'):
        x.reverse()
    return count(ip, x)


@rx(r'^bitvec::BitSlice::<T, O>::(any|not_any|all|not_all)$')
def b_any(ip, c, a):
    s = bsl(ip, a[0], c)
    x = ip.bvec(s)
    name = c['def'].rsplit('::', 1)[1]
    if name.endswith('all'):
        r = ip.all_zero([neg(l) for l in x])
        return int(r == (name == 'all'))
    r = ip.all_zero(x)
    return int(r == (name == 'not_any'))


@rx(r'BitField>::load(_be|_le)?$')
def b_load(ip, c, a):
    s = bsl(ip, a[0], c)
    t = c['targs'][-1]
    w, sg = ip.width(t)
    x = ip.bvec(s)
    n = len(x)
    if n == 0 or n > w:
        raise Panic('load of %d bits into %d' % (n, w))
    v = field(x, s, c['def'])
    if sg:
        v = v + [v[-1]] * (w - n)
    else:
        v = v + [0] * (w - n)
    return mk(tuple(v), w, sg)


def field(x, s, name):
    """origins (least significant first) of the integer a bit field holds.  Within each storage element the
    field is an ordinary integer; big-endian fields put the first element at the most significant place."""
    be = name.endswith('_be')
    # split by bytes
    parts = []
    q = s.lo
    i = 0
    while i < len(x):
        m = min(len(x) - i, 8 - q % 8)
        p = x[i:i + m]
        parts.append(list(reversed(p)) if s.o == 'M' else p)
        q += m
        i += m
    if be:
        parts.reverse()
    out = []
    for p in parts:
        out += p
    return out


@rx(r'BitField>::store(_be|_le)?$')
def b_store(ip, c, a):
    s = bsl(ip, a[0], c)
    t = c['targs'][-1]
    w, sg = ip.width(t)
    n = s.hi - s.lo
    if n == 0 or n > w:
        raise Panic('store of %d bits from %d' % (n, w))
    v = list(ip.bits(a[1], w))[:n]
    # positions in the order `field` reads them
    pos = field(list(range(n)), s, c['def'])
    for l, i in zip(v, pos):
        ip.bset(s, i, l)
    return unit()


@fn('bitvec::BitSlice::<T, O>::domain')
def b_domain(ip, c, a):
    s = bsl(ip, a[0], c)
    return Agg('BitDomain', 0, [s])


@rx(r'^bitvec::domain::Domain::<.*>::region$')
def b_region(ip, c, a):
    s = a[0].f[0]
    lo, hi = s.lo, s.hi
    if lo % 8 and hi % 8 and lo // 8 == hi // 8 or (lo // 8 == (hi - 1) // 8 and (lo % 8 and hi % 8)):
        return none()
    head = some(unit()) if lo % 8 else none()
    tail = some(unit()) if hi % 8 else none()
    return some(Agg('', 0, [head, Sl(s.c, s.p, -(-lo // 8), max(-(-lo // 8), hi // 8)), tail]))


@rx(r'slice::(api|iter)::<impl bitvec::BitSlice<T, O>>::iter$', r'slice::api::<impl bitvec::BitSlice<T, O>>::iter(_mut)?$')
def b_iter(ip, c, a):
    s = bsl(ip, a[0], c)
    return It([Ref(BitPlace(ip, s, i)) for i in range(s.hi - s.lo)])


@rx(r'::by_vals$')
def by_vals(ip, c, a):
    return Wrap('copied', a[0])


@rx(r'::by_refs$')
def by_refs(ip, c, a):
    return a[0]
