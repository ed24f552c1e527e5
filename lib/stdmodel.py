"""Hand-written summaries of std / bitvec functions (the trusted base of the abstract
interpreter).  A handler returns a list of (state, value) or None to fall through to
inlining / the opaque-call default."""
import re
import terms as T
from terms import lin, const, ZERO, ONE, is_const, cval, as_lin, from_lin, add, sub, scale, mul

TABLE = {}
REGEX = []


def reg(*pats):
    def deco(f):
        for p in pats:
            REGEX.append((re.compile(p), f))
        return f
    return deco


UNIT = ('agg', '', 0, ())


def some(v):
    return ('agg', 'Option', 1, (v,))


NONE = ('agg', 'Option', 0, ())


def ok(v=UNIT):
    return ('agg', 'Result', 0, (v,))


def err(v):
    return ('agg', 'Result', 1, (v,))


def one(st, v):
    return [(st, v)]


def pure(name):
    def h(en, st, callee, args, site, depth):
        return one(st, ('app', name, *[en.argval(st, a) for a in args]))
    return h


def strip(en, st, a, n=6):
    """follow references down to the reference to the innermost sequence / the value"""
    return a


def seqref(en, st, a):
    """reference value designating a sequence (slice/array/vec/bits); unwraps && and Vec/Box"""
    for _ in range(6):
        if a[0] == 'ref':
            v = en.load(st, a[1], a[2])
            if v[0] in ('ref', 'slice', 'bytes'):
                a = v
                continue
        break
    return a


def arr_bits(callee):
    """bit length of BitArray<[uN; M], _> from the type arguments"""
    for t in callee.get('targs') or []:
        m = re.fullmatch(r'\[u(\d+|size); (\d+)\]', t)
        if m:
            w = 64 if m.group(1) == 'size' else int(m.group(1))
            return w * int(m.group(2))
        m = re.fullmatch(r'u(\d+)', t)
        if m:
            return int(m.group(1))
    return None


def seqlen(en, st, callee, a):
    a = seqref(en, st, a)
    d = callee['def']
    if 'BitArray' in d:
        n = arr_bits(callee)
        if n is not None:
            return const(n)
    if '[T; N]' in d and a[0] == 'ref':
        for t in callee.get('targs') or ():
            m = re.match(r'(\d+)(_?usize)?$', str(t))
            if m:
                return const(int(m.group(1)))
    if a[0] == 'ref':
        v = en.load(st, a[1], a[2])
        if v[0] == 'bits':
            return as_lin(v[1])
    return en.seq_len(st, a)


def mkslice(en, base, start, ln):
    base_ = base
    if base[0] == 'slice':
        return ('slice', base[1], add(base[2], start), as_lin(ln))
    return ('slice', base_, as_lin(start), as_lin(ln))


def range_of(en, st, r, n):
    """(start, end, kind) of a range value against a sequence of length n"""
    if r[0] == 'agg':
        t = r[1]
        f = r[3]
        if 'RangeFull' in t:
            return ZERO, n
        if 'RangeToInclusive' in t:
            return ZERO, add(f[0], ONE)
        if 'RangeTo' in t:
            return ZERO, as_lin(f[0])
        if 'RangeFrom' in t:
            return as_lin(f[0]), n
        if 'RangeInclusive' in t:
            return as_lin(f[0]), add(f[1], ONE)
        if 'Range' in t:
            return as_lin(f[0]), as_lin(f[1])
    return None


def need(en, st, kind, callee, site, lins, ops=()):
    """obligation: every l in lins is >= 0; returns the state refined by it (None: contradiction)"""
    openl = []
    for l in lins:
        c = T_lt(l)
        d = en.decide(st, c)
        if d is None:
            openl.append(l)
            st = en.assume(st, c, False)
            if st is None:
                return None
        elif d:
            openl.append(l)
            en.note(site, kind, callee, tuple(ops), openl, st)
            return None
    en.note(site, kind, callee, tuple(ops), openl, st)
    return st


def T_lt(l):
    import engine
    return engine.canon_lt(l)


def T_eq(l):
    import engine
    return engine.canon_eq(l)


def T_not(v):
    import engine
    return engine.b_not(v)


# ---- panics -----------------------------------------------------------------------
@reg(r'^std::panicking::', r'^std::rt::panic', r'^std::panicking', r'unwrap_failed', r'expect_failed',
     r'slice_index_fail$', r'^std::alloc::handle_alloc_error', r'capacity_overflow$', r'^std::process::abort')
def h_panic(en, st, callee, args, site, depth):
    en.panic(site, callee, st)
    return []


# ---- formatting / logging are pure -----------------------------------------------------
@reg(r'^std::fmt::', r'^std::fmt::', r'^std::fmt::', r'^std::hint::must_use$', r'^std::hint::must_use$')
def h_fmt(en, st, callee, args, site, depth):
    d = callee['def']
    if d.endswith('must_use'):
        return one(st, args[0])
    if re.search(r'::fmt$|write_(str|fmt)', d):
        return None
    return one(st, ('txt',))


@reg(r'^log::', r'^<log::')
def h_log(en, st, callee, args, site, depth):
    return one(st, ('txt',))


# ---- mem ----------------------------------------------------------------------------------
@reg(r'^std::mem::swap$')
def h_swap(en, st, callee, args, site, depth):
    a, b = en.rd(st, args[0]), en.rd(st, args[1])
    en.wr(st, args[0], b)
    en.wr(st, args[1], a)
    return one(st, UNIT)


@reg(r'^std::mem::replace$', r'Option::<T>::replace$')
def h_replace(en, st, callee, args, site, depth):
    a = en.rd(st, args[0])
    v = args[1]
    if 'Option' in callee['def']:
        v = some(v)
    en.wr(st, args[0], v)
    return one(st, a)


@reg(r'Option::<T>::take$')
def h_otake(en, st, callee, args, site, depth):
    a = en.rd(st, args[0])
    en.wr(st, args[0], NONE)
    return one(st, a)


@reg(r'^std::mem::take$')
def h_take(en, st, callee, args, site, depth):
    a = en.rd(st, args[0])
    en.wr(st, args[0], ('app', 'Default::default', ('ty', (callee.get('targs') or ['?'])[0])))
    return one(st, a)


@reg(r'^std::mem::(forget|drop)$', r'^std::mem::ManuallyDrop.*::drop$')
def h_forget(en, st, callee, args, site, depth):
    return one(st, UNIT)


@reg(r'^std::mem::size_of(_val)?$', r'intrinsics::size_of$')
def h_sizeof(en, st, callee, args, site, depth):
    ty = (callee.get('targs') or ['?'])[0]
    return one(st, const_size(en, ty))


def const_size(en, ty):
    t = en.F.ty(ty)
    if t['k'] in ('int', 'uint') and 'b' in t:
        return const(t['b'] // 8)
    if t['k'] == 'bool':
        return ONE
    m = re.fullmatch(r'f(\d+)', ty)
    if m:
        return const(int(m.group(1)) // 8)
    if t['k'] == 'array':
        s = const_size(en, t['t'])
        if is_const(s):
            return const(cval(s) * t['n'])
    fs = None
    if t['k'] == 'tuple':
        fs = t['ts']
    elif t['k'] == 'adt' and not t['enum'] and not t.get('union') and len(t['vs']) == 1:
        fs = [f[1] for f in t['vs'][0]['f']]
    if ty == '()':
        return ZERO
    if fs is not None:
        zs = [const_size(en, x) for x in fs]
        if all(is_const(z) for z in zs) and sum(1 for z in zs if cval(z)) <= 1:
            return const(sum(cval(z) for z in zs))
    return as_lin(('app', 'size_of', ('ty', ty)))


@reg(r'intrinsics::discriminant_value$', r'mem::discriminant$')
def h_discr(en, st, callee, args, site, depth):
    v = en.rd(st, args[0])
    return one(st, en.discr_of(v, (callee.get('targs') or [None])[0]))


# ---- sequences ------------------------------------------------------------------------------
@reg(r'(?<!\w)(BitSlice|BitArray|BitVec)<[^>]*>>?::len$', r'(?<!\w)(BitSlice|BitArray|BitVec)::<[^>]*>::len$',
     r'std::slice::<impl \[T\]>::len$', r'std::vec::Vec::<T, A>::len$', r'std::str::<impl str>::len$',
     r'std::string::String::len$', r'^std::iter::ExactSizeIterator::len$')
def h_len(en, st, callee, args, site, depth):
    return one(st, from_lin(seqlen(en, st, callee, args[0])))


@reg(r'(?<!\w)(BitSlice|BitArray|BitVec)<[^>]*>>?::is_empty$', r'(?<!\w)(BitSlice|BitArray|BitVec)::<[^>]*>::is_empty$',
     r'std::slice::<impl \[T\]>::is_empty$', r'std::vec::Vec::<T, A>::is_empty$')
def h_empty(en, st, callee, args, site, depth):
    n = seqlen(en, st, callee, args[0])
    return one(st, T_eq(n))


@reg(r'std::ops::Index<.*>::index$', r'std::ops::IndexMut<.*>::index_mut$', r'^std::ops::Index::index$',
     r'::get_unchecked(_mut)?$', r'SliceIndex<\[T\]>>::index(_mut)?$')
def h_index(en, st, callee, args, site, depth):
    if len(args) < 2:
        return None
    s, r = args[0], args[1]
    if 'SliceIndex' in callee['def']:
        s, r = args[1], args[0]
    s = seqref(en, st, s)
    n = seqlen(en, st, callee, s)
    se = range_of(en, st, r, n)
    if se is None:
        if r[0] == 'lin' or r[0] in ('fld', 'phi', 'kiter', 'app', 'sym'):
            st = need(en, st, 'index', callee, site, [sub(sub(n, r), ONE)])
            if st is None:
                return []
            if s[0] == 'ref':
                return one(st, ('ref', s[1], s[2] + (('x', as_lin(r)),)))
            if s[0] == 'slice' and s[1][0] == 'ref':
                return one(st, ('ref', s[1][1], s[1][2] + (('x', add(s[2], r)),)))
            return one(st, ('ref', ('val', ('idx', s, as_lin(r))), ()))
        return None
    a, b = se
    kind = 'get_unchecked' if 'unchecked' in callee['def'] else 'slice'
    st = need(en, st, kind, callee, site, [sub(n, b), sub(b, a)])
    if st is None:
        return []
    return one(st, mkslice(en, s, a, sub(b, a)))


@reg(r'(?<!\w)(BitSlice|BitArray|BitVec)<[^>]*>>?::get(_mut)?$', r'std::slice::<impl \[T\]>::get(_mut)?$')
def h_get(en, st, callee, args, site, depth):
    s = seqref(en, st, args[0])
    n = seqlen(en, st, callee, s)
    if 'BitArray' in str(callee.get('targs')):
        pass
    r = args[1]
    se = range_of(en, st, r, n)
    if se is None:
        inb = T_lt(sub(r, n))
        el = ('ref', s[1], s[2] + (('x', as_lin(r)),)) if s[0] == 'ref' else ('idx', s, as_lin(r))
    else:
        a, b = se
        inb = T_not(T_lt(sub(n, b)))
        el = mkslice(en, s, a, sub(b, a))
    out = []
    s1 = en.assume(st, inb, True)
    if s1 is not None:
        out.append((s1, some(el)))
    s2 = en.assume(st, inb, False)
    if s2 is not None:
        out.append((s2, NONE))
    return out


@reg(r'::split_at(_mut)?(_unchecked)?$')
def h_split(en, st, callee, args, site, depth):
    s = seqref(en, st, args[0])
    n = seqlen(en, st, callee, s)
    m = as_lin(args[1])
    st = need(en, st, 'split', callee, site, [sub(n, m)])
    if st is None:
        return []
    return one(st, ('agg', '', 0, (mkslice(en, s, ZERO, m), mkslice(en, s, m, sub(n, m)))))


@reg(r'::(r?)chunks(_exact)?(_mut)?$')
def h_chunks(en, st, callee, args, site, depth):
    s = seqref(en, st, args[0])
    n = seqlen(en, st, callee, s)
    d = callee['def']
    m = re.search(r'::(r?)chunks(_exact)?(_mut)?$', d)
    kind = ('r' if m.group(1) else '') + 'chunks' + (m.group(2) or '')
    return one(st, ('iter', kind, s, n, n, as_lin(args[1])))


def it_ref(en, st, a):
    """(ref to iterator location, iterator value)"""
    for _ in range(6):
        if a[0] == 'ref':
            v = en.load(st, a[1], a[2])
            if v[0] == 'ref':
                a = v
                continue
            return a, v
        break
    return a, a


@reg(r'Chunks(Exact)?(Mut)?<.*>>? as std::iter::Iterator>::next$')
def h_chunks_next(en, st, callee, args, site, depth):
    r, v = it_ref(en, st, args[0])
    if v[0] != 'iter' or 'chunks' not in v[1]:
        return None
    _, kind, base, rem, total, ch = v
    out = []
    exact = 'exact' in kind
    if is_const(ch):
        c = cval(ch)
        # Some: at least one (full) chunk left
        cond = T_not(T_lt(sub(rem, const(c if exact else 1))))
        s1 = en.assume(st, cond, True)
        if s1 is not None:
            if exact:
                s1 = s1.copy()
                done = sub(total, rem)
                if kind[0] == 'r':
                    el = mkslice(en, base, sub(rem, ch), ch)
                else:
                    el = mkslice(en, base, done, ch)
                en.wr(s1, r, ('iter', kind, base, sub(rem, ch), total, ch))
                out.append((s1, some(el)))
            else:
                full = T_not(T_lt(sub(rem, ch)))
                for t in (True, False):
                    s3 = en.assume(s1, full, t)
                    if s3 is None:
                        continue
                    s3 = s3.copy()
                    ln = ch if t else rem
                    done = sub(total, rem)
                    el = mkslice(en, base, sub(rem, ln) if kind[0] == 'r' else done, ln)
                    en.wr(s3, r, ('iter', kind, base, sub(rem, ln), total, ch))
                    out.append((s3, some(el)))
        s2 = en.assume(st, cond, False)
        if s2 is not None:
            s2 = s2.copy()
            if exact:
                import engine
                rt = sub(total, scale(engine.div_term(total, c), c))
                if not s2.add_eq(sub(rem, rt)):
                    s2 = None
            if s2 is not None:
                out.append((s2, NONE))
        return out
    return None


@reg(r'Chunks(Exact)(Mut)?(::)?<.*>::(into_)?remainder$')
def h_remainder(en, st, callee, args, site, depth):
    r, v = it_ref(en, st, args[0])
    if v[0] != 'iter' or 'chunks' not in v[1]:
        return None
    _, kind, base, rem, total, ch = v
    import engine
    c = cval(ch)
    rl = sub(total, scale(engine.div_term(total, c), c))
    start = ZERO if kind[0] == 'r' else sub(total, rl)
    return one(st, mkslice(en, base, start, rl))


@reg(r'^std::iter::Iterator::by_ref$', r'std::iter::IntoIterator>?::into_iter$', r'^<I as std::iter::IntoIterator>')
def h_ident_iter(en, st, callee, args, site, depth):
    a = args[0]
    _, v = it_ref(en, st, a)
    if 'by_ref' in callee['def']:
        return one(st, a)
    if a[0] == 'iter' or v[0] == 'iter':
        return one(st, a)
    if callee['def'].startswith('<I as'):
        return one(st, a)
    return seq_iter(en, st, callee, a)


def seq_iter(en, st, callee, a):
    ty = None
    if callee.get('locals'):
        ty = callee['locals'][1]
    elif callee.get('targs'):
        ty = callee['targs'][0]
    if a[0] in ('ref', 'slice'):
        s = seqref(en, st, a)
        n = seqlen(en, st, callee, s)
        return one(st, ('iter', 'elems', s, n, n))
    if a[0] == 'vec':
        return one(st, ('iter', 'into', a, as_lin(a[1]), as_lin(a[1])))
    return None


@reg(r'std::slice::<impl \[T\]>::iter(_mut)?$', r"(slice::iter|array)::<impl std::iter::IntoIterator for &")
def h_iter(en, st, callee, args, site, depth):
    s = seqref(en, st, args[0])
    ta = callee.get('targs') or []
    if callee['def'].startswith('std::array') and len(ta) > 1 and ta[1].isdigit():
        n = const(int(ta[1]))
    else:
        n = seqlen(en, st, callee, s)
    return one(st, ('iter', 'elems', s, n, n))


@reg(r"<std::slice::Iter(Mut)?<'a, T> as std::iter::Iterator>::next$")
def h_iter_next(en, st, callee, args, site, depth):
    r, v = it_ref(en, st, args[0])
    if v[0] != 'iter' or v[1] != 'elems':
        return None
    _, kind, base, rem, total = v
    out = []
    cond = T_not(T_lt(sub(rem, ONE)))
    s1 = en.assume(st, cond, True)
    if s1 is not None:
        s1 = s1.copy()
        i = sub(total, rem)
        if base[0] == 'ref':
            root, path = en.index_loc(base[1], base[2], i)
            el = ('ref', root, path)
        elif base[0] == 'slice' and base[1][0] == 'ref':
            el = ('ref', base[1][1], base[1][2] + (('x', add(base[2], i)),))
        else:
            el = ('ref', ('val', ('idx', base, i)), ())
        en.wr(s1, r, ('iter', kind, base, sub(rem, ONE), total))
        out.append((s1, some(el)))
    s2 = en.assume(st, cond, False)
    if s2 is not None:
        s2 = s2.copy()
        if s2.add_eq(rem):
            out.append((s2, NONE))
    return out


@reg(r'slice::(api|iter)::<impl (bitvec|deku::bitvec)?(::)?BitSlice<T, O>>::iter$', r'BitSlice::<T, O>::iter$')
def h_bit_iter(en, st, callee, args, site, depth):
    s = seqref(en, st, args[0])
    n = seqlen(en, st, callee, s)
    return one(st, ('iter', 'bitrefs', s, n, n))


@reg(r'slice::iter::Iter::<.*>::by_(vals|refs)$')
def h_by_vals(en, st, callee, args, site, depth):
    v = args[0]
    if v[0] != 'iter' or v[1] != 'bitrefs':
        return None
    return one(st, ('iter', 'bits' if callee['def'].endswith('vals') else 'bitrefs') + v[2:])


@reg(r"<bitvec::slice::iter::(Bit(Val|Ref)Iter|Iter)<'a, T, O> as std::iter::Iterator>::next$")
def h_bit_next(en, st, callee, args, site, depth):
    r, v = it_ref(en, st, args[0])
    if v[0] != 'iter' or v[1] not in ('bits', 'bitrefs'):
        return None
    _, kind, base, rem, total = v
    out = []
    cond = T_not(T_lt(sub(rem, ONE)))
    s1 = en.assume(st, cond, True)
    if s1 is not None:
        s1 = s1.copy()
        bit = ('app', 'bit', en.argval(st, base), from_lin(sub(total, rem)))
        el = bit if kind == 'bits' else ('ref', ('val', bit), ())
        en.wr(s1, r, ('iter', kind, base, sub(rem, ONE), total))
        out.append((s1, some(el)))
    s2 = en.assume(st, cond, False)
    if s2 is not None:
        s2 = s2.copy()
        if s2.add_eq(rem):
            out.append((s2, NONE))
    return out


@reg(r'std::iter::Iterator::enumerate$')
def h_enum(en, st, callee, args, site, depth):
    if args[0][0] != 'iter':
        return None
    return one(st, ('iter', 'enum') + (args[0], ZERO))


@reg(r'<std::iter::Enumerate<I> as std::iter::Iterator>::next$')
def h_enum_next(en, st, callee, args, site, depth):
    r, v = it_ref(en, st, args[0])
    if v[0] != 'iter' or v[1] != 'enum':
        return None
    root = ('l', site, 'enum')
    st.env[root] = v[2]
    inner = {'def': "<std::slice::Iter<'a, T> as std::iter::Iterator>::next"}
    res = h_iter_next(en, st, inner, [('ref', root, ())], site, depth)
    if res is None:
        return None
    out = []
    for s, o in res:
        it = s.env.pop(root)
        if o[2] == 1:
            en.wr(s, r, ('iter', 'enum', it, add(v[3], ONE)))
            out.append((s, some(('agg', '', 0, (from_lin(v[3]), o[3][0])))))
        else:
            out.append((s, NONE))
    return out


@reg(r'<&mut I as std::iter::Iterator>::next$')
def h_mut_next(en, st, callee, args, site, depth):
    a = args[0]
    while a[0] == 'ref':
        v = en.load(st, a[1], a[2])
        if v[0] != 'ref':
            break
        a = v
    _, v = it_ref(en, st, a)
    if v[0] == 'iter':
        if 'chunks' in v[1]:
            return h_chunks_next(en, st, callee, [a], site, depth)
        if v[1] == 'elems':
            return h_iter_next(en, st, callee, [a], site, depth)
    return None


@reg(r'std::iter::Iterator for std::ops::Range<A>>::next$')
def h_range_next(en, st, callee, args, site, depth):
    r, v = it_ref(en, st, args[0])
    if v[0] != 'agg' or len(v[3]) < 2:
        a = en.proj(st, v, ('f', None, 0))
        b = en.proj(st, v, ('f', None, 1))
        ty = 'std::ops::Range<usize>'
    else:
        a, b = v[3][0], v[3][1]
        ty = v[1]
    out = []
    c = T_lt(sub(a, b))
    s1 = en.assume(st, c, True)
    if s1 is not None:
        s1 = s1.copy()
        en.wr(s1, r, ('agg', ty, 0, (add(a, ONE), b)))
        out.append((s1, some(from_lin(as_lin(a)))))
    s2 = en.assume(st, c, False)
    if s2 is not None:
        out.append((s2, NONE))
    return out


@reg(r'::reverse$', r'::fill$', r'BitSlice::<T, O>::copy_from_bitslice$', r'std::slice::<impl \[T\]>::copy_from_slice$',
     r'BitField>::store_(be|le)$', r'BitSlice::<T, O>::(set|shift_end|shift_start)$', r'::copy_within$', r'::rotate_(left|right)$')
def h_seqwrite(en, st, callee, args, site, depth):
    """in-place content write: lengths keep, content becomes a value number of the call"""
    d = callee['def']
    dst = seqref(en, st, args[0])
    if d.endswith('copy_from_bitslice') or d.endswith('copy_from_slice'):
        n = seqlen(en, st, callee, dst)
        m = seqlen(en, st, callee, args[1])
        eqd = sub(n, m)
        dd = en.decide(st, T_eq(eqd))
        en.note(site, 'copy_len', callee, (n, m), [] if dd else [eqd], st)
        if dd is False:
            return []
        if dd is None:
            st = en.assume(st, T_eq(eqd), True)
            if st is None:
                return []
    name = re.sub(r'.*::', '', d)
    fill_seq(en, st, dst, (name,) + tuple(contentval(en, st, a) for a in args[1:]), site)
    return one(st, UNIT)


def contentval(en, st, a):
    return en.argval(st, a)


def fill_seq(en, st, dst, what, site):
    """overwrite the sequence designated by dst"""
    if dst[0] == 'slice' and dst[1][0] == 'ref':
        root, path = dst[1][1], dst[1][2]
        old = en.load(st, root, path)
        ln = en.val_len_known(st, old)
        whole = ln is not None and dst[2] == ZERO and en.decide(st, T_eq(sub(ln, dst[3])))
        rng = None if whole else (dst[2], dst[3])
    elif dst[0] == 'ref':
        root, path = dst[1], dst[2]
        old = en.load(st, root, path)
        ln = en.val_len_known(st, old)
        rng = None
    else:
        return
    ov = None if rng is None else old
    new = ('filled', what, rng, ov if ov is not None else (), ln if ln is not None else ('nolen',))
    en.store(st, root, path, new)


# ---- bitvec specifics -----------------------------------------------------------------------
@reg(r'BitSlice::<T, O>::(try_)?from_slice(_mut)?$', r'BitView>::view_bits(_mut)?$', r'(?<!\w)BitVec::<T, O>::as_(mut_)?bitslice$',
     r'BitArray<A, O>>::deref(_mut)?$', r'(?<!\w)BitVec<T, O>>::deref(_mut)?$', r'BitArray::<A, O>::as_(mut_)?bitslice$')
def h_bits_view(en, st, callee, args, site, depth):
    d = callee['def']
    s = seqref(en, st, args[0])
    if 'BitArray' in d:
        n = arr_bits(callee)
        n = const(n) if n is not None else scale(en.seq_len(st, s), 8)
    elif 'BitVec' in d:
        v = en.load(st, s[1], s[2]) if s[0] == 'ref' else s
        n = en.val_len(st, v)
    else:
        n = scale(en.seq_len(st, s), 8)
    v = ('slice', ('bitsof', s), ZERO, n) if s[0] != 'slice' else ('slice', ('bitsof', s), ZERO, n)
    # keep the base addressable so that writes through the view reach the bytes
    base = s[1] if s[0] == 'slice' else s
    v = ('slice', base, ZERO if s[0] != 'slice' else scale(s[2], 8), n)
    if 'try_' in d:
        v = ok(v)
    return one(st, v)


@reg(r'BitSlice::<T, O>::empty$')
def h_bits_empty(en, st, callee, args, site, depth):
    return one(st, ('slice', ('kempty',), ZERO, ZERO))


@reg(r'BitArray::<A, O>::new$', r'BitArray<A, O>>::from$', r'BitArray<A, O>>::clone$')
def h_bitarr_new(en, st, callee, args, site, depth):
    v = args[0]
    if callee['def'].endswith('clone'):
        v = en.rd(st, v)
    return one(st, v)


@reg(r'BitArray::<A, O>::as_raw_slice$')
def h_raw(en, st, callee, args, site, depth):
    n = arr_bits(callee)
    return one(st, ('slice', args[0], ZERO, const(n // 8 if n else 1)))


@reg(r'(?<!\w)BitVec::<T, O>::repeat$')
def h_bv_repeat(en, st, callee, args, site, depth):
    en.alloc(site, callee, as_lin(args[1]), st)
    return one(st, ('vec', as_lin(args[1]), ('repeat', args[0])))


@reg(r'(?<!\w)BitVec::<T, O>::with_capacity$')
def h_bv_cap(en, st, callee, args, site, depth):
    en.alloc(site, callee, as_lin(args[0]), st)
    return one(st, ('vec', ZERO, ()))


@reg(r'BitField>::load_(be|le)$')
def h_load(en, st, callee, args, site, depth):
    s = seqref(en, st, args[0])
    return one(st, ('app', 'load' + callee['def'][-3:], en.argval(st, s), ('ty', str((callee.get('targs') or ['?'])[-1]))))


@reg(r'^std::mem::transmute_copy$')
def h_transmute_copy(en, st, callee, args, site, depth):
    return one(st, en.rd(st, args[0]))


@reg(r'^std::net::(ip_addr::)?Ipv[46]Addr::(octets|to_bits)$')
def h_octets(en, st, callee, args, site, depth):
    v = args[0]
    if v[0] == 'ref':
        v = en.load(st, v[1], v[2])
    o = en.proj(st, v, ('f', None, 0))
    if callee['def'].endswith('to_bits'):
        o = ('app', 'from_be_bytes:' + ('u32' if 'v4' in callee['def'] else 'u128'), o)
    return one(st, o)


# ---- numbers -----------------------------------------------------------------------------------
@reg(r'^std::num::<impl \w+>::(to|from)_(be|le|ne)_bytes$', r'^std::f(32|64)::<impl f\d+>::(to|from)_(be|le|ne)_bytes$',
     r'^std::f(32|64)::<impl f\d+>::(to|from)_bits$', r'^std::num::<impl \w+>::(swap_bytes|leading_zeros|count_ones|to_be|to_le|from_be|from_le|reverse_bits)$')
def h_bytes(en, st, callee, args, site, depth):
    d = callee['def']
    nm = re.sub(r'.*::', '', d)
    ty = re.search(r'<impl (\w+)>', d).group(1)
    v = ('app', nm + ':' + ty, en.content(st, args[0]))
    if nm.startswith('to_') and nm.endswith('bytes'):
        n = {'usize': 8, 'isize': 8}.get(ty) or int(ty[1:]) // 8
        return one(st, ('bytesof', v, const(n)))
    return one(st, v)


@reg(r'^std::cmp::(min|max)$', r'std::cmp::impls::<impl std::cmp::Ord for \w+>::(min|max)$', r'^std::cmp::Ord::(min|max)$')
def h_minmax(en, st, callee, args, site, depth):
    mx = callee['def'].endswith('max')
    a, b = args[0], args[1]
    if a == b:
        return one(st, a)
    out = []
    c = T_lt(sub(a, b))          # a < b
    d = en.decide(st, c)
    if d is not None:
        return one(st, (b if mx else a) if d else (a if mx else b))
    if en.opts.get('split_min', True):
        for t in (True, False):
            s = en.assume(st, c, t)
            if s is not None:
                out.append((s.copy(), (b if mx else a) if t else (a if mx else b)))
        return out
    x, y = sorted([from_lin(as_lin(a)), from_lin(as_lin(b))], key=T.skey)
    return one(st, ('app', 'max' if mx else 'min', x, y))


@reg(r'std::cmp::impls::<impl std::cmp::(Ord|PartialOrd) for (\w+)>::(cmp|partial_cmp|lt|le|gt|ge)$',
     r'std::cmp::impls::<impl std::cmp::PartialEq for (\w+)>::(eq|ne)$')
def h_cmp(en, st, callee, args, site, depth):
    a, b = en.rd(st, args[0]), en.rd(st, args[1])
    m = re.search(r'::(\w+)$', callee['def']).group(1)
    ty = re.search(r' for (\w+)>', callee['def']).group(1)
    if ty.startswith('f') or ty in ('str',):
        return None
    if m == 'cmp':
        return one(st, ('cmp3', from_lin(as_lin(a)), from_lin(as_lin(b))))
    if m == 'partial_cmp':
        return one(st, some(('cmp3', from_lin(as_lin(a)), from_lin(as_lin(b)))))
    r = {'lt': lambda: T_lt(sub(a, b)), 'ge': lambda: T_not(T_lt(sub(a, b))),
         'gt': lambda: T_lt(sub(b, a)), 'le': lambda: T_not(T_lt(sub(b, a))),
         'eq': lambda: T_eq(sub(a, b)), 'ne': lambda: T_not(T_eq(sub(a, b)))}.get(m)
    return one(st, r()) if r else None


@reg(r'^std::num::<impl \w+>::saturating_(mul|add|sub)$', r'intrinsics::saturating_(sub|add)$')
def h_sat(en, st, callee, args, site, depth):
    op = re.search(r'saturating_(\w+)$', callee['def']).group(1)
    a, b = as_lin(args[0]), as_lin(args[1])
    if is_const(a) and is_const(b):
        x = {'mul': cval(a) * cval(b), 'add': cval(a) + cval(b), 'sub': cval(a) - cval(b)}[op]
        m = re.search(r'<impl u(\w+)>', callee['def'])
        w = 64 if not m or m.group(1) == 'size' else int(m.group(1))
        return one(st, const(min(max(0, x), (1 << w) - 1)))
    if op == 'sub':
        v = from_lin(b)
        d = en.decide(st, T_lt(sub(a, b)))
        if d is None and v[0] == 'app' and v[1] == 'min' and any(sub(as_lin(x), a) == ZERO for x in v[2:]):
            d = False       # a - min(a, ..) never is negative
        if d is not None:
            return one(st, ZERO if d else from_lin(sub(a, b)))
    if op == 'mul' and en.opts.get('satfork'):
        c = ('ovf', 'mul', from_lin(a), from_lin(b), 'usize')
        out = []
        for t in (False, True):
            s = en.assume(st, c, t)
            if s is not None:
                out.append((s.copy(), const(2**64 - 1) if t else from_lin(mul(a, b))))
        return out
    return one(st, ('app', 'saturating_' + op, from_lin(a), from_lin(b)))


@reg(r'^std::num::<impl \w+>::checked_(mul|add|sub)$')
def h_checked(en, st, callee, args, site, depth):
    op = re.search(r'checked_(\w+)$', callee['def']).group(1)
    a, b = as_lin(args[0]), as_lin(args[1])
    ty = (re.search(r'<impl (\w+)>', callee['def']) or [None, ''])[1]
    v = {'mul': lambda: mul(a, b), 'add': lambda: add(a, b), 'sub': lambda: sub(a, b)}[op]()
    c = ('ovf', op, from_lin(a), from_lin(b), ty)
    out = []
    for t in (False, True):
        s = en.assume(st, c, t)
        if s is not None:
            s = s.copy()
            if op == 'sub':
                s = en.assume(s, T_lt(sub(a, b)), t)
                if s is None:
                    continue
            out.append((s, NONE if t else some(from_lin(v))))
    return out


@reg(r'^std::num::<impl \w+>::overflowing_(mul|add|sub)$')
def h_overflowing(en, st, callee, args, site, depth):
    op = re.search(r'overflowing_(\w+)$', callee['def']).group(1)
    a, b = as_lin(args[0]), as_lin(args[1])
    ty = (re.search(r'<impl (\w+)>', callee['def']) or [None, ''])[1]
    return one(st, ('agg', '', 0, (('app', 'wrapping_' + op, from_lin(a), from_lin(b)), ('ovf', op, from_lin(a), from_lin(b), ty))))


@reg(r'^std::num::<impl \w+>::wrapping_(mul|add|sub|shl|shr)$')
def h_wrapping(en, st, callee, args, site, depth):
    op = re.search(r'wrapping_(\w+)$', callee['def']).group(1)
    return one(st, ('app', 'wrapping_' + op, from_lin(as_lin(args[0])), from_lin(as_lin(args[1]))))


@reg(r'^std::num::<impl \w+>::div_ceil$')
def h_divceil(en, st, callee, args, site, depth):
    import engine
    a, b = as_lin(args[0]), as_lin(args[1])
    if is_const(b):
        return one(st, from_lin(engine.div_term(add(a, const(cval(b) - 1)), cval(b))))
    return one(st, ('app', 'div_ceil', from_lin(a), from_lin(b)))


def int_range(t):
    """values of an integer type (64-bit target)"""
    n = int(t[1:]) if t[1:].isdigit() else 64
    return (0, (1 << n) - 1) if t[0] == 'u' else (-(1 << (n - 1)), (1 << (n - 1)) - 1)


@reg(r'std::convert::num::.*TryFrom<(\w+)> for (\w+)>::try_from$')
def h_tryfrom(en, st, callee, args, site, depth):
    m = re.search(r'TryFrom<(\w+)> for (\w+)>', callee['def'])
    src, dst = m.group(1), m.group(2)
    v = args[0]
    (a, b), (lo, hi) = int_range(src), int_range(dst)
    if is_const(as_lin(v)):
        a = b = cval(as_lin(v))
    if lo <= a and b <= hi:
        return one(st, ok(v))
    if b < lo or a > hi:
        return one(st, err(('app', 'TryFromIntError')))
    c = ('fits', from_lin(as_lin(v)), src, dst)
    out = []
    for t in (True, False):
        s = en.assume(st, c, t)
        if s is not None:
            out.append((s.copy(), ok(v) if t else err(('app', 'TryFromIntError'))))
    return out


@reg(r'std::convert::num::<impl std::convert::From<(\w+)> for (\w+)>::from$')
def h_fromint(en, st, callee, args, site, depth):
    return one(st, args[0])


# ---- errors --------------------------------------------------------------------------------------
@reg(r'io::Error::kind$', r'no_std_io2?::io::Error::kind$', r'Error>?::kind$')
def h_kind(en, st, callee, args, site, depth):
    return one(st, ('app', 'Error::kind', en.rd(st, args[0])))


@reg(r'ErrorKind as std::cmp::PartialEq>::eq$')
def h_kind_eq(en, st, callee, args, site, depth):
    a, b = en.rd(st, args[0]), en.rd(st, args[1])
    ty = (callee['locals'][1] if callee.get('locals') else '')
    t = en.F.ty(ty)
    ty = t.get('t')
    return one(st, T_eq(sub(as_lin(en.discr_of(a, ty)), as_lin(en.discr_of(b, ty)))))


# ---- containers -----------------------------------------------------------------------------------
@reg(r'std::vec::Vec::<T>::new$', r'^std::string::String::new$')
def h_vec_new(en, st, callee, args, site, depth):
    return one(st, ('vec', ZERO, ()))


@reg(r'std::vec::Vec::<T>::with_capacity$', r'::try_with_capacity$', r'std::vec::Vec::<T, A>::with_capacity_in$')
def h_vec_cap(en, st, callee, args, site, depth):
    en.alloc(site, callee, as_lin(args[0]), st)
    return one(st, ('vec', ZERO, ()))


@reg(r'std::vec::from_elem$')
def h_from_elem(en, st, callee, args, site, depth):
    en.alloc(site, callee, as_lin(args[1]), st)
    return one(st, ('vec', as_lin(args[1]), ('rep', args[0])))


@reg(r'std::vec::Vec::<T, A>::(reserve|reserve_exact|try_reserve|try_reserve_exact)$', r'::reserve$')
def h_reserve(en, st, callee, args, site, depth):
    en.alloc(site, callee, as_lin(args[1]), st)
    if 'try_' in callee['def']:
        return None
    return one(st, UNIT)


@reg(r'std::vec::Vec::<T, A>::push$')
def h_push(en, st, callee, args, site, depth):
    r, v = it_ref(en, st, args[0])
    n = en.val_len(st, v)
    st.emit(('push', en.locname(r), from_lin(as_lin(args[1]) if args[1][0] == 'lin' else args[1])))
    en.wr(st, r, ('vec', add(n, ONE), ()))
    return one(st, UNIT)


@reg(r'std::vec::Vec::<T, A>::resize$')
def h_resize(en, st, callee, args, site, depth):
    r, v = it_ref(en, st, args[0])
    en.alloc(site, callee, as_lin(args[1]), st)
    en.wr(st, r, ('vec', as_lin(args[1]), ('resized',)))
    return one(st, UNIT)


@reg(r'std::vec::Vec::<T, A>::(truncate|set_len)$')
def h_trunc(en, st, callee, args, site, depth):
    r, v = it_ref(en, st, args[0])
    en.wr(st, r, ('vec', as_lin(args[1]), ('trunc', v)))
    return one(st, UNIT)


@reg(r'^(std|alloc)::vec::Vec::<T, A>::(pop|pop_if|remove|swap_remove|insert|drain|retain|retain_mut|clear|append|split_off|dedup\w*|'
     r'extend\w*|splice|resize_with|extract_if|shrink_to\w*|leak)$',
     r'^<(std|alloc)::vec::Vec<T, A> as std::iter::Extend<.*>>::extend\w*$')
def h_vec_mut(en, st, callee, args, site, depth):
    """mutators without a model of their own: afterwards nothing is known about the vector"""
    m = callee['def'].rsplit('::', 1)[1]
    if m.startswith('shrink_to'):
        return one(st, UNIT)
    r, v = it_ref(en, st, args[0])
    if m == 'clear':
        en.wr(st, r, ('vec', ZERO, ()))
        return one(st, UNIT)
    st.emit(('mutate', m, en.locname(r)))
    return en.opaque(st, callee, (r,) + tuple(args[1:]), site)


@reg(r'std::vec::Vec::<T, A>::as_(mut_)?slice$', r'<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$',
     r'::as_mut_slice$', r'::as_slice$', r'<std::string::String as std::ops::Deref>::deref$', r'String::as_(bytes|str)$',
     r'std::str::<impl str>::as_bytes$', r'as std::borrow::Borrow<.*>>::borrow$', r'Vec<T, A> as std::convert::AsRef<\[T\]>>::as_ref$')
def h_as_slice(en, st, callee, args, site, depth):
    s = seqref(en, st, args[0])
    if s[0] == 'ref':
        v = en.load(st, s[1], s[2])
        t = None
        if callee.get('locals'):
            t = en.F.ty(en.F.ty(callee['locals'][1]).get('t', ''))
        if t and t['k'] == 'array':
            return one(st, ('slice', s, ZERO, const(t['n'])))
        m = None
        for x in callee.get('targs') or []:
            mm = re.fullmatch(r'(\d+)(_usize)?', str(x))
            if mm:
                m = int(mm.group(1))
        if m is not None and 'array' in callee['def']:
            return one(st, ('slice', s, ZERO, const(m)))
        return one(st, ('slice', s, ZERO, en.val_len(st, v)))
    return one(st, s)


@reg(r'std::boxed::Box::<T>::new$')
def h_box(en, st, callee, args, site, depth):
    root = ('b', site)
    st.env[root] = args[0]
    return one(st, ('box', root))


@reg(r'^<std::borrow::Cow.* as std::ops::Deref>::deref$')
def h_cow(en, st, callee, args, site, depth):
    return one(st, ('ref', ('val', ('app', 'Cow::deref', en.argval(st, args[0]))), ()))


@reg(r'precondition_check$', r'^std::intrinsics::(cold_path|assume|likely)', r'^std::ub_checks::')
def h_noop(en, st, callee, args, site, depth):
    return one(st, UNIT)


@reg(r"::into_boxed_slice$", r'Box<T> as std::convert::From<T>>::from$')
def h_pure_conv(en, st, callee, args, site, depth):
    return one(st, ('app', callee['def'], en.content(st, args[0])))
