"""Rules about the Writer: bit accounting, finalize; and about seeking."""
import terms as T
import engine as E
from checks import check
from frontier import Shape, Errs, result_of
from rules_core import (facts, run_root, items_of, g, is_ok, flat_events)
from terms import ZERO, ONE, const, add, sub, scale, as_lin, is_const, show


def wleft(en, st, sh, me):
    """pending bits of a writer value"""
    lo = sh.fld(en, st, me, 'writer', 'leftover')
    if lo is None:
        return ZERO
    b = en.proj(st, lo, ('f', None, 0))
    return sh.bits_size(en, st, b)


REQUEST_W = {
    'w_wr_write_bytes': lambda en, st: scale(en.seq_len(st, ('ref', ('m', 'arg1'), ())), 8),
    'w_wr_write_bits': lambda en, st: en.seq_len(st, ('ref', ('m', 'arg1'), ())),
    'w_wr_write_bits_order': lambda en, st: en.seq_len(st, ('ref', ('m', 'arg1'), ())),
}


@check('P03')
def p03(c):
    c.rule('on every success path of every stream write: bits_written advances by exactly 8 x the bytes handed to the stream, '
           'bits previously pending + bits accepted = 8 x bytes handed over + bits left pending (affine equality, loops as inductions); '
           'finalize leaves nothing pending')
    c.rule('the bytes handed to the stream hold each bit accepted at its place, then zeros (bit provenance)')
    c.pmap(p03_one, items_of(c, r'w_(wr|pr_wr|pb_wr)_'))
    c.floor('success paths', 100)
    import rules_num
    rules_num.operations(c, 'w')
    rules_num.numbers(c, ('w',), ['std,bits'], ('u8', 'u32', 'i16', 'i64'))
    c.floor('root', 40)


def p03_one(c, feat, n):
    F = facts(feat)
    base = n.split('::')[-1]
    if base == 'w_wr_seek':
        return
    sh = Shape(F)
    wi = writer_arg(F, n)
    if base == 'w_wr_finalize':
        # class invariant of the writer: at most 7 bits are pending; decided for each of the 8 cases
        cases = range(8) if sh.idx('writer', 'leftover') is not None else [None]
    else:
        cases = [None]
    for k in cases:
        st0 = E.State()
        if k is not None:
            sz = [i for i, f in enumerate(sh.bbv[1]['vs'][0]['f']) if f[0] == 'size'][0]
            E.Engine(F, []).store(st0, ('m', 'arg%d' % wi), (('f', None, sh.idx('writer', 'leftover')), ('f', None, 0), ('f', None, sz)), const(k))
        en, outs = run_root(F, n, st=st0)
        p03_paths(c, F, feat, n, base, sh, wi, en, outs, k)


def p03_paths(c, F, feat, n, base, sh, wi, en, outs, case):
    rq = REQUEST_W.get(base)
    for i, (st, v) in enumerate(outs):
        if not is_ok(v):
            continue
        me0 = ('sym', '*arg%d' % wi)
        me1 = en.load(st, ('m', 'arg%d' % wi), ())
        b0, b1 = (as_lin(sh.fld(en, st, m, 'writer', 'bits_written')) for m in (me0, me1))
        l0, l1 = wleft(en, st, sh, me0), wleft(en, st, sh, me1)
        put = scale(g(st, 'write_all'), 8)
        d = sub(sub(b1, b0), put)
        c.oblig(st.is_zero(d), 'written:%s' % n, lambda: 'root %s [%s]: bits_written advances by %s while %s bits reach the stream (difference %s)' % (
            n, feat, show(sub(b1, b0)), show(put), show(st.reduce(d))))
        if rq is not None:
            req = as_lin(rq(en, E.State()))
            d = sub(add(l0, req), add(put, l1))
            c.oblig(st.is_zero(d), 'account:%s' % n, lambda: 'root %s [%s]: pending %s + accepted %s bits, but %s bits reached the stream and %s stay pending (difference %s)' % (
                n, feat, show(l0), show(req), show(put), show(l1), show(st.reduce(d))))
        if base == 'w_wr_finalize':
            c.oblig(st.is_zero(l1), 'finalize-pending:%s' % n, lambda: 'root %s [%s]: finalize with %s bits pending leaves %s bits pending' % (n, feat, case, show(st.reduce(l1))))
            want = 1 if case else 0
            c.oblig(st.is_zero(sub(g(st, 'write_all'), const(want))), 'finalize-bytes:%s' % n,
                    lambda: 'root %s [%s]: finalize with %s bits pending writes %s bytes, expected %d' % (n, feat, case, show(st.reduce(g(st, 'write_all'))), want))
        c.analysed('success paths', '%s [%s] %s%d' % (n, feat, '' if case is None else 'pending=%d ' % case, i))


def writer_arg(F, n):
    b = F.fns[F.roots[n]]
    for i in range(b['argc']):
        if 'Writer<' in str(b['locals'][1 + i]):
            return i
    return 0
