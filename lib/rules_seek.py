"""Rules about seeking and about the NoSeek adapter."""
import terms as T
import engine as E
from checks import check
from frontier import Shape, Errs, result_of
from rules_core import facts, run_root, items_of, g, is_ok, flat_events, is_pos8
from rules_writer import wleft
from terms import ZERO, ONE, const, add, sub, scale, as_lin, from_lin, is_const, show


def ios(trace):
    return [x for x, _ in flat_events(trace) if x[0] == 'io']


@check('P04')
def p04(c):
    c.rule('Reader/Writer seek: exactly one stream seek, with the requested target, its result returned unchanged, nothing left pending, '
           'read position = 8 x new position; skipping bits moves past exactly the requested amount (bits pending + bytes read + relative seek), '
           'counted from where the next read would start')
    c.pmap(p04_one, items_of(c, r'::w_(rd|wr)_(seek|skip_bits)$'))
    c.floor('seek paths', 8)
    c.rule('what is read after a skip is what the stream holds there (bit provenance)')
    import rules_num
    rules_num.operations(c, 'r', ['r_skip'])


def p04_one(c, feat, n):
    F = facts(feat)
    base = n.split('::')[-1]
    sh = Shape(F)
    en, outs = run_root(F, n)
    if base == 'w_rd_skip_bits':
        return p04_skip(c, F, feat, n, sh, en, outs)
    for i, (st, v) in enumerate(outs):
        ev = ios(st.trace)
        c.analysed('seek paths', '%s [%s] %d' % (n, feat, i))
        good = len(ev) == 1 and ev[0][1] == 'seek'
        c.oblig(good, 'calls:' + n, lambda: 'root %s [%s]: a seek issues %s on the stream instead of one seek' % (n, feat, [x[1] for x in ev]))
        if not good:
            continue
        if len(ev[0]) > 2 and ev[0][2] == 'ERR':
            c.oblig(not is_ok(v), 'error:' + n, 'root %s [%s]: a failed seek is reported as success' % (n, feat))
            continue
        _, _, target, newpos = ev[0]
        c.oblig(same_target(en, st, target, ('sym', 'arg1')), 'target:' + n, lambda: 'root %s [%s]: the stream is asked to seek to %s, not to the requested target' % (n, feat, show(target)))
        r = result_of(v)
        c.oblig(r is not None and r[0] == 'ok' and r[1] == newpos, 'result:' + n, lambda: 'root %s [%s]: the reported position is %s, not the stream position' % (n, feat, show(v)))
        me = en.load(st, ('m', 'arg0'), ())
        if base == 'w_rd_seek':
            lo = sh.fld(en, st, me, 'reader', 'leftover')
            c.oblig(sh.discr(st, lo) == 0, 'pending:' + n, lambda: 'root %s [%s]: bits from before the seek stay pending (%s)' % (n, feat, show(lo)))
            br = as_lin(sh.fld(en, st, me, 'reader', 'bits_read'))
            sat = is_const(br) and T.cval(br) >= (1 << 32) - 1
            c.oblig(sat or is_pos8(from_lin(br), newpos), 'position:' + n, lambda: 'root %s [%s]: the read position after a seek is %s, not 8 x the new position' % (n, feat, show(br)))
        else:
            l = wleft(en, st, sh, me)
            c.oblig(st.is_zero(l), 'pending:' + n, lambda: 'root %s [%s]: %s bits from before the seek stay pending' % (n, feat, show(l)))
            lo = sh.fld(en, st, me, 'writer', 'leftover')
            if lo is not None:
                o = en.proj(st, lo, ('f', None, 1))
                c.oblig(order_name(F, sh.discr(st, o)) == 'Msb0', 'order:' + n, lambda: 'root %s [%s]: after a seek the writer still remembers the bit order of '
                        'bits that were dropped (%s), so the next bits are laid out differently than at a fresh start' % (n, feat, show(o)))


def order_name(F, i):
    for n, t in F.types.items():
        if t['k'] == 'adt' and n.endswith('::Order') and i is not None and i < len(t['vs']):
            return t['vs'][i]['n']
    return None


def same_target(en, st, a, b):
    if a == b:
        return True
    # rebuilt variant by variant: SeekFrom::X(payload of X)
    if a[0] == 'agg' and len(a[3]) == 1:
        d = st.facts.get(('is', ('discr', b)))
        return d == a[2] and a[3][0] == en.proj(st, b, ('f', a[2], 0))
    return False


def p04_skip(c, F, feat, n, sh, en, outs):
    for i, (st, v) in enumerate(outs):
        if not is_ok(v):
            continue
        c.analysed('seek paths', '%s [%s] %d' % (n, feat, i))
        me0 = ('sym', '*arg0')
        me1 = en.load(st, ('m', 'arg0'), ())
        l0, l1 = (sh.leftover_len(en, st, sh.fld(en, st, m, 'reader', 'leftover')) for m in (me0, me1))
        moved = sub(l0, l1)
        bad = None
        moved = add(moved, scale(add(g(st, 'pre'), g(st, 'read_exact')), 8))
        for k, x in enumerate([x for x in ios(st.trace) if x[1] == 'seek']):
            t = x[2]
            if k == 0 and t[0] == 'agg' and t[2] == seek_current(F) and len(t[3]) == 1:
                moved = add(moved, scale(strip(st, t[3][0]), 8))
            else:
                bad = x
        c.oblig(bad is None, 'skip-seek:' + n, lambda: 'root %s [%s]: skipping seeks to %s instead of relative to the current position' % (n, feat, show(bad[2])))
        d = sub(moved, as_lin(('sym', 'arg1')))
        c.oblig(bad is not None or st.is_zero(d), 'skip-amount:' + n, lambda: 'root %s [%s]: skipping N bits moves by %s bits (difference %s)' % (n, feat, show(moved), show(st.reduce(d))))


def strip(st, v):
    v = from_lin(v) if v[0] == 'lin' else v
    while v[0] == 'app' and str(v[1]).startswith(('cast:', 'transmute', 'try_from')):
        v = v[2]
    return as_lin(v)


def seek_current(F):
    for n, t in F.types.items():
        if t['k'] == 'adt' and n.endswith('SeekFrom'):
            for i, v in enumerate(t['vs']):
                if v['n'] == 'Current':
                    return i
    return None


# ---------------------------------------------------------------------------------
DELEG = {'read': 'read', 'read_exact': 'read_exact', 'write': 'write', 'write_all': 'write_all', 'flush': 'flush',
         'read_vectored': 'read_vectored', 'write_vectored': 'write_vectored', 'read_to_end': 'read_to_end',
         'read_to_string': 'read_to_string'}


@check('P28')
def p28(c):
    c.rule('NoSeek: its position advances by exactly what the wrapped stream moved, a failed operation moves nothing, results are '
           'passed through, and a seek succeeds only where it moves nothing, without touching the stream')
    c.pmap(p28_one, items_of(c, r'::w_ns_'))
    c.floor('NoSeek paths', 20)


def p28_one(c, feat, n):
    F = facts(feat)
    op = n.split('::')[-1][5:]
    sh = None
    for tn, t in F.types.items():
        if t['k'] == 'adt' and 'NoSeek<' in tn and not t['enum']:
            idx = [f[0] for f in t['vs'][0]['f']].index('pos')
    en, outs = run_root(F, n, keep_all=op == 'seek')
    for i, (st, v) in enumerate(outs):
        c.analysed('NoSeek paths', '%s [%s] %d' % (n, feat, i))
        ev = ios(st.trace)
        p0 = as_lin(en.proj(st, ('sym', '*arg0'), ('f', None, idx)))
        p1 = as_lin(en.proj(st, en.load(st, ('m', 'arg0'), ()), ('f', None, idx)))
        if op in ('seek', 'stream_position'):
            c.oblig(not ev, 'touch:' + n, 'root %s [%s]: the wrapped stream is used by %s' % (n, feat, op))
            c.oblig(st.is_zero(sub(p1, p0)), 'moved:' + n, 'root %s [%s]: %s changes the position' % (n, feat, op))
            r = result_of(v)
            if r and r[0] == 'ok':
                c.oblig(st.is_zero(sub(as_lin(r[1]), p0)), 'pos:' + n, lambda: 'root %s [%s]: reports position %s' % (n, feat, show(r[1])))
                if op == 'seek':
                    c.oblig(noop_target(en, st, F, p0), 'noop:' + n, 'root %s [%s]: a seek that would move succeeds' % (n, feat))
            continue
        good = len(ev) == 1 and ev[0][1] == DELEG[op]
        c.oblig(good, 'delegate:' + n, lambda: 'root %s [%s]: %s calls %s on the wrapped stream' % (n, feat, op, [x[1] for x in ev]))
        if not good:
            continue
        d = sub(p1, p0)
        if len(ev[0]) > 2 and ev[0][2] == 'ERR':
            c.oblig(not is_ok(v), 'error:' + n, 'root %s [%s]: a failed %s is reported as success' % (n, feat, op))
            c.oblig(st.is_zero(d), 'moved-err:' + n, 'root %s [%s]: a failed %s moves the position' % (n, feat, op))
            continue
        want = add(g(st, 'read_exact'), g(st, 'write_all'))
        if op == 'flush':
            want = ZERO
        c.oblig(st.is_zero(sub(strip_lin(d), want)), 'advance:' + n, lambda: 'root %s [%s]: %s of %s bytes moves the position by %s' % (n, feat, op, show(want), show(d)))
        r = result_of(v)
        if op not in ('read_exact', 'write_all', 'flush'):
            c.oblig(r is not None and r[0] == 'ok' and st.is_zero(sub(as_lin(r[1]), want)), 'result:' + n, lambda: 'root %s [%s]: %s returns %s' % (n, feat, op, show(v)))
        if op in ('write', 'write_all', 'write_vectored'):
            pass


def strip_lin(l):
    """look through widening casts"""
    d = ZERO
    for a, k in l[1]:
        while a[0] == 'app' and str(a[1]).startswith('cast:'):
            a = a[2]
        d = add(d, scale(as_lin(a), k))
    return add(d, const(l[2]))


def noop_target(en, st, F, p0):
    tgt = ('sym', 'arg1')
    d = st.facts.get(('is', ('discr', tgt)))
    names = None
    for n, t in F.types.items():
        if t['k'] == 'adt' and n.endswith('SeekFrom'):
            names = [v['n'] for v in t['vs']]
    if d is None or names is None:
        return False
    x = as_lin(en.proj(st, tgt, ('f', d, 0)))
    if names[d] == 'Current':
        return st.is_zero(x) or st.facts.get(('is', from_lin(x))) == 0
    if names[d] == 'Start':
        return st.is_zero(sub(x, p0))
    return False
