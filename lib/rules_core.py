"""Rules about the bit-level stream layer (Reader, Writer, seeking, stream errors)."""
import re
import build
import engine
import terms as T
from checks import check
from frontier import io_handler, Shape, Errs, result_of
from terms import ZERO, ONE, const, add, sub, scale, as_lin, from_lin, is_const, show

CONFIGS = ['std,bits,descriptive-errors', 'std', '', 'alloc,bits', 'bits', 'std,bits,descriptive-errors,logging']
QUICK_CONFIGS = ['std,bits,descriptive-errors', 'std', '', 'alloc,bits']


def configs(c):
    return CONFIGS if c.tier == 'thorough' else QUICK_CONFIGS


_F = {}


def facts(features, corpus='core', **kw):
    k = (features, corpus)
    if k not in _F:
        d = build.dump(corpus, features, **kw)
        _F[k] = engine.Facts(d[build.crate_name(build.VERIF + '/corpus/' + corpus) + '.mono'])
    return _F[k]


def run_root(F, name, handlers=(io_handler,), st=None, **opts):
    en = engine.Engine(F, list(handlers), opts)
    outs = en.run(name, st=st)
    return en, outs


def roots(F, rx):
    return [n for n in F.roots if re.search(rx, n)]


def flat_events(trace):
    """(event, in_loop) in order; loop events contribute all their segments"""
    for e in trace:
        if e[0] == 'loop':
            for seg in e[2]:
                for x, _ in flat_events(seg):
                    yield x, e
        else:
            yield e, None


def where(en, e):
    f = en.fns[e[3]]
    return f['def']


# ---------------------------------------------------------------------------------
def io_errors(c, F, feat, en, name, outs):
    """every stream failure is the outcome of the operation"""
    E = Errs(F)
    eof = E.kind.get('UnexpectedEof')
    nerr = 0
    for st, v in outs:
        # a loop iteration that saw an error and still reached the back edge
        for x in st.trace:
            if x[0] == 'loop':
                for seg in x[2]:
                    bad = [y for y, _ in flat_events(seg) if y[0] == 'io' and y[2] == 'ERR']
                    if bad:
                        c.oblig(False, 'loop-swallow:%s' % where(en, x),
                                'in %s [%s] (root %s) a failed stream %s inside a loop is ignored: the loop goes on '
                                'to its next iteration' % (where(en, x), feat, name, bad[0][1]))
        evs = [x for x in st.trace if x[0] in ('io', 'loop')]
        for i, x in enumerate(evs):
            if x[0] != 'io' or x[2] != 'ERR':
                continue
            nerr += 1
            err = x[3]
            site = en.chain(err[2])
            fn = [en.fns[s[0]]['def'] for s in site if isinstance(s[0], int)]
            fn = fn[-1] if fn else name
            key = '%s:%s' % (name, fn)
            c.analysed('stream call sites', '%s: %s' % (fn, x[1]))
            later = [y for y in evs[i + 1:] if y[0] == 'io' or any(z[0] == 'io' for z, _ in flat_events([y]))]
            if later:
                c.oblig(False, 'continue:' + key, 'in %s [%s] the stream is used again after a failed %s (root %s)' % (fn, feat, x[1], name))
                continue
            kind = ('app', 'Error::kind', err)
            kd = ('discr', kind)
            is_eof = st.facts.get(('is', kd)) == eof
            not_eof = eof in st.facts.get(('isnt', kd), ()) or (st.facts.get(('is', kd)) not in (None, eof))
            r = result_of(v)
            if r is None:
                yield st, v, x, fn, is_eof, not_eof
                continue
            if r[0] == 'ok':
                c.oblig(False, 'swallow:' + key, 'in %s [%s] a failed stream %s is turned into success (root %s)' % (fn, feat, x[1], name))
                continue
            e = r[1]
            if e == err:
                c.oblig(True, key, '')
                continue
            en_ = E.name(e)
            if en_ == 'Io' and e[3][0] == kind:
                good = not (x[1].startswith('read') and not not_eof)
                c.oblig(good, 'eof-as-io:' + key, 'in %s [%s] end of input may be reported as an I/O error instead of Incomplete (root %s)' % (fn, feat, name))
            elif en_ == 'Incomplete':
                good = is_eof and x[1].startswith('read')
                c.oblig(good, 'io-as-incomplete:' + key, 'in %s [%s] a stream %s failure that is not end-of-input is reported as Incomplete (root %s)' % (fn, feat, x[1], name))
            else:
                c.oblig(False, 'wrong-error:' + key, 'in %s [%s] a failed stream %s is reported as %s instead of carrying its error kind (root %s)' % (fn, feat, x[1], show(e), name))
    if nerr:
        c.analysed('roots with stream calls', '%s [%s]' % (name, feat))


def load_all(c, corpus='core', feats=None):
    """dump facts for every configuration (in parallel), then load them in this process"""
    import concurrent.futures as cf
    feats = feats or configs(c)
    build.ensure_driver()
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda f: build.dump(corpus, f), feats))
    return [(f, facts(f, corpus)) for f in feats]


def items_of(c, rx='', corpus='core', feats=None):
    out = []
    for feat, F in load_all(c, corpus, feats):
        out += [(feat, n) for n in sorted(F.roots) if re.search(rx, n)]
    return out


@check('P01')
def p01(c):
    c.rule('every path on which a stream operation fails ends the operation with that failure '
           '(end of input as Incomplete, anything else as the same I/O error kind), and no loop continues after a failure')
    c.pmap(p01_one, items_of(c))
    c.floor('stream call sites', 12)
    c.floor('roots with stream calls', 280)


def p01_one(c, feat, n):
    F = facts(feat)
    sh = Shape(F)
    en, outs = run_root(F, n)
    for st, v, x, fn, is_eof, not_eof in io_errors(c, F, feat, en, n, outs):
        # operations returning a plain bool (end of input test)
        key = '%s:%s' % (n, fn)
        # the answer may *be* the comparison with "end of input": look at both truth values
        kd = ('discr', ('app', 'Error::kind', x[3]))
        eof = Errs(F).kind.get('UnexpectedEof')
        vs = []
        for truth in (True, False):
            s2 = en.assume(st, v, truth)
            if s2 is not None:
                vs.append((ONE if truth else ZERO, s2.facts.get(('is', kd)) == eof or is_eof,
                           eof in s2.facts.get(('isnt', kd), ()) or not_eof))
        me = en.load(st, ('m', 'arg0'), ())
        lo = sh.fld(en, st, me, 'reader', 'leftover')
        same = sh.discr(st, lo) == 0 or lo == ('fld', ('sym', '*arg0'), None, sh.idx('reader', 'leftover'))
        if len(vs) == 2 and all(e or ne for _, e, ne in vs):
            for v2, e, ne in vs:
                c.oblig(e if v2 == ONE else ne, 'end-cmp:' + key, '%s [%s] answers the wrong way round for a failed read' % (fn, feat))
            c.oblig(same, 'fabricate:' + key, '%s [%s] turns a failed read into a byte of input: invented data is parsed' % (fn, feat))
        elif is_eof:
            c.oblig(v == ONE, 'end-eof:' + key, '%s [%s] does not report end of input' % (fn, feat))
        else:
            c.oblig(same, 'fabricate:' + key, '%s [%s] turns a failed read into a byte of input (value %s): the error is lost and '
                    'invented data is parsed' % (fn, feat, show(lo)))
            c.oblig(v == ZERO, 'end-err:' + key, '%s [%s] reports end of input for a failed read' % (fn, feat))


# ---------------------------------------------------------------------------------
def g(st, name):
    return st.env.get(('g', name), ZERO)


def is_ok(v):
    r = result_of(v)
    return r is None or r[0] == 'ok'


def reader_account(c, F, feat, en, n, outs, requested=None):
    """bits_read and the pending bits account for every byte taken from the stream"""
    sh = Shape(F)
    for st, v in outs:
        if not is_ok(v):
            continue
        me0 = ('sym', '*arg0')
        me1 = en.load(st, ('m', 'arg0'), ())
        lo0, lo1 = (sh.fld(en, st, m, 'reader', 'leftover') for m in (me0, me1))
        b0, b1 = (as_lin(sh.fld(en, st, m, 'reader', 'bits_read')) for m in (me0, me1))
        l0, l1 = sh.leftover_len(en, st, lo0), sh.leftover_len(en, st, lo1)
        got = scale(g(st, 'read_exact'), 8)
        sk = st.env.get(('g', 'seeked'))
        fn = en.fns[F.roots[n]]['def']
        if sk is None:
            d = sub(add(sub(b1, b0), l1), add(got, l0))
            c.oblig(st.is_zero(d), 'account:%s' % n, lambda: 'root %s [%s]: bits consumed from the stream are not the bits delivered plus the bits kept: '
                    'delivered %s + kept %s, but pending %s + read %s (difference %s)' % (
                        n, feat, show(sub(b1, b0)), show(l1), show(l0), show(got), show(st.reduce(d))))
        else:
            # position after the seek (8 x new position, saturating), then bits read since
            pos = [a for a, k in b1[1] if k == 1 and T.mentions(a, lambda x: x == sk[2])]
            if not pos and b1[2] >= (1 << 32) - 1:
                c.analysed('saturated position paths', n)
                continue
            d = sub(add(sub(b1, pos[0]), l1), got) if len(pos) == 1 else ONE
            c.oblig(len(pos) == 1 and is_pos8(pos[0], sk[2]) and st.is_zero(d), 'account-seek:%s' % n,
                    lambda: 'root %s [%s]: after a seek bits_read is not 8 x the new position plus the bits read since '
                    '(bits_read %s, kept %s, read since %s)' % (n, feat, show(b1), show(l1), show(got)))
        if requested is not None:
            if sk is None:
                d = sub(sub(b1, b0), requested)
                c.oblig(st.is_zero(d), 'requested:%s' % n, lambda: 'root %s [%s]: bits_read advances by %s for a request of %s bits' % (
                    n, feat, show(sub(b1, b0)), show(requested)))
        c.analysed('success paths', '%s [%s] %d' % (n, feat, outs.index((st, v))))


def is_pos8(v, newpos):
    """v is 8 x newpos (saturating)"""
    if v[0] == 'app' and v[1] in ('saturating_mul', 'mul') and len(v) == 4:
        xs = [as_lin(v[2]), as_lin(v[3])]
        return const(8) in xs and as_lin(newpos) in [as_lin(strip_conv(from_lin(x))) for x in xs]
    return False


def strip_conv(v):
    while v[0] == 'app' and str(v[1]).startswith(('cast:', 'transmute')):
        v = v[2]
    return v


REQUEST = {
    'w_rd_end': lambda en, st: ZERO,
    'w_rd_read_bits_into': lambda en, st: en.seq_len(st, ('ref', ('m', 'arg1'), ())),
    'w_rd_read_bits': lambda en, st: ('sym', 'arg1'),
    'w_rd_read_bytes': lambda en, st: scale(as_lin(('sym', 'arg1')), 8),
    'w_rd_read_bytes_const': lambda en, st: const(32),
    'w_rd_read_bytes_const_into': lambda en, st: const(32),
    'w_rd_skip_bits': lambda en, st: ('sym', 'arg1'),
}


@check('P02')
def p02(c):
    c.rule('on every success path of every stream read: bits delivered + bits kept pending = bits previously pending + 8 x bytes taken; '
           'and the requested amount is what is delivered (affine equality over all paths, loops as inductions)')
    c.rule('the bits delivered are those the stream holds at the places the order and amount say (bit provenance)')
    c.pmap(p02_one, items_of(c, r'w_(rd|pr_rd|pb_rd)_'))
    c.floor('success paths', 100)
    import rules_num
    rules_num.operations(c, 'r')
    rules_num.numbers(c, ('r',), ['std,bits'], ('u8', 'u32', 'i16', 'i64'))
    c.floor('root', 45)


def p02_one(c, feat, n):
    F = facts(feat)
    if n.endswith('w_rd_seek'):
        return
    en, outs = run_root(F, n)
    import engine as E
    rq = REQUEST.get(n.split('::')[-1])
    reader_account(c, F, feat, en, n, outs, as_lin(rq(en, E.State())) if rq else None)
