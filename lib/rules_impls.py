"""Rules about the implementations deku provides for standard types: collections, wrappers, value domains."""
import re
import build as B
import dspec as D
import engine
import rules_core as RC
import rules_derive as RD
import stdmodel as S
import terms as T
from checks import check
from frontier import Shape, Errs, result_of
from rules_derive import Model, short, show_path, merge_groups
from terms import ZERO, ONE, const, add, sub, scale, as_lin, from_lin, is_const, cval, show

_IF = {}


def ifacts(feat):
    if feat not in _IF:
        d = B.dump('impls', feat)
        _IF[feat] = engine.Facts(d['corpus_impls.mono'])
    return _IF[feat]


class Same(dict):
    def get(self, k, d=None):
        return k


EMPTY = ('vec', ZERO, ())
MAPS = r'std::collections::(HashMap|HashSet)::?<'


class Impl(Model):
    """own: the types whose implementations are looked into; every other read or write is an event"""

    def __init__(self, F, own):
        Model.__init__(self, F, '?')
        self.inl = own
        self.roots = {}

    def event(self, en, st, rd, what, val, stream=True):
        """events carry the number they had when they happened, so that a value can be traced to its event"""
        n = len(st.trace)
        a, b = st, st.copy()
        a.emit(what + ('OK', n))
        if stream and rd is not None:
            en.wr(a, rd, ('rstate', n))
        b.emit(what + ('ERR', n))
        return [(a, S.ok(val(n) if callable(val) else val)), (b, S.err(('everr', n)))]

    def handle(self, en, st, callee, args, site, depth):
        d = callee['def']
        tr = callee.get('trait') or ''
        if re.search(r'(^|::)pred$', d):
            v = self.deep(en, st, args[0])
            a, b = st, st.copy()
            a.emit(('pred', v, 'T'))
            b.emit(('pred', v, 'F'))
            return [(a, ONE), (b, ZERO)]
        if re.search(r'std::vec::Vec::<T, A>::push$', d):
            r, v = S.it_ref(en, st, args[0])
            n = en.val_len(st, v)
            st.emit(('push', args[1]))
            st.env[('g', 'last')] = args[1]
            en.wr(st, r, ('vec', add(n, ONE), ()))
            return [(st, S.UNIT)]
        if re.search(r'std::collections::(HashMap|HashSet)::<.*>::insert$', d):
            r, v = S.it_ref(en, st, args[0])
            n = en.val_len(st, v)
            st.emit(('push', args[1] if len(args) == 2 else ('agg', '', 0, tuple(args[1:]))))
            en.wr(st, r, ('vec', add(n, ONE), ()))
            return [(st, ('val', len(st.trace), '?'))]
        if re.search(r'std::collections::(HashMap|HashSet)::<.*>::(with_capacity_and_hasher|with_hasher|new|with_capacity)$', d):
            if 'with_capacity' in d:
                en.alloc(site, callee, as_lin(args[0]), st)
            return [(st, EMPTY)]
        if re.search(r'std::collections::(HashMap|HashSet)::<.*>::reserve$', d):
            en.alloc(site, callee, as_lin(args[1]), st)
            return [(st, S.UNIT)]
        if re.search(r'std::collections::(HashMap|HashSet)<.*> as .*Default>::default$', d):
            return [(st, EMPTY)]
        if re.search(r'(hash_map|hash_set)::(Iter|Keys|Values)<.*Iterator>::next$', d):
            n = len(st.trace)
            src = self.canon(en, st, args[0])
            b = st.copy()
            st.emit(('item', src, 'T'))
            b.emit(('item', src, 'F'))
            t = callee['locals'][0] if callee.get('locals') else ''
            v = ('val', n, '?')
            k = re.match(r'(?:std|core)::option::Option<\((.*)\)>$', t)
            if 'hash_map::Iter<' in d:
                v = ('agg', '', 0, (('refv', ('fld', v, None, 0)), ('refv', ('fld', v, None, 1))))
            else:
                v = ('refv', v)
            return [(st, S.some(v)), (b, S.NONE)]
        if re.search(r'num::NonZero::<T>::new$', d):
            out = []
            for truth in (True, False):
                s = en.assume(st, ('eq0', as_lin(args[0])), truth)
                if s is not None:
                    s = s.copy()
                    self.fork(en, s, ('eq0', as_lin(args[0])), truth)
                    out.append((s, S.NONE if truth else S.some(args[0])))
            return out
        if re.search(r'num::NonZero::<T>::(get|new_unchecked)$', d):
            return [(st, args[0])]
        if re.search(r'assume_init_drop$|ptr::drop_in_place', d):
            st.emit(('drop', self.deep(en, st, args[0])))
            return [(st, S.UNIT)]
        if re.search(r'<impl \[T\]>::last$', d) and ('g', 'last') in st.env:
            return [(st, ('agg', 'Option', 1, (('ref', ('g', 'last'), ()),)))]
        if tr.endswith('DekuReader::from_reader_with_ctx') or d.endswith('::from_reader_with_ctx'):
            ty = short(self.ret_ok(callee))
            if self.inl(ty):
                return None
        if tr.endswith('DekuWriter::to_writer') or d.endswith('::to_writer'):
            t = callee.get('locals') and callee['locals'][1] or '?'
            t = re.sub(r"^&('\w+ )?(mut )?", '', t)
            if t.startswith('&') or self.inl(short(t)):
                return None
            v = self.deep(en, st, args[0])
            return self.event(en, st, args[1], ('write', short(t), self.val(en, st, v), self.canon(en, st, args[2])), S.UNIT)
        if re.search(r'(^|::)Reader::<.*>::end$', d):
            a, b = st, st.copy()
            a.emit(('end', 'T'))
            b.emit(('end', 'F'))
            en.wr(a, args[0], ('rstate', len(st.trace) - 1))
            en.wr(b, args[0], ('rstate', len(st.trace) - 1))
            return [(a, ONE), (b, ZERO)]
        return Model.handle(self, en, st, callee, args, site, depth)

    def val(self, en, st, v):
        """what is written, keeping an element of a sequence recognisable"""
        v = self.deep(en, st, v)
        if v[0] == 'fld' and v[1][0] == 'idx':
            return ('fld', v[3], self.val(en, st, v[1]))
        if v[0] == 'idx':
            return ('idx', self.canon(en, st, v[1]), from_lin(as_lin(v[2])))
        return self.canon(en, st, v)

    # -- comparisons that are events: of the position of the stream, of a value that was read
    def fork(self, en, st, v, truth):
        pol = True
        while v[0] == 'not':
            v = v[1]
            pol = not pol
        if v[0] not in ('eq0', 'lt'):
            return False
        rdr = self.roots.get('stream')
        cur = start = None
        if rdr is not None:
            now = en.load(st, ('m', rdr), ())
            cur = ('fld', now, None, self.bits_idx)
            start = ('fld', ('sym', '*' + rdr), None, self.bits_idx)
        txt = []
        hit = False
        silent = any(a[0] in ('phi', 'kiter') or a in (self.roots.get('n'), ('fld', self.roots.get('ctx'), None, 0)) for a, k in v[1][1])
        for a, k in v[1][1]:
            if a == cur:
                txt.append(('CUR', k))
                hit = True
            elif a == start:
                txt.append(('START', k))
                hit = True
            elif a[0] == 'fld' and a[1][0] == 'rstate':
                txt.append(('OTHER', k))
                hit = True
            else:
                if a[0] == 'val':
                    hit = True
                txt.append((self.canon(en, st, a), k))
        if not hit:
            return silent
        if truth is not None:
            txt = sorted(txt)
            c = v[1][2]
            if v[0] == 'eq0' and txt and txt[0][1] < 0:
                txt = [(a, -k) for a, k in txt]
                c = -c
            st.emit(('test', v[0], tuple(txt), c, 'T' if truth == pol else 'F'))
        return True

    def evn(self, n):
        return str(n)

    def trace(self, en, st):
        return [self.show(e) for e in st.trace], Same()

    def show(self, e):
        if e[0] == 'loop':
            return 'loop[%s]' % ' | '.join(' ; '.join(self.show(x) for x in sg) for sg in sorted(e[2], key=str))
        if e[0] in ('read', 'write', 'op') and isinstance(e[-1], int):
            e = e[:-1]
        if e[0] in ('push', 'pred', 'drop'):
            e = (e[0], self.canon(self.en, self.st0, e[1])) + e[2:]
        if e[0] == 'test':
            return 'test|%s %s 0|%s' % ('+'.join('%s%s' % ('' if k == 1 else '%d*' % k, a) for a, k in e[2]) + ('%+d' % e[3] if e[3] else ''),
                                        {'eq0': '==', 'lt': '<'}[e[1]], e[4])
        return '|'.join(str(x) for x in e)

    def canon(self, en, st, v, d=0):
        if v == self.roots.get('ctx') and self.ctxty == '()':
            return '()'
        if v[0] == 'vec' or v[0] == 'phi' and d == 0:
            return 'Seq'
        if v[0] == 'upd' and v[1][0] == 'rep' and all(c[0] == 'x' and is_const(c[1]) for c, _ in v[2]):
            xs = {cval(c[1]): self.canon(en, st, x, d + 1) for c, x in v[2]}
            if sorted(xs) == list(range(v[1][2])):
                return 'ARR' + '[%s]' % ','.join(xs[i] for i in sorted(xs))
        if v[0] == 'agg' and isinstance(v[1], str) and re.search(r'mem::(MaybeUninit|ManuallyDrop)<', v[1]) and len(v[3]) == 1:
            return self.canon(en, st, v[3][0], d + 1)
        if v[0] == 'agg' and v[1] in ('', '()') and not v[3]:
            return '()'
        if v[0] == 'app' and re.search(r'(::as_ref|::borrow|Arc::<T>::new|as std::ops::Deref>::deref|Cow::deref)$', str(v[1])) and len(v) == 3:
            return self.canon(en, st, v[2], d + 1)
        if v[0] == 'app' and str(v[1]).startswith('cast:BoxDerefTransmute') and v[2][0] == 'fld' and v[2][3] == 0:
            return self.canon(en, st, v[2][1], d + 1)
        if v[0] == 'app' and v[1] == 'std::borrow::Cow::Owned' and len(v) == 3:
            return self.canon(en, st, v[2], d + 1)
        if v[0] == 'app' and re.fullmatch(r'(to|from)_(be|le|ne)(_bytes)?:u(32|128)|(swap_bytes):u(32|128)', str(v[1])) and len(v) == 3:
            # on a little-endian target (the one analysed), in terms of a byte swap and a reinterpretation
            f, ty = v[1].split(':')
            x = self.canon(en, st, v[2], d + 1)
            if f.startswith('from') and f.endswith('bytes'):
                x = 'transmute:%s(%s)' % (ty, x)
            if '_be' in f or f == 'swap_bytes':
                x = x[6:-1] if x.startswith('bswap(') else 'bswap(%s)' % x
            if f.startswith('to') and f.endswith('bytes'):
                x = 'transmute:[u8; %d](%s)' % (int(ty[1:]) // 8, x)
            return x
        if v[0] == 'slice' and v[2] == ZERO:
            b = self.canon(en, st, v[1], d + 1)
            if self.canon(en, st, v[3], d + 1) == 'len{%s}' % b:
                return b
        return Model.canon(self, en, st, v, d)


def own_types(t):
    return not re.fullmatch(r'(El|Leaf)<\d+>|[ui]\d+|[ui]size|f32|f64', t)


def analyse(F, root, own=own_types, st0=None):
    m = Impl(F, own)
    fn = F.fns[F.roots[root]]
    m.names = {}
    m.ctxty = None
    m.ownty = None
    m.enum = False
    m.stream_ty = None
    m.bits_idx = None
    for i in range(fn['argc']):
        s = short(fn['locals'][1 + i])
        if s.startswith(('Reader<', 'Writer<')):
            m.names['*arg%d' % i] = 'stream'
            m.roots['stream'] = 'arg%d' % i
            for n, tt in F.types.items():
                if short(n) == s and tt['k'] == 'adt' and not n.startswith('&'):
                    m.stream_ty = tt
                    m.bits_idx = [j for j, f in enumerate(tt['vs'][0]['f']) if f[0] in ('bits_read', 'bits_written')][0]
        elif fn['locals'][1 + i].startswith('&'):
            m.names['*arg%d' % i] = 'self'
            t = re.sub(r"^&('\w+ )?(mut )?", '', fn['locals'][1 + i])
            if F.types.get(t, {}).get('k') == 'adt':
                m.ownty = t
                m.enum = bool(F.types[t]['enum'])
        elif s == 'usize':
            m.names['arg%d' % i] = 'n'
            m.roots['n'] = ('sym', 'arg%d' % i)
        else:
            m.names['arg%d' % i] = 'ctx'
            m.roots['ctx'] = ('sym', 'arg%d' % i)
            m.ctxty = s
    en = engine.Engine(F, [m.handle], {'unroll': 24, 'split_min': False, 'keep_ranges': True, 'fork': m.fork, 'satfork': True})
    m.en, m.st0 = en, engine.State()
    outs = en.run(root, st=st0)
    return m, en, outs


# ---- P19: collections --------------------------------------------------------------------
class Bad(Exception):
    pass


def items(st):
    """the path as events and loops"""
    out = []
    for e in st.trace:
        if e[0] == 'loop':
            for sg in e[2]:
                for x in sg:
                    if x[0] == 'loop':
                        raise Bad('a loop inside the loop over the elements')
            out.append(('loop', e[1], [list(sg) for sg in e[2]]))
        else:
            out.append(e)
    return out


class Rounds:
    """what a reader of a collection may do: the automaton of one limit.
    A round reads the parts of one element, stores the element and, unless the limit is a count, evaluates the
    limit once; a round only starts while the limit has not been reached."""

    def __init__(self, m, en, limit, elems, ctx):
        self.m, self.en, self.limit, self.elems, self.ctx = m, en, limit, elems, ctx

    def start(self):
        # (reads so far in this round: ids, stored, verdict)
        return ((), False, 'F')

    def idle(self, s):
        n = len(self.elems)
        if self.limit == 'count':
            return (not s[0]) or (len(s[0]) == n and s[1])
        if self.limit == 'end':
            return (not s[0] and s[2] != 'go') or (len(s[0]) == n and s[1])
        return (not s[0]) or (len(s[0]) == n and s[1] and s[2] is not None)

    def step(self, s, e):
        m = self.m
        reads, stored, verdict = s
        k = e[0]
        n = len(self.elems)
        if k == 'read':
            if len(reads) == n or not reads:
                # a new round
                if not self.idle(s) and not (self.limit == 'end' and verdict == 'go' and not reads):
                    raise Bad('an element is read before the previous one was dealt with')
                if self.limit == 'end':
                    if verdict != 'go':
                        raise Bad('an element is read without having found that input is left')
                elif self.limit != 'count' and verdict == 'T':
                    raise Bad('an element is read although the limit was reached')
                reads, stored, verdict = (), False, None
            want = self.elems[len(reads)]
            if e[1] != want or e[2] != self.ctx:
                raise Bad('reads %s with context %s where %s with context %s was expected' % (e[1], e[2], want, self.ctx))
            if e[3] == 'ERR':
                return ('err', e[4])
            return (reads + (e[4],), stored, verdict)
        if k == 'push':
            if stored or len(reads) != n or not self.is_elem(e[1], reads):
                raise Bad('stores something other than the element just read: %s' % m.show(e))
            return (reads, True, verdict)
        if k == 'pred' and self.limit == 'until':
            if len(reads) != n or verdict is not None or not self.is_elem(e[1], reads):
                raise Bad('evaluates the stop condition on something other than the element just read, or twice')
            return (reads, stored, e[2])
        if k == 'test':
            if self.limit in ('bits', 'bytes'):
                f = 8 if self.limit == 'bytes' else 1
                if e[1] == 'eq0' and dict(e[2]) == {'CUR': 1, 'START': -1, 'n': -f} and e[3] == 0:
                    if verdict is not None and verdict != e[4]:
                        raise Bad('contradictory')
                    if len(reads) != n:
                        raise Bad('the position is compared with the limit in the middle of an element')
                    return (reads, stored, e[4])
                if e[1] == 'eq0' and dict(e[2]) == {'CUR': 1, 'START': -1} and e[3] == -(2**64 - 1) and len(reads) == n and any(
                        k[0] == 'ovf' and v for k, v in self.st.facts.items()):
                    return (reads, stored, e[4])      # a limit that does not fit in bits is never reached
                raise Bad('the limit is compared otherwise: %s' % m.show(e))
            if self.limit == 'zero':
                if len(reads) == n and e[1] == 'eq0' and e[2] == (('#%d' % reads[-1], 1),) and e[3] == 0:
                    return (reads, stored, e[4])
            raise Bad('an unexpected comparison: %s' % m.show(e))
        if k == 'end' and self.limit == 'end':
            if not self.idle(s):
                raise Bad('asks for the end of input in the middle of an element')
            return ((), False, 'go' if e[1] == 'F' else 'T')
        raise Bad('an unexpected step: %s' % m.show(e))

    def is_elem(self, v, reads):
        v = self.m.deep(self.en, self.st, v)
        if len(reads) == 1:
            return v[0] == 'val' and v[1] == reads[0]
        return v[0] == 'agg' and v[1] == '' and len(v[3]) == len(reads) and all(
            self.m.deep(self.en, self.st, x)[:2] == ('val', r) for x, r in zip(v[3], reads))

    def run(self, st):
        """(final automaton states, number of stored elements, number of elements read)"""
        self.st = st
        cur = {self.start()}
        stored = ZERO
        for it in items(st):
            if it[0] != 'loop':
                if any(s and s[0] == 'err' for s in cur):
                    raise Bad('goes on after a failed read: %s' % self.m.show(it))
                cur = {self.step(s, it) for s in cur}
                if it[0] == 'push':
                    stored = add(stored, ONE)
                continue
            _, lid, segs = it
            per = {sum(1 for e in sg if e[0] == 'push') for sg in segs}
            if len(per) != 1:
                raise Bad('rounds of one loop store different numbers of elements')
            stored = add(stored, scale(as_lin(('kiter', lid)), per.pop()))
            seen = set(cur)
            work = list(cur)
            while work:
                s0 = work.pop()
                for sg in segs:
                    s = s0
                    for e in sg:
                        if s[0] == 'err':
                            raise Bad('goes on after a failed read')
                        s = self.step(s, e)
                    if s not in seen:
                        seen.add(s)
                        work.append(s)
            cur = seen
            if len(cur) > 200:
                raise Bad('too many states')
        return cur, stored


CONV = r'into_boxed_slice$|::from$|::into$'


def collection(v):
    while v[0] == 'app' and re.search(CONV, str(v[1])) and len(v) == 3:
        v = v[2]
    return v


def limit_root(c, feat, F, root, limit, elems, ctx):
    m, en, outs = analyse(F, root)
    key = root.split('::')[-1]
    c.analysed('collection readers', '%s [%s]' % (key, feat))
    nok = nerr = 0
    for site, ps in en.panics.items():
        c.oblig(False, 'panic:' + key, '%s [%s] can panic (%s)' % (key, feat, ps[0][0]))
    rd = Rounds(m, en, limit, elems, ctx)
    n = as_lin(m.roots['n']) if 'n' in m.roots else None
    cs = elems == ['u8']
    if n is None and cs and limit == 'count':
        n = as_lin(('fld', m.roots['ctx'], None, 0))
    for st, v in outs:
        desc = show_path((tuple(m.trace(en, st)[0]), m.result(en, st, v)), {})
        r = result_of(v)
        try:
            cur, stored = rd.run(st)
            errs = [s for s in cur if s[0] == 'err']
            if r is None:
                raise Bad('neither a value nor an error')
            if r[0] == 'ok':
                if errs:
                    raise Bad('succeeds although a read failed')
                x = collection(r[1])
                if cs:
                    if not (x[0] == 'fld' and x[1][0] == 'app' and str(x[1][1]).endswith('from_vec_with_nul')):
                        raise Bad('the value is not made of the bytes that were read')
                    x = x[1][2]
                    if x[0] == 'ref':
                        x = en.load(st, x[1], x[2])
                ln = x[1] if x[0] == 'vec' else None
                if ln is None or not st.is_zero(sub(as_lin(from_lin(m.total(en, st, ln))), as_lin(from_lin(m.total(en, st, stored))))):
                    raise Bad('the value does not hold exactly the elements that were read')
                for s in cur:
                    if not rd.idle(s):
                        raise Bad('stops in the middle of an element')
                if limit == 'count':
                    if not st.is_zero(sub(as_lin(m.total(en, st, stored)), n)):
                        raise Bad('the number of elements is not the count')
                elif limit in ('bits', 'bytes'):
                    if not all(s[2] == 'T' for s in cur) and not (st.is_zero(n) and st.is_zero(as_lin(m.total(en, st, stored)))):
                        raise Bad('stops without the limit having been reached')
                elif not all(s[2] == 'T' for s in cur):
                    raise Bad('stops without the limit having been reached')
                nok += 1
            else:
                if not errs or len(errs) != len(cur):
                    if cs and m.result(en, st, v) == 'Parse':
                        if limit == 'zero' and all(s[2] == 'T' for s in cur):
                            continue
                        if limit == 'count' and all(rd.idle(s) for s in cur) and st.is_zero(sub(as_lin(m.total(en, st, stored)), n)):
                            continue
                    raise Bad('fails although no read failed')
                if m.canon(en, st, r[1]) != 'e#%d' % errs[0][1]:
                    raise Bad('the error is not the one of the read that failed')
                nerr += 1
            c.obligations += 1
            c.discharged += 1
        except Bad as b:
            c.oblig(False, 'limit:' + key, '%s [%s]: %s\n%s' % (key, feat, b, desc[:1500]))
    c.oblig(nok > 0 and nerr > 0, 'paths:' + key, '%s [%s]: no path that %s' % (key, feat, 'succeeds' if not nok else 'fails with a failed read'))


KINDS = {'vec': (['El<1>'], 'ctx'), 'bxs': (['El<1>'], 'ctx'), 'ars': (['El<1>'], 'ctx'), 'set': (['El<1>'], 'ctx'), 'map': (['El<1>', 'El<2>'], 'ctx'),
         'vnc': (['El<1>'], '()'), 'mnc': (['El<1>', 'El<2>'], '()'), 'snc': (['El<1>'], '()')}


def p19_item(c, feat, root):
    F = ifacts(feat)
    r, kind, lim = root.split('::')[-1].split('_')
    elems, ctx = KINDS[kind]
    limit_root(c, feat, F, root, lim, elems, ctx)


def write_seq(c, feat, F, root, elem, tag):
    """writes the elements 0..len of a sequence in order, each once, with the context, and stops at the first failure"""
    m, en, outs = analyse(F, root)
    key = root.split('::')[-1]
    c.analysed(tag, '%s [%s]' % (key, feat))
    nok = nerr = 0
    for st, v in outs:
        res = m.result(en, st, v)
        desc = show_path((tuple(m.trace(en, st)[0]), res), {})
        try:
            idx = ZERO
            err = None
            base = None
            for it in items(st):
                if err is not None:
                    raise Bad('goes on after a failed write')
                if it[0] == 'loop':
                    k = ('kiter', it[1])
                    if len(it[2]) != 1 or len(it[2][0]) != 1:
                        raise Bad('a round does not write exactly one element')
                    w = it[2][0][0]
                    base = seq_elem(st, w, elem, add(idx, as_lin(k)), base)
                    if w[4] != 'OK':
                        raise Bad('goes on after a failed write')
                    idx = add(idx, as_lin(k))
                else:
                    base = seq_elem(st, it, elem, idx, base)
                    idx = add(idx, ONE)
                    if it[4] == 'ERR':
                        err = it[5]
            if res == 'Ok(())':
                if err is not None:
                    raise Bad('succeeds although a write failed')
                ln = None
                for ls in ([('len', ('sym', '*arg1'))], [a for e in st.eqs for a, _ in as_lin(e)[1] if a[0] == 'len']):
                    for a in ls:
                        if st.is_zero(sub(as_lin(m.total(en, st, idx)), as_lin(a))) or m.canon(en, st, from_lin(as_lin(m.total(en, st, idx)))) in ('len{self}', 'len{loc{m{arg1},()}}', 'len{as_bytes_with_nul(self)}'):
                            ln = a
                if ln is None and m.canon(en, st, from_lin(as_lin(m.total(en, st, idx)))) not in ('len{self}', 'len{loc{m{arg1},()}}', 'len{as_bytes_with_nul(self)}'):
                    raise Bad('succeeds without having written every element (%s written)' % m.canon(en, st, from_lin(as_lin(m.total(en, st, idx)))))
                if base not in (None, 'self', 'deref{self}', 'as_bytes_with_nul(self)'):
                    raise Bad('writes %s' % base)
                nok += 1
            else:
                if err is None or res != 'e#%d' % err:
                    raise Bad('fails with something other than the failed write')
                nerr += 1
            c.obligations += 1
            c.discharged += 1
        except Bad as b:
            c.oblig(False, 'seq:' + key, '%s [%s]: %s\n%s' % (key, feat, b, desc[:1500]))
    c.oblig(nok > 0 and nerr > 0, 'paths:' + key, '%s [%s]: no path that succeeds, or none that reports a failure' % (key, feat))


def seq_elem(st, e, elem, idx, base):
    if e[0] != 'write' or e[1] != elem or e[3] not in ('ctx', '()') or e[2][0] != 'idx':
        raise Bad('writes something other than the next element with the given context: %s' % (e,))
    if not st.is_zero(sub(as_lin(e[2][2]), idx)):
        raise Bad('elements are not written in order')
    if base is not None and base != e[2][1]:
        raise Bad('elements of different sequences')
    return e[2][1]


def write_map(c, feat, F, root, elems):
    m, en, outs = analyse(F, root)
    key = root.split('::')[-1]
    c.analysed('collection writers', '%s [%s]' % (key, feat))
    nok = nerr = 0
    for st, v in outs:
        res = m.result(en, st, v)
        desc = show_path((tuple(m.trace(en, st)[0]), res), {})
        try:
            def step(s, e):
                # s: None (before an item) | (item id, parts written) | 'end' | ('err', n)
                if s == 'end' or s is not None and s[0] == 'err':
                    raise Bad('goes on after the end or a failure')
                if e[0] == 'item':
                    if s is not None and s[1] != len(elems):
                        raise Bad('an element is not written completely')
                    if not re.match(r'iter[{(](elems,)?self|self', e[1]):
                        raise Bad('iterates over something else: %s' % e[1])
                    return 'end' if e[2] == 'F' else ('item', 0)
                if e[0] == 'write' and s is not None:
                    i = s[1]
                    if i >= len(elems) or e[1] != elems[i] or e[3] != 'ctx' or not re.fullmatch(r'#\d+\.%d' % i if len(elems) > 1 else r'#\d+', str(e[2])):
                        raise Bad('an unexpected write: %s' % (e,))
                    return ('err', e[5]) if e[4] == 'ERR' else ('item', i + 1)
                raise Bad('an unexpected step: %s' % (e,))
            cur = {None}
            for it in items(st):
                if it[0] != 'loop':
                    cur = {step(s, it) for s in cur}
                    continue
                work, seen = list(cur), set(cur)
                while work:
                    s0 = work.pop()
                    for sg in it[2]:
                        s = s0
                        for e in sg:
                            s = step(s, e)
                        if s not in seen:
                            seen.add(s)
                            work.append(s)
                cur = seen
            if res == 'Ok(())':
                if cur != {'end'}:
                    raise Bad('succeeds without having written every element')
                nok += 1
            else:
                if not all(s is not None and s[0] == 'err' and res == 'e#%d' % s[1] for s in cur):
                    raise Bad('fails with something other than the failed write')
                nerr += 1
            c.obligations += 1
            c.discharged += 1
        except Bad as b:
            c.oblig(False, 'seq:' + key, '%s [%s]: %s\n%s' % (key, feat, b, desc[:1500]))
    c.oblig(nok > 0 and nerr > 0, 'paths:' + key, '%s [%s]: no path that succeeds, or none that reports a failure' % (key, feat))


def p19_w(c, feat, root):
    F = ifacts(feat)
    k = root.split('::')[-1]
    if k == 'w_map':
        write_map(c, feat, F, root, ['El<1>', 'El<2>'])
    elif k == 'w_set':
        write_map(c, feat, F, root, ['El<1>'])
    else:
        write_seq(c, feat, F, root, 'El<1>', 'collection writers')


def ideal(v):
    """a bound computed with saturating arithmetic, as the number it stands for (positions are never behind the start, sums of positions and a byte fit)"""
    v = as_lin(v)
    out = const(v[2])
    for a, k in v[1]:
        x = a
        if a[0] == 'app' and len(a) == 4 and a[1] in ('saturating_add', 'saturating_sub'):
            x, y = ideal(a[2]), ideal(a[3])
            x = add(x, y) if a[1] == 'saturating_add' else sub(x, y)
        elif a[0] == 'app' and str(a[1]).startswith(('cast:', 'transmute')):
            x = ideal(a[2])
        out = add(out, scale(as_lin(x), k))
    return out


def variant(F, v):
    for n, t in F.types.items():
        if t['k'] == 'adt' and n == v[1]:
            return t['vs'][v[2]]['n']
    return None


def exact_root(c, feat, root):
    """a vector of exactly n bytes: refuses early only when fewer are left; otherwise n bytes are read from where the reader stood"""
    F = RC.facts(feat)
    en, outs = RC.run_root(F, root)
    sh = Shape(F)
    E = Errs(F)
    n = as_lin(('sym', 'arg1'))
    for i, (st, v) in enumerate(outs):
        c.analysed('exact byte paths', '%s [%s] %d' % (root, feat, i))
        ev = [x for x, _ in RC.flat_events(st.trace) if x[0] == 'io']
        if any(x[2] == 'ERR' for x in ev):
            continue                                            # P01
        me0, me1 = ('sym', '*arg0'), en.load(st, ('m', 'arg0'), ())
        lo0, lo1 = (sh.fld(en, st, m, 'reader', 'leftover') for m in (me0, me1))
        b0, b1 = (as_lin(sh.fld(en, st, m, 'reader', 'bits_read')) for m in (me0, me1))
        l0, l1 = sh.leftover_len(en, st, lo0), sh.leftover_len(en, st, lo1)
        r = result_of(v)
        data = [x for x in ev if x[1] != 'seek']
        if r[0] == 'err':
            # nothing failed: the refusal must be for lack of input
            whole = l0 == const(8)                              # the byte taken by the end of input test
            starts = [x[3] for x in ev if x[1] == 'seek' and x[2][0] == 'agg' and variant(F, x[2]) == 'Current' and as_lin(x[2][3][0]) == ZERO]
            ends = [x[3] for x in ev if x[1] == 'seek' and x[2][0] == 'agg' and variant(F, x[2]) == 'End' and as_lin(x[2][3][0]) == ZERO]
            good = E.name(r[1]) == 'Incomplete' and not data and len(starts) == 1 and len(ends) == 1
            if good:
                short = sub(sub(add(as_lin(ends[0]), ONE if whole else ZERO), as_lin(starts[0])), n)
                good = any(f[0] == 'lt' and ((x and ideal(f[1]) == short) or (not x and add(short, scale(ideal(f[1]), 1)) == const(-1)))
                           for f, x in st.facts.items() if f[0] == 'lt')
            c.oblig(good, 'exact-refuse:%s' % root, lambda: 'reading exactly n bytes [%s] fails with %s although no stream operation failed and it is not established that fewer than n bytes '
                    '(the buffered one included) are left in the input' % (feat, show(r[1])))
            continue
        # where the stream stands for the reads
        pos = ('cur',)
        for x in ev:
            if x[1] != 'seek':
                if pos != ('cur',):
                    break
                continue
            t = x[2]
            w = variant(F, t) if t[0] == 'agg' else None
            if w == 'Current' and as_lin(t[3][0]) == ZERO and pos == ('cur',):
                cur = x[3]
            elif w == 'Start' and pos != ('cur',) and as_lin(t[3][0]) == as_lin(cur):
                pos = ('cur',)
            else:
                pos = ('moved', x)
                cur = locals().get('cur', ('?',))
        c.oblig(pos == ('cur',), 'exact-position:%s' % root, lambda: 'reading exactly n bytes [%s] leaves the stream moved by a seek to %s' % (feat, show(pos[1][2])))
        got = scale(add(RC.g(st, 'pre'), RC.g(st, 'read_exact')), 8)
        d = sub(add(sub(b1, b0), l1), add(got, l0))
        c.oblig(st.is_zero(d) and st.is_zero(sub(sub(b1, b0), scale(n, 8))), 'exact-amount:%s' % root,
                lambda: 'reading exactly n bytes [%s] delivers %s bits, keeps %s of %s pending and %s read' % (feat, show(sub(b1, b0)), show(l1), show(l0), show(got)))
        ln = en.val_len_known(st, r[1])
        c.oblig(r[1][0] != 'vec' or st.is_zero(n), 'exact-content:%s' % root, lambda: 'reading exactly n bytes [%s] returns a vector the input was not stored to (%s)' % (feat, show(r[1])))
        c.oblig(ln is not None and st.is_zero(sub(ln, n)), 'exact-length:%s' % root, lambda: 'reading exactly n bytes [%s] returns %s bytes (%s)' % (feat, ln and show(ln), show(r[1])))


def p19_any(c, feat, root):
    if root.split('::')[-1] == 'w_ex_vec':
        return exact_root(c, feat, root)
    (p19_w if root.split('::')[-1].startswith('w_') else p19_item)(c, feat, root)


ASSUME = ['rustc front end and MIR construction (nightly) are faithful to the source',
          'the summaries of std functions in lib/stdmodel.py and lib/rules_impls.py are faithful (Vec::push appends, HashMap::insert stores the pair, Hash iteration visits every element once)',
          'an opaque element type stands for every element type that occupies memory: the implementations are generic in it']


def iconfigs(c, need_alloc=True):
    B.prefetch('impls', RC.configs(c))
    for feat in RC.configs(c):
        if need_alloc and not set(feat.split(',')) & {'std', 'alloc'}:
            continue
        yield feat


@check('P19')
def p19(c):
    c.rule('every path through a collection reader, loops as repetitions, is a word of the automaton of its limit (read the parts of one element with the inner context, store it, '
           'decide the limit on it), the number of stored elements equals the count, the value holds exactly the stored elements, an error is that of the failed read')
    c.rule('every path through a collection writer writes elements 0..len in order, once each, with the context; success only after the last; the first failure ends it')
    its = []
    for feat in iconfigs(c):
        F = ifacts(feat)
        for r in sorted(F.roots):
            b = r.split('::')[-1]
            if re.fullmatch(r'r_(vec|bxs|ars|set|map|vnc|mnc|snc)_(count|until|bits|bytes|end)', b) or b in ('w_vec', 'w_bxs', 'w_ars', 'w_map', 'w_set', 'w_sl', 'w_rsl'):
                its.append((feat, r))
    c.pmap(p19_any, its + RC.items_of(c, r'::w_ex_vec$', feats=list(iconfigs(c))))
    c.floor('collection readers', 30)
    c.floor('exact byte paths', 40)
    c.floor('collection writers', 10)
    c.assumptions = ASSUME


# ---- P20, P21: wrappers and value domains ---------------------------------------------------
def chain(steps, ok, facts=None, undo=None):
    """the behaviours of a sequence of steps each of which may fail: the first failure ends it with its error"""
    out = {}
    done = []
    for i, s in enumerate(steps):
        ev = tuple(done) + (s + '|ERR',) + tuple(undo(i) if undo else ())
        out[(ev, 'e#%d' % i)] = dict(facts or {})
        done.append(s + '|OK')
    out[(tuple(done), ok)] = dict(facts or {})
    return out


def el(i):
    return 'El<%d>' % i


def expected(name):
    k, t = name.split('_', 1)
    rd = k == 'r'
    m = re.fullmatch(r't(\d+)', t)
    if m:
        n = int(m.group(1))
        if rd:
            return chain(['read|%s|ctx' % el(i + 1) for i in range(n)], 'Ok((%s))' % ','.join('#%d' % i for i in range(n)))
        return chain(['write|%s|self.%d|ctx' % (el(i + 1), i) for i in range(n)], 'Ok(())')
    m = re.fullmatch(r'a(\d\d?)', t)
    if m:
        n = int(m.group(1))
        if rd:
            return chain(['read|El<1>|ctx'] * n, 'Ok([%s])' % ','.join('#%d' % i for i in range(n)), undo=lambda i: sorted('drop|#%d' % j for j in range(i)))
        return chain(["write|El<1>|self[%d]|ctx" % i for i in range(n)], 'Ok(())')
    if t in ('box', 'arc', 'cow', 'ref'):
        return chain(['read|El<1>|ctx'], 'Ok(#0)') if rd else chain(['write|El<1>|self|ctx'], 'Ok(())')
    if t == 'opt':
        if rd:
            return chain(['read|El<1>|ctx'], 'Ok(Some(#0))')
        return {**chain(['write|El<1>|self.Some.0|ctx'], 'Ok(())', {'variant': 'Some'}), **chain([], 'Ok(())', {'variant': 'None'})}
    if t == 'unit':
        return chain([], 'Ok(())')
    if t in ('bool', 'bool0'):
        cx = '()' if t == 'bool0' else 'ctx'
        x = chain(['read|u8|%s' % cx], 'Ok(1)', {'#0∈': '1'})
        x[(('read|u8|%s|ERR' % cx,), 'e#0')] = {}
        x[(('read|u8|%s|OK' % cx,), 'Ok(0)')] = {'#0∈': '0'}
        x[(('read|u8|%s|OK' % cx,), 'Parse')] = {'#0∈': '2..255'}
        return x
    m = re.fullmatch(r'nz_(unit|byo|by|bio|bi)', t)
    m2 = re.fullmatch(r'nz([ui](8|16|32|64|128|size))', t)
    if m or m2:
        ty = m2.group(1) if m2 else {'unit': 'u16', 'by': 'u16', 'bi': 'u16', 'byo': 'i32', 'bio': 'i32'}[m.group(1)]
        cx = '()' if m and m.group(1) == 'unit' else 'ctx' if m2 else {2: '(ctx.0,ctx.1)', 3: '(ctx.0,ctx.1,ctx.2)'}[len(m.group(1))]
        if rd:
            x = chain(['read|%s|%s' % (ty, cx)], 'Ok(#0)')
            del x[(('read|%s|%s|OK' % (ty, cx),), 'Ok(#0)')]
            x[(('read|%s|%s|OK' % (ty, cx), 'test|#0 == 0|F'), 'Ok(#0)')] = {}
            x[(('read|%s|%s|OK' % (ty, cx), 'test|#0 == 0|T'), 'Parse')] = {}
            return x
        return chain(['write|%s|self|%s' % (ty, cx)], 'Ok(())')
    ip = {'ip4': ('u32', '[u8; 4]', 'Ipv4Addr', 'self'), 'ip6': ('u128', '[u8; 16]', 'Ipv6Addr', 'self')}
    if t in ip:
        ty, arr, nm, s = ip[t]
        if rd:
            return chain(['read|%s|ctx' % ty], 'Ok(%s(transmute:%s(bswap(#0))))' % (nm, arr))
        return chain(['write|%s|bswap(transmute:%s(%s.0))|ctx' % (ty, ty, s)], 'Ok(())')
    if t == 'ip':
        return {**chain(['write|u32|bswap(transmute:u32(self.V4.0.0))|ctx'], 'Ok(())', {'variant': 'V4'}),
                **chain(['write|u128|bswap(transmute:u128(self.V6.0.0))|ctx'], 'Ok(())', {'variant': 'V6'})}
    return None


def norm_trace(ev):
    """the order in which already read elements are dropped does not matter"""
    ev = [re.sub(r"\('idx', '(\w+)', (?:\('lin', \(\), (\d+)\)|(\d+))\)", lambda m: '%s[%s]' % (m.group(1), m.group(2) or m.group(3)), e) for e in ev]
    i = len(ev)
    while i and ev[i - 1].startswith('drop|'):
        i -= 1
    return tuple(ev[:i] + sorted(ev[i:]))


def fixed_root(c, feat, root):
    F = ifacts(feat)
    name = root.split('::')[-1]
    exp = expected(name)
    c.analysed('implementations', '%s [%s]' % (name, feat))
    if name in ('r_bool', 'r_bool0'):
        return bool_root(c, feat, F, root)
    if name in ('w_bool', 'w_bool0'):
        for b in (0, 1):
            st0 = engine.State()
            st0.env[('m', 'arg1')] = const(b)
            compare_root(c, feat, F, root, chain(['write|u8|%d|%s' % (b, '()' if name == 'w_bool0' else 'ctx')], 'Ok(())'), st0, ' of %s' % ('true' if b else 'false'))
        return
    compare_root(c, feat, F, root, exp, None, '')


def T_value(v, x, n):
    """value of a term over x alone when x is n; None when it has other parts"""
    if v[0] == 'lin':
        return v[2] + sum(k * n for a, k in v[1]) if all(a == x for a, k in v[1]) else None
    if v == x:
        return n
    if v[0] == 'not':
        r = T_value(v[1], x, n)
        return None if r is None else 1 - r
    if v[0] in ('eq0', 'lt'):
        r = T_value(v[1], x, n)
        return None if r is None else int(r == 0 if v[0] == 'eq0' else r < 0)
    return None


def holds_for(st, x, n):
    """whether the facts about x alone allow the value n"""
    for f, val in st.facts.items():
        if f[0] == 'is' and f[1] == x and val != n:
            return False
        if f[0] == 'isnt' and f[1] == x and n in val:
            return False
        if f[0] in ('eq0', 'lt'):
            r = T_value(f, x, n)
            if r is not None and r != int(val):
                return False
    return True


def bool_root(c, feat, F, root):
    name = root.split('::')[-1]
    m, en, outs = analyse(F, root)
    for site, ps in en.panics.items():
        c.oblig(False, 'panic:' + name, '%s [%s] can panic (%s)' % (name, feat, ps[0][0]))
    for k, o in en.obl.items():
        c.oblig(o[0] != 'open', 'panic:' + name, '%s [%s]: possible %s at %s' % (name, feat, o[1], o[2]))
    cx = '()' if name == 'r_bool0' else 'ctx'
    seen = set()
    for st, v in outs:
        ev = [e for e in m.trace(en, st)[0] if not e.startswith('test|')]
        res = result_of(v)
        desc = lambda w: '%s [%s]: %s\n%s' % (name, feat, w, show_path((tuple(m.trace(en, st)[0]), m.result(en, st, v)), {})[:800])
        if ev == ['read|u8|%s|ERR' % cx]:
            c.oblig(m.result(en, st, v) == 'e#0', 'behaviour:' + name, lambda: desc('the error is not the one of the read that failed'))
            seen.add('e')
            continue
        if ev != ['read|u8|%s|OK' % cx] or res is None:
            c.oblig(False, 'behaviour:' + name, desc('does not read exactly one byte with its context'))
            continue
        rd = [e for e in st.trace if e[0] == 'read'][0]
        x = ('val', rd[-1], rd[1])
        for n in range(256):
            if not holds_for(st, x, n):
                continue
            want = min(n, 2)
            if want == 2:
                good = res[0] == 'err' and m.result(en, st, v) == 'Parse'
            else:
                good = res[0] == 'ok'
                if good:
                    b = T_value(res[1], x, n)
                    good = b is not None and b == want
            seen.add(want)
            c.oblig(good, 'behaviour:' + name, lambda: desc('a byte of %s is not read as %s' % (want if want < 2 else '2 or more', ('false', 'true', 'a Parse error')[want])))
    c.oblig(seen >= {'e', 0, 1, 2}, 'behaviour:' + name, '%s [%s]: cases seen: %s' % (name, feat, sorted(map(str, seen))))


def compare_root(c, feat, F, root, exp, st0, what):
    name = root.split('::')[-1]
    m, en, outs = analyse(F, root, st0=st0)
    keep = set(k for f in exp.values() for k in f)
    act = {}
    for (ev, res), f in m.behaviours(en, outs).items():
        res = re.sub(r'^Ok\(ARR\[', 'Ok([', res)
        res = re.sub(r'^Ok\(\[const:MaybeUninit<.*>;0\]\)$', 'Ok([])', res)
        k = (norm_trace(ev), res)
        f = {a: b for a, b in f.items() if a in keep and (ev and ev[0].endswith('OK') or a != '#0∈')}
        if name == 'w_cow':
            k = (tuple(re.sub(r'self\.(Owned|Borrowed)\.0', 'self', e) for e in k[0]), k[1])
        act[k] = RD.common([act[k], f]) if k in act else f
    for site, ps in en.panics.items():
        c.oblig(False, 'panic:' + name, '%s [%s] can panic (%s)' % (name, feat, ps[0][0]))
    for k, o in en.obl.items():
        c.oblig(o[0] != 'open', 'panic:' + name, '%s [%s]: possible %s at %s' % (name, feat, o[1], o[2]))
    miss, extra = RD.compare(exp, act)
    c.obligations += len(exp)
    c.discharged += len(exp) - len(miss)
    if miss or extra:
        c.violate('behaviour:' + name, '%s%s [%s] does not behave as documented\npromised but absent:\n%s\npresent but not promised:\n%s\n' % (
            name, what, feat, '\n'.join(show_path(*x) for x in miss[:6]), '\n'.join(show_path(*x) for x in extra[:6])))


def fixed_check(c, pat, floor):
    its = []
    for feat in iconfigs(c, False):
        F = ifacts(feat)
        for r in sorted(F.roots):
            b = r.split('::')[-1]
            if re.fullmatch(pat, b) and expected(b) is not None:
                its.append((feat, r))
    c.pmap(fixed_root, its)
    c.floor('implementations', floor)
    c.assumptions = ASSUME


@check('P20')
def p20(c):
    c.rule('the complete set of behaviours (reads and writes of the parts with their context, path condition, value, error) of each wrapper equals that of its parts in order; '
           'a partly read array drops exactly the elements that were read')
    fixed_check(c, r'[rw]_(t\d+|a\d\d?|box|arc|cow|ref|opt|unit)', 40)
    seqs = []
    for feat in iconfigs(c, False):
        F = ifacts(feat)
        seqs += [(feat, r) for r in sorted(F.roots) if r.split('::')[-1] in ('w_sl', 'w_rsl', 'w_bxs', 'w_ars')]
    c.pmap(lambda c2, feat, r: write_seq(c2, feat, ifacts(feat), r, 'El<1>', 'slices'), seqs)
    c.floor('slices', 3)


@check('P21')
def p21(c):
    c.rule('bool, NonZero and IP address: exactly one number is read (written) with the context; values outside the domain are a Parse error; the number and the value correspond')
    c.rule('CString: bytes up to and including the first zero (or exactly the given number) are read, each with no context; anything from_vec_with_nul rejects is a Parse error; writing emits all bytes with the zero')
    fixed_check(c, r'[rw]_(bool0?|nz.*|ip\d?)', 40)
    its = []
    for feat in iconfigs(c):
        F = ifacts(feat)
        its += [(feat, r) for r in sorted(F.roots) if re.fullmatch(r'r_cstr(_n)?|w_cstr(_e)?', r.split('::')[-1])]
    c.pmap(cstring, its)
    c.floor('strings', 4)


def cstring(c, feat, root):
    F = ifacts(feat)
    k = root.split('::')[-1]
    if k.startswith('w_'):
        write_seq(c, feat, F, root, 'u8', 'strings')
    else:
        c.analysed('strings', '%s [%s]' % (k, feat))
        limit_root(c, feat, F, root, 'count' if k == 'r_cstr_n' else 'zero', ['u8'], '()')


# ---- P30: memory reserved in advance -----------------------------------------------------------
def bounded(st, t, seen=()):
    """is the amount bounded by a constant or by what the stream answered about itself, on every input of this path?"""
    if t[0] == 'lin':
        return all(k < 0 or term_bounded(st, x, seen) for x, k in t[1])
    return term_bounded(st, t, seen)


CUT = ('min', 'Rem', 'rem', 'BitAnd')
KEEP = ('saturating_add', 'max', 'Add', 'wrapping_add')
FIRST = ('Div', 'div', 'Shr', 'saturating_sub', 'Sub', 'ilog2', 'isqrt')


def term_bounded(st, x, seen):
    if x[0] in ('newpos', 'size_of') or x[0] == 'lin':
        return bounded(st, x, seen) if x[0] == 'lin' else True
    if x[0] == 'app':
        op, args = x[1].split('::')[-1], x[2:]
        if op in ('size_of', 'align_of'):
            return True
        if op in CUT and any(bounded(st, a, seen) for a in args):
            return True
        if op in KEEP and all(bounded(st, a, seen) for a in args):
            return True
        if op in FIRST and bounded(st, args[0], seen):
            return True
        if op.startswith('cast:') and bounded(st, args[0], seen):
            return True
    if x in seen:
        return False
    # a comparison of the path with something bounded
    for f, truth in st.facts.items():
        if f[0] != 'lt':
            continue
        lin = as_lin(f[1])
        k = dict(lin[1]).get(x, 0)
        # lin < 0 with k > 0: x below the rest; not (lin < 0) with k < 0: x at most the rest
        if truth and k > 0 and all(y == x or z > 0 or term_bounded(st, y, seen + (x,)) for y, z in lin[1]):
            return True
        if not truth and k < 0 and all(y == x or z < 0 or term_bounded(st, y, seen + (x,)) for y, z in lin[1]):
            return True
    return False


def p30_one(c, feat, root):
    name = root.split('::')[-1]
    if name == 'w_ex_vec':
        en, outs = RC.run_root(RC.facts(feat), root)
    else:
        m, en, outs = analyse(ifacts(feat), root)
    c.analysed('collection readers', '%s [%s]' % (root, feat))
    for site, d, n, st in en.allocs:
        c.analysed('reservations', '%s: %s' % (d, show(n)[:120]))
        c.oblig(bounded(st, n), 'reserve:%s' % name, lambda: '%s [%s] reserves memory for %s elements (%s): the amount is not bounded by anything but the count announced by the input' % (root, feat, show(n)[:200], d))
    c.oblig(bool(outs), 'none:%s' % name, '%s [%s]: no behaviour found' % (root, feat))


@check('P30')
def p30(c):
    c.rule('on every path through a reader of a collection, every amount of memory reserved before the elements are read is bounded by a constant or by what the stream says is left (dataflow of the amount, path conditions)')
    its = []
    for feat in iconfigs(c):
        F = ifacts(feat)
        for r in sorted(F.roots):
            if re.fullmatch(r'r_(vec|bxs|ars|set|map|vnc|mnc|snc)_(count|until|bits|bytes|end)|r_cstr\w*|r_bx\w*|r_arc?\w*|r_cow\w*', r.split('::')[-1]):
                its.append((feat, r))
    c.pmap(p30_one, its + RC.items_of(c, r'::w_ex_vec$', feats=list(iconfigs(c))))
    c.floor('collection readers', 40)
    c.assumptions = ASSUME
