"""Rules about derived readers, writers, updates and sizes: the compiled expansion of every type of the
corpus is abstractly interpreted and its set of behaviours compared with the oracle's."""
import hashlib
import os
import re
import build as B
import dcorpus
import dspec as D
import engine
import rules_core as RC
import stdmodel as S
import terms as T
from checks import check
from frontier import find_type, result_of
from terms import ZERO, ONE, const, add, sub, scale, as_lin, from_lin, is_const, cval


def short(t):
    """type string without module paths, lifetimes and references"""
    t = re.sub(r"'\w+ ?", '', t)
    t = re.sub(r'\b(\w+::)+', '', t)
    t = re.sub(r'(\d+)_usize', r'\1', t)
    t = t.replace('&mut ', '').replace('&', '').replace('<>', '')
    t = re.sub(r', Global>', '>', t)
    return t.strip()


RD_RE = re.compile(r'reader::Reader(::)?<.*>(>)?(::|>::| as .*>::)(\w+)$')


class Model:
    """handlers and canonical form for one corpus root"""

    def __init__(self, F, own):
        self.F, self.own = F, own
        self.err = None

    # -- events
    def nev(self, st):
        return sum(1 for e in st.trace if e[0] != 'loop' and not (e[0] == 'pad'))

    def event(self, en, st, rd, what, val, stream=True):
        n = len(st.trace)
        a, b = st, st.copy()
        a.emit(what + ('OK',))
        if stream and rd is not None:
            en.wr(a, rd, ('rstate', n))
        b.emit(what + ('ERR',))
        return [(a, S.ok(val(n) if callable(val) else val)), (b, S.err(('everr', n)))]

    def handle(self, en, st, callee, args, site, depth):
        d = callee['def']
        if 'sym::' in d:
            r = self.sym(en, st, callee, args, d)
            if r is not None:
                return r
        tr = callee.get('trait') or ''
        if tr.endswith('DekuReader::from_reader_with_ctx') or d.endswith('::from_reader_with_ctx'):
            ty = self.ret_ok(callee)
            if short(ty).split('<')[0] == self.own:
                return None
            n = len(st.trace)
            return self.event(en, st, args[0], ('read', short(ty), self.canon(en, st, args[1])), lambda n: ('val', n, ty))
        if tr.endswith('DekuWriter::to_writer') or d.endswith('::to_writer'):
            ty = short(self.selfty(callee))
            if ty.split('<')[0] == self.own:
                return None
            v = self.canon(en, st, args[0])
            if re.fullmatch(r'\[u8(; \d+)?\]', ty) and v.startswith('b'):
                ty = 'bytes'
            return self.event(en, st, args[1], ('write', ty, v, self.canon(en, st, args[2])), S.UNIT)
        m2 = re.search(r'(?<![\w])(Reader|Writer)(::)?<', d) and re.search(r'::(\w+)$', d)
        if m2 and callee.get('locals') and re.search(r'(Reader|Writer)<', str(callee['locals'][1])):
            return self.stream_op(en, st, callee, args, m2.group(1), site)
        if tr.endswith('Seek::rewind') or tr.endswith('Seek::seek'):
            t0 = (callee.get('targs') or [''])[0]
            if re.search(r'(Reader|Writer)<', t0 + str((callee.get('locals') or ['', ''])[1])):
                return self.stream_op(en, st, callee, args, tr.rsplit('::', 1)[1], site)
        return None

    def ret_ok(self, callee):
        t = callee.get('locals') and callee['locals'][0]
        if not t:
            t = (callee.get('ret') or '')
        m = re.match(r'(?:std|core)::result::Result<(.*), [^,]*DekuError>$', t)
        return m.group(1) if m else t or '?'

    def selfty(self, callee):
        t = callee.get('locals') and callee['locals'][1] or '?'
        while t.startswith('&'):
            t = re.sub(r"^&('\w+ )?(mut )?", '', t)
        return t

    def stream_op(self, en, st, callee, args, nm, site):
        if nm in ('seek', 'rewind'):
            w = 'Start(0)' if nm == 'rewind' else self.canon(en, st, args[1]).replace('SeekFrom.', '')
            return self.event(en, st, args[0], ('seek', w), ('newpos', len(st.trace)))
        if nm in ('skip_bits', 'read_bytes', 'write_bits', 'write_bits_order', 'write_bytes'):
            if nm == 'skip_bits':
                n, o = as_lin(args[1]), self.canon(en, st, args[2])
            elif nm == 'read_bytes':
                n, o = scale(as_lin(args[1]), 1), '-'
                m = en.seq_len(st, S.seqref(en, st, args[2]))
                if not st.is_zero(sub(m, n)):
                    o = 'buffer mismatch'
            else:
                b = S.seqref(en, st, args[1])
                n = en.seq_len(st, b)
                v = self.canon(en, st, args[1])
                o = self.canon(en, st, args[2]) if nm == 'write_bits_order' else '-'
                if not re.fullmatch(r'z', self.zero(en, st, args[1])):
                    o = 'content ' + v
            return self.pad(en, st, args[0], n, o)
        if nm in ('new',):
            return None
        return self.event(en, st, args[0], ('op', nm) + tuple(self.canon(en, st, a) for a in args[1:]), ('val', len(st.trace), '?'))

    def zero(self, en, st, a):
        b = S.seqref(en, st, a)
        v = b
        if v[0] == 'slice':
            v = v[1]
        if v[0] == 'ref':
            v = en.load(st, v[1], v[2])
        for _ in range(8):
            if v[0] == 'rep' and v[1] == ZERO:
                return 'z'
            if v[0] == 'agg' and v[3] and all(x == ZERO for x in v[3]):
                return 'z'
            if v[0] == 'agg' and len(v[3]) >= 1:
                v = next((x for x in v[3] if not self.phantom(x)), ('?',))
                continue
            if v[0] == 'slice':
                v = v[1]
                continue
            if v[0] == 'ref':
                v = en.load(st, v[1], v[2])
                continue
            if v[0] == 'app' and (str(v[1]).endswith('::new') or str(v[1]).startswith('transmute:')):
                v = v[2]
                continue
            if v[0] == 'bytes' and not any(v[1]):
                return 'z'
            break
        return 'n'

    def pad(self, en, st, rd, n, o):
        """padding may be produced in pieces: consecutive pieces are one event of the summed size"""
        base = len([e for e in st.trace if e[0] != 'loop' and e[0] != 'padp'])
        orders = [e[2] for e in st.trace if e[0] == 'padp'] + [o]
        base += 1000 * sum(x != y for x, y in zip(orders, orders[1:]))
        key = ('g', 'pad%d' % base)
        b = st.copy()
        st.emit(('padp', base, o, 'OK'))
        st.env[key] = add(st.env.get(key, ZERO), n)
        en.wr(st, rd, ('rstate', ('pad', base)))
        b.emit(('padp', base, o, 'ERR'))
        b.env[key] = ZERO
        return [(st, S.ok(('val', ('pad', base), '?'))), (b, S.err(('everr', ('pad', base))))]

    def sym(self, en, st, callee, args, d):
        nm = re.search(r'::(\w+)(::<.*>)?$', d).group(1)
        targs = [short(str(x)) for x in callee.get('targs') or []]
        if nm in ('un', 'us', 'ub', 'uh', 'ul', 'uc', 'uq', 'ue', 'uo'):
            return [(st, ('app', 'u', nm + targs[0], self.tup(en, st, args[0])))]
        if nm == 'um':
            return self.event(en, st, None, ('umap', 'um%s(%s)' % (targs[0], self.tupc(en, st, args[0]))), lambda n: ('val', n, '?'), stream=False)
        if nm in ('ur', 'ux'):
            return self.event(en, st, args[0], ('ureader', '%s%s(%s)' % (nm, targs[0], self.tupc(en, st, args[1]))), lambda n: ('val', n, '?'))
        if nm == 'uw':
            return self.event(en, st, args[0], ('uwriter', 'uw%s(%s)' % (targs[0], self.tupc(en, st, args[1]))), S.UNIT)
        if nm == 'default':
            return [(st, ('app', 'dflt', short(callee['locals'][0])))]
        if nm in ('eq', 'ne'):
            x, y = sorted([self.deep(en, st, args[0]), self.deep(en, st, args[1])], key=lambda v: self.canon(en, st, v))
            r = ('app', 'eq', x, y)
            return [(st, r if nm == 'eq' else engine.b_not(r))]
        if nm == 'try_from':
            return self.event(en, st, None, ('uconv', self.canon(en, st, args[0])), lambda n: ('val', n, '?'), stream=False)
        return None

    def deep(self, en, st, a):
        for _ in range(6):
            if a[0] == 'ref':
                a = en.load(st, a[1], a[2])
            elif a[0] == 'refv':
                a = a[1]
            else:
                break
        return a

    def tup(self, en, st, a):
        a = self.deep(en, st, a)
        if a[0] == 'agg':
            return ('agg', '', 0, tuple(self.deep(en, st, x) for x in a[3]))
        return a

    def tupc(self, en, st, a):
        a = self.tup(en, st, a)
        return ','.join(self.canon(en, st, x) for x in a[3])

    # -- canonical text of a value
    def canon(self, en, st, v, d=0):
        if d > 30:
            return '…'
        c = lambda x: self.canon(en, st, x, d + 1)
        k = v[0]
        if k == 'lin':
            if not v[1]:
                return str(v[2])
            ps = []
            for a, co in sorted(((c(a), co) for a, co in v[1])):
                ps.append(a if co == 1 else '%d*%s' % (co, a))
            if v[2]:
                ps.append(str(v[2]))
            return '+'.join(ps)
        if k == 'val':
            return '#%s' % self.evn(v[1])
        if k == 'everr':
            return 'e#%s' % self.evn(v[1])
        if k == 'ref':
            return c(en.load(st, v[1], v[2]))
        if k == 'refv':
            return c(v[1])
        if k == 'box':
            return c(en.load(st, v[1], ()))
        if k == 'sym':
            if v[1].startswith('*arg'):
                return self.names.get(v[1], v[1])
            return self.names.get(v[1], v[1])
        if k == 'bytes':
            return 'b' + bytes(v[1]).hex()
        if k == 'slice':
            b = v[1]
            if v[2] == ZERO and b[0] in ('ref', 'bytes'):
                n = en.seq_len(st, b)
                if en.is_same(st, n, v[3]) if hasattr(en, 'is_same') else st.is_zero(sub(n, v[3])):
                    return c(b)
            return '%s[%s..+%s]' % (c(b), c(v[2]), c(v[3]))
        if k == 'fld':
            return self.fld(en, st, v, d)
        if k == 'agg':
            t = self.F.ty(v[1]) if isinstance(v[1], str) else {'k': 'other'}
            fs = [c(x) for x in v[3] if not self.phantom(x)]
            if v[1] == 'array' or re.fullmatch(r'\[u8; \d+\]', str(v[1])):
                if all(is_const(x) and 0 <= cval(x) < 256 for x in v[3]):
                    return 'b' + bytes(cval(x) for x in v[3]).hex()
                return '[%s]' % ','.join(fs)
            if v[1] in ('Option', 'Result'):
                return ('None', 'Some')[v[2]] + ('(%s)' % ','.join(fs) if fs else '') if v[1] == 'Option' else ('Ok', 'Err')[v[2]] + '(%s)' % ','.join(fs)
            if v[1] == '':
                return '(%s)' % ','.join(fs)
            if t['k'] == 'closure':
                return self.fnval(en, st, v)
            nm = short(v[1]).split('<')[0]
            if t['k'] == 'adt' and t['enum']:
                nm += '.' + t['vs'][v[2]]['n']
                if nm.startswith(('Option.', 'Result.')):
                    nm = nm.split('.')[1]
                if nm.startswith('DekuError.'):
                    nm = nm.split('.')[1]
                    if nm not in ('Incomplete', 'Io'):
                        return nm
                if nm.startswith('Cow.'):
                    return fs[0] if fs else ''
                return nm + ('(%s)' % ','.join(fs) if v[3] else '' if nm.split('.')[0] != self.own else '()')
            return '%s(%s)' % (nm, ','.join(fs))
        if k == 'app':
            if v[1] == 'u':
                a = v[3]
                return '%s(%s)' % (v[2], ','.join(c(x) for x in a[3]))
            if v[1] == 'eq':
                return D.eqatom(c(v[2]), c(v[3]))
            if v[1] == 'dflt':
                return 'default<%s>' % v[2]
            if v[1] == 'Error::kind':
                return 'kind(%s)' % c(v[2])
            return '%s(%s)' % (str(v[1]).split('::')[-1], ','.join(c(x) for x in v[2:]))
        if k in ('fn',):
            return self.fnval(en, st, v)
        if k == 'kopq':
            return '()' if v[2].startswith('std::marker::PhantomData') else 'const:' + short(v[2])
        if k == 'discr':
            return 'discr(%s)' % c(v[1])
        if k == 'rep':
            return '[%s;%s]' % (c(v[1]), v[2])
        if k == 'fits':
            return 'fits(%s,%s)' % (c(v[1]), v[3])
        if k == 'newpos':
            return 'newpos'
        if k == 'txt':
            return 'txt'
        return '%s{%s}' % (k, ','.join(c(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in v[1:]))

    def phantom(self, x):
        return (x[0] == 'kopq' and 'PhantomData' in x[2]) or (x[0] == 'agg' and isinstance(x[1], str) and 'PhantomData' in x[1])

    def fld(self, en, st, v, d):
        b = v[1]
        if b[0] == 'rstate':
            return '%s@%s' % (self.sfield(v[3]), self.evn(b[1]))
        if b[0] == 'sym' and b[1].startswith('*') and self.names.get(b[1]) == 'stream':
            return '%s@-' % self.sfield(v[3])
        if b[0] == 'phi' and self.sfield(v[3]) == 'bits' and "(('m', 'arg" in str(b[2]):
            # the stream after a padding loop
            pads = [int(k[1][3:]) for k in st.env if k[0] == 'g' and str(k[1]).startswith('pad')]
            if pads:
                return 'bits@%s' % self.evn(('pad', max(pads)))
        s = self.canon(en, st, b, d + 1)
        if v[2] is not None and v[2] != 0 or (s == 'self' and self.enum):
            t = self.F.ty(self.ownty)
            if s == 'self' and t['k'] == 'adt':
                return 'self.%s.%d' % (t['vs'][v[2] or 0]['n'], v[3])
            return '%s.v%s.%d' % (s, v[2], v[3])
        return '%s.%d' % (s, v[3])

    def sfield(self, i):
        t = self.stream_ty
        n = t['vs'][0]['f'][i][0] if t else str(i)
        return {'bits_read': 'bits', 'bits_written': 'bits'}.get(n, n)

    def fnval(self, en, st, v):
        """a callable is what it does: its outcomes on a symbolic argument"""
        x = ('ref', ('val', ('sym', 'x')), ())
        if v[0] == 'fn':
            outs = en.call(st.copy(), en.fns[v[1]], [x], ('fnval', 0), 40)
        else:
            outs = en.call_closure(st.copy(), v, [('agg', '', 0, (x,))], ('fnval', 0), 40)
        rs = sorted(set(self.canon(en, s, r) for s, r in outs))
        return 'λ{%s}' % '|'.join(rs)

    def evn(self, n):
        if isinstance(n, tuple):
            return 'p%s' % n[1]
        return str(n)

    # -- canonical behaviours
    def behaviours(self, en, outs, final=None):
        groups = {}
        for st, v in outs:
            ev, ren = self.trace(en, st)
            res = self.result(en, st, v)
            fs = self.facts(en, st)
            if final:
                fs['final'] = final(st)
            rn = lambda s: re.sub(r'(?<=[#@])(p?\d+)', lambda m: ren.get(m.group(1), '?' + m.group(1)), s)
            key = (tuple(rn(e) for e in ev), rn(res))
            fs = {rn(a): rn(b) if isinstance(b, str) else b for a, b in fs.items()}
            groups.setdefault(key, []).append(fs)
        return merge_groups(groups)

    def trace(self, en, st):
        """event texts and renumbering of positions to event numbers"""
        out = []
        ren = {'-': '-'}
        pads = {}

        def add_pad(e):
            k = 'p%d' % e[1]
            if k in pads:
                i = pads[k]
                if e[-1] == 'ERR':
                    out[i] = re.sub('OK$', 'ERR', out[i])
                if '|%s|' % e[2] not in out[i]:
                    out[i] += '!order ' + e[2]
                return
            n = st.env.get(('g', 'pad%d' % e[1]), ZERO)
            n = st.reduce(n) if False else n
            pads[k] = len(out)
            ren[k] = str(len(out))
            out.append('pad|%s|%s|%s' % (self.canon(en, st, self.total(en, st, n)), e[2], e[-1]))

        def walk(tr, depth):
            for i, e in enumerate(tr):
                if e[0] == 'loop':
                    segs = [x for x in e[2]]
                    bad = False
                    for sg in segs:
                        for y in sg:
                            if y[0] == 'padp':
                                add_pad(y)
                            else:
                                bad = True
                    if bad:
                        out.append('loop' + repr(sorted(map(str, segs)))[:300])
                    continue
                if e[0] == 'padp':
                    add_pad(e)
                    continue
                if depth == 0:
                    ren[str(i)] = str(len(out))
                out.append('|'.join(str(x) for x in e))
        walk(st.trace, 0)
        if any(o.startswith('pad|') and o.endswith('ERR') for o in out):
            out = [re.sub(r'^pad\|.*?\|(.*)\|ERR$', r'pad|\1|ERR', o) for o in out]
        return out, ren

    def total(self, en, st, n):
        """n with loop-carried unknowns eliminated, using the loop relations and the exit condition"""
        n = as_lin(n)
        eqs = [as_lin(e) for e in st.eqs]
        for f, v in st.facts.items():
            if f[0] == 'lt' and v and len(f[1][1]) == 1 and f[1][1][0][1] == 1 and f[1][2] == -1:
                eqs.append(('lin', f[1][1], 0))         # an unsigned value below one is zero
            elif f[0] == 'eq0' and v:
                eqs.append(f[1])
        carried = lambda a: a[0] in ('phi', 'join', 'kiter')
        while True:
            xs = [(a, e) for e in eqs for a, k in e[1] if carried(a)]
            pick = next(((a, e) for a, e in xs if any(a == y for y, _ in n[1])), None) or (xs[0] if xs else None)
            if pick is None:
                return from_lin(n)
            a, e = pick
            k = dict(e[1])[a]
            if abs(k) != 1:
                return from_lin(n)
            rest = scale(sub(e, ('lin', ((a, k),), 0)), -k)     # a == rest
            def put(x):
                c = dict(x[1]).get(a)
                return x if c is None else add(sub(x, ('lin', ((a, c),), 0)), scale(rest, c))
            eqs = [put(x) for x in eqs if x is not e]
            n = put(n)

    def result(self, en, st, v):
        r = result_of(v)
        if r is None:
            return self.canon(en, st, v)
        if r[0] == 'ok':
            return 'Ok(%s)' % self.canon(en, st, r[1])
        return self.canon(en, st, r[1])

    def facts(self, en, st):
        out = {}
        doms = {}
        for f, v in st.facts.items():
            if f[0] == 'is':
                if v is not True and v is not False:
                    doms.setdefault(f[1], []).append(('in', v, v))
            elif f[0] == 'isnt':
                for x in v:
                    doms.setdefault(f[1], []).append(('out', x, x))
            elif f[0] == 'eq0' and len(f[1][1]) == 1 and f[1][1][0][1] in (1, -1):
                a, k = f[1][1][0]
                x = -f[1][2] * k
                doms.setdefault(a, []).append(('in' if v else 'out', x, x))
            elif f[0] == 'lt' and len(f[1][1]) == 1 and f[1][1][0][1] in (1, -1):
                a, k = f[1][1][0]
                c0 = f[1][2]
                if k == 1:      # a < -c0
                    iv = (None, -c0 - 1)
                else:           # a > c0
                    iv = (c0 + 1, None)
                doms.setdefault(a, []).append(('in' if v else 'out',) + iv)
            elif f[0] in ('app', 'fits'):
                out[self.canon(en, st, f)] = bool(v)
            elif f[0] == 'ovf':
                continue
            else:
                t = self.canon(en, st, f)
                if '#' in t or 'self' in t or 'u' in t:
                    out[t] = v
        for a, cs in doms.items():
            if a[0] in ('agg', 'ref', 'refv', 'slice') or a[0] == 'app' and a[1] == 'BitAnd' and any(x[0] in ('agg', 'ref') for x in a[2:]):
                continue                      # address comparisons (null and alignment checks)
            t = self.canon(en, st, a)
            if a[0] == 'app' and a[1] in ('u', 'eq') and a[1] == 'eq' or (a[0] == 'app' and a[1] == 'u' and a[2].startswith('ub')):
                for k, lo, hi in cs:
                    out[t] = (lo != 0) == (k == 'in')
                continue
            if t.startswith('discr('):
                self.discr_fact(en, st, a, t, cs, out)
                continue
            if '@' in t or t.startswith(('newpos', 'p')):
                continue
            ivs = self.solve(self.domain(a), cs)
            out[t + '∈'] = D.show_ivs(ivs)
        return out

    def discr_fact(self, en, st, a, t, cs, out):
        if t == 'discr(self)':
            ty = self.F.ty(self.ownty)
            names = {int(x['d']): x['n'] for x in ty['vs']}
            ok = set(names)
            for k, lo, hi in cs:
                hit = set(x for x in names if engine.same_int(x, lo))
                ok = ok & hit if k == 'in' else ok - hit
            if len(ok) < len(names):
                out['variant'] = '/'.join(sorted(names[x] for x in ok))
            return
        ok = None
        out[t] = '&'.join(sorted('%s%s' % (k, lo) for k, lo, hi in cs))

    def domain(self, a):
        if a[0] == 'val' and len(a) > 2:
            b = D.BOUNDS.get(short(a[2]))
            if b:
                return b
        if a[0] == 'sym' or a[0] == 'fld' and a[1][0] == 'sym':
            ty = self.ctxty or ''
            if a[0] == 'fld' and ty.startswith('('):
                ts = ty[1:-1].split(', ')
                ty = ts[a[3]] if a[3] < len(ts) else ''
            b = D.BOUNDS.get(ty)
            if b:
                return b
        return None

    def solve(self, dom, cs):
        big = 1 << 200
        ivs = [dom or (-big, big)]
        if dom and dom[0] == 0:
            pass
        for k, lo, hi in cs:
            if dom and dom[0] < 0 and lo is not None and lo == hi and lo > dom[1]:
                lo = hi = lo - (dom[1] - dom[0] + 1)
            lo = -big if lo is None else lo
            hi = big if hi is None else hi
            new = []
            for a, b in ivs:
                x, y = max(a, lo), min(b, hi)
                if k == 'in':
                    if x <= y:
                        new.append((x, y))
                else:
                    if x > y:
                        new.append((a, b))
                    else:
                        if a < x:
                            new.append((a, x - 1))
                        if y < b:
                            new.append((y + 1, b))
            ivs = new
        return sorted(ivs)


def merge_groups(groups):
    """same events and outcome: keep the facts common to all"""
    out = {}
    for k, fss in groups.items():
        seen = []
        for f in fss:
            if f not in seen:
                seen.append(f)
        out[k] = common(seen)
    return out


def common(fss):
    f = dict(fss[0])
    for g in fss[1:]:
        for k in list(f):
            if k not in g:
                del f[k]
            elif f[k] != g[k]:
                if k.endswith('∈'):
                    f[k] = union(f[k], g[k])
                else:
                    del f[k]
    return f


def union(a, b):
    ivs = []
    for s in (a, b):
        for p in s.split('|'):
            m = re.fullmatch(r'(-?\d+)(?:\.\.(-?\d+))?', p)
            ivs.append((int(m.group(1)), int(m.group(2) or m.group(1))))
    ivs.sort()
    out = [ivs[0]]
    for lo, hi in ivs[1:]:
        if lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return D.show_ivs(out)


def oracle_set(paths):
    groups = {}
    for p in paths:
        ev = []
        for e in p.ev:
            if e[0] == 'pad':
                ev.append('pad|%s|ERR' % e[2] if e[-1] == 'ERR' else '|'.join(e))
            else:
                ev.append('|'.join(e))
        # an error inside a padding leaves its size open
        fs = {}
        for k, v in p.facts.items():
            m = re.fullmatch(r'(#\d+)==(-?\d+)', k)
            if m:
                lo, hi = 0, 255
                x = int(m.group(2))
                if v:
                    fs[m.group(1) + '∈'] = str(x)
                else:
                    fs[m.group(1) + '∈'] = D.show_ivs([i for i in [(lo, x - 1), (x + 1, hi)] if i[0] <= i[1]])
            else:
                fs[k] = v
        groups.setdefault((tuple(ev), p.res), []).append(fs)
    return merge_groups(groups)


# ---- running -----------------------------------------------------------------------
# The corpus is compiled in units (crates): a unit holds some of the types and the types these mention.
SHARD = 70


def mentions():
    """type name -> corpus types its declaration mentions"""
    if not hasattr(mentions, 'memo'):
        names = {t.name for t in dcorpus.T}
        memo = {}
        for t in dcorpus.T:
            w = set(re.findall(r'\w+', t.rust()))
            memo[t.name] = (w & names) - {t.name}
        mentions.memo = memo
    return mentions.memo


def closure(names):
    m = mentions()
    out, work = set(), list(names)
    while work:
        n = work.pop()
        if n not in out:
            out.add(n)
            work += m[n]
    return out


def shards(names):
    """names (in corpus order) cut into units of about the same size"""
    k = max(1, -(-len(names) // SHARD))
    return [tuple(names[i::k]) for i in range(k)]


def gen_source(names=None):
    o = ['use crate::sym::*;', 'use deku::prelude::*;', 'use deku::ctx::*;', 'use deku::reader::Reader;', 'use deku::writer::Writer;',
         '#[cfg(any(feature = "alloc", feature = "std"))]', 'use alloc::{vec::Vec, boxed::Box};', '']
    keep = None if names is None else closure(names)
    for t in dcorpus.T:
        if keep is None or t.name in keep:
            o.append(t.rust())
            o.append('')
    return '\n'.join(o)


def corpus_dir(units):
    """a workspace with one crate per unit"""
    import shutil
    src = os.path.join(B.VERIF, 'corpus', 'derive')
    texts = [gen_source(u) for u in units]
    h = hashlib.sha256(repr(texts).encode()).hexdigest()[:16]
    out = os.path.join(B.CACHE, 'gen', 'derive-' + h)
    with B._lock('gen-derive-' + h):
        if os.path.exists(os.path.join(out, 'done')):
            return out
        shutil.rmtree(out, ignore_errors=True)
        toml = open(os.path.join(src, 'Cargo.toml')).read()
        lock = open(os.path.join(src, 'Cargo.lock')).read()
        me = next(x for x in lock.split('\n\n') if '"corpus_derive"' in x)
        for i, t in enumerate(texts):
            d = os.path.join(out, 'u%d' % i)
            os.makedirs(os.path.join(d, 'src'))
            for f in ('lib.rs', 'sym.rs'):
                shutil.copy2(os.path.join(src, 'src', f), os.path.join(d, 'src', f))
            with open(os.path.join(d, 'src', 'gen.rs'), 'w') as f:
                f.write(t)
            with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
                f.write(toml.replace('[workspace]', '').replace('"corpus_derive"', '"corpus_derive_%d"' % i))
        with open(os.path.join(out, 'Cargo.toml'), 'w') as f:
            f.write('[workspace]\nresolver = "2"\nmembers = [%s]\n' % ', '.join('"u%d"' % i for i in range(len(texts))))
        with open(os.path.join(out, 'Cargo.lock'), 'w') as f:
            f.write(lock.replace(me, '\n\n'.join(me.replace('"corpus_derive"', '"corpus_derive_%d"' % i) for i in range(len(texts)))))
        open(os.path.join(out, 'done'), 'w').write('ok')
    return out


_DF = {}
_UNIT = {}          # (feat, type) -> file with the facts of the unit it is analysed in


def dump_units(feat, units):
    """facts of the units, compiled side by side in one workspace"""
    crates = ['corpus_derive_%d' % i for i in range(len(units))]
    src = corpus_dir(units)
    d = B.dump('derive', feat, srcdir=src, lockname=os.path.basename(src), crates=crates)
    for k, names in zip(crates, units):
        for n in names:
            _UNIT.setdefault((feat, n), d[k + '.mono'])


def build_units(units):
    """units: [(feat, names)]"""
    from concurrent.futures import ThreadPoolExecutor
    B.ensure_driver()
    mentions()
    by = {}
    for feat, names in units:
        by.setdefault(feat, []).append(names)
    with ThreadPoolExecutor(max_workers=8) as ex:
        list(ex.map(lambda u: dump_units(*u), by.items()))


def dfacts(feat, name):
    if (feat, name) not in _UNIT:
        dump_units(feat, [(name,)])
    k = _UNIT[feat, name]
    if k not in _DF:
        if len(_DF) > 3:
            _DF.clear()
        _DF[k] = engine.Facts(k)
    return _DF[k]


def analyse(F, root, t):
    m = Model(F, t.name)
    fn = F.fns[F.roots[root]]
    m.names = {}
    m.ctxty = None
    m.ownty = None
    m.enum = t.fields is None
    m.stream_ty = None
    for i in range(fn['argc']):
        ty = fn['locals'][1 + i]
        s = short(ty)
        if s.startswith(('Reader<', 'Writer<')):
            m.names['*arg%d' % i] = 'stream'
            for n, tt in F.types.items():
                if short(n) == s and tt['k'] == 'adt' and not n.startswith('&'):
                    m.stream_ty = tt
        elif s.split('<')[0] == t.name:
            m.names['*arg%d' % i] = 'self'
        else:
            m.names['arg%d' % i] = 'ctx'
            m.ctxty = s
    for n, tt in F.types.items():
        if tt['k'] == 'adt' and short(n).split('<')[0] == t.name:
            m.ownty = n
            if tt['enum'] or True:
                break
    en = engine.Engine(F, [m.handle], {'unroll': 24, 'split_min': False, 'keep_ranges': True})
    outs = en.run(root)
    return m, en, outs


def show_path(k, f):
    return '  %s\n     when %s\n     => %s' % (' ; '.join(k[0]) or '(nothing)', ', '.join('%s=%s' % x for x in sorted(f.items(), key=str)) or 'always', k[1])


def match_res(want, got):
    return want == got or (want in ('?', '??') and not got.startswith('Ok('))


def compare(exp, act):
    """differences between two behaviour sets, as text lines"""
    miss, extra = [], []
    used = set()
    for k, f in exp.items():
        hit = None
        for k2, f2 in act.items():
            if k2 not in used and k2[0] == k[0] and match_res(k[1], k2[1]) and f2 == f:
                hit = k2
                break
        if hit is None:
            if k[1] != '??':          # an error that may, but need not, be possible
                miss.append((k, f))
        else:
            used.add(hit)
    for k2, f2 in act.items():
        if k2 not in used:
            extra.append((k2, f2))
    return miss, extra


ROOTS = (('r_', 'read'), ('rd_', 'read with default context'), ('w_', 'write'), ('wd_', 'write with default context'), ('u_', 'update'), ('u_id_', 'identifier query'), ('s_', 'size'), ('s_B_', 'size in bytes'))


def one_type(c, feat, name, kinds):
    F = dfacts(feat, name)
    t = next(x for x in dcorpus.T if x.name == name)
    bits = 'bits' in feat
    for pre, what in ROOTS:
        root = [r for r in F.roots if r.split('::')[-1] == pre + name]
        if not root or what.split()[0] not in kinds:
            continue
        root = root[0]
        exp, act, m, en = behaviours_of(F, root, t, pre, bits)
        c.analysed('derived functions', '%s of %s [%s]' % (what, name, feat))
        key = '%s:%s' % (what, name)
        if pre in ('s_', 's_B_'):
            c.oblig(exp == act, key, '%s [%s]: declared %s is %s, the layout implies %s' % (name, feat, what, act, exp))
            continue
        for site, ps in en.panics.items():
            c.oblig(False, 'panic:' + key, '%s of %s [%s] can panic (%s)' % (what, name, feat, ps[0][0]))
        miss, extra = compare(exp, act)
        c.obligations += len(exp)
        c.discharged += len(exp) - len(miss)
        if miss or extra:
            txt = '%s of %s [%s] does not behave as its attributes promise\n' % (what, name, feat)
            txt += 'type:\n%s\n' % t.rust()
            txt += 'promised but absent:\n%s\n' % '\n'.join(show_path(*x) for x in miss[:6])
            txt += 'present but not promised:\n%s\n' % '\n'.join(show_path(*x) for x in extra[:6])
            c.violate('behaviour:' + key, txt)


def behaviours_of(F, root, t, pre, bits):
    m, en, outs = analyse(F, root, t)
    final = None
    if pre == 's_B_':
        n = D.oracle_size(t, bits)
        v = outs[0][1] if len(outs) == 1 else None
        got = 'undecided'
        if v is not None and is_const(as_lin(v)):
            got = 'absent' if cval(as_lin(v)) == 2**64 - 1 else cval(as_lin(v))
        return (n // 8 if n % 8 == 0 else 'absent'), got, m, en
    if pre == 's_':
        return D.oracle_size(t, bits), cval(as_lin(outs[0][1])) if len(outs) == 1 and is_const(as_lin(outs[0][1])) else None, m, en
    if pre == 'u_id_':
        exp = D.oracle_id(t)
    elif pre == 'u_':
        final = lambda st: final_fields(m, en, st, t)
        exp = D.oracle_update(t)
    elif pre in ('r_', 'rd_'):
        exp = D.oracle_read(t, bits, pre == 'rd_')
    else:
        exp = D.oracle_write(t, bits, pre == 'wd_')
    if pre == 'u_id_':          # one behaviour per variant, however the code groups them
        act = {}
        for st, v in outs:
            (k, f), = m.behaviours(en, [(st, v)]).items()
            for n in f.pop('variant').split('/') if 'variant' in f else [x.name for x in t.variants]:
                act[(k[0] + ('of ' + n,), k[1])] = f
        exp2 = {}
        for n, q in exp:
            exp2[(('of ' + n,), q)] = {}
        return exp2, act, m, en
    act = m.behaviours(en, outs, final)
    if final:
        act2 = {}
        for (e, r), f in act.items():
            if r != 'Ok(())':
                f = {k: v for k, v in f.items() if k != 'final'}
            act2[(e, r)] = f
        act = act2
    return oracle_set(exp), act, m, en


def final_fields(m, en, st, t):
    me = en.load(st, ('m', 'arg0'), ())
    if t.fields is not None:
        fs = [f for f in t.fields if not f.get('temp')]
        return ','.join(m.canon(en, st, en.proj(st, me, ('f', None, i))) for i in range(len(fs)))
    ty = m.F.ty(m.ownty)
    d = st.facts.get(('is', ('discr', ('sym', '*arg0'))))
    if len(t.variants) == 1:
        d = int(ty['vs'][0]['d'])
    if d is None:
        return '?'
    vi = [i for i, x in enumerate(ty['vs']) if int(x['d']) == d][0]
    v = [x for x in t.variants if x.name == ty['vs'][vi]['n']][0]
    fs = [f for f in v.fields if not f.get('temp')]
    return ','.join(m.canon(en, st, en.proj(st, me, ('f', vi, i))) for i in range(len(fs)))


# ---- registered checks ---------------------------------------------------------------
def usable(t, feat):
    fs = set(feat.split(','))
    return all(n in fs or (n == 'alloc' and fs & {'alloc', 'std'}) for n in t.needs)


def type_item(c, feat, name, kinds, group):
    """violations of one type; those of a type that has other attributes too are attributed later"""
    import harness
    sub_ = harness.Check(c.prop, c.tier, c.seed)
    one_type(sub_, feat, name, kinds)
    t = dcorpus.D_BY_NAME[name]
    for k, v in sub_.items.items():
        c.items.setdefault(k, set()).update(v)
    c.obligations += sub_.obligations
    c.discharged += sub_.discharged
    if not sub_.violations:
        return None
    if len(t.group) > 1 or group != 'seq':
        return feat, name, sub_.violations
    for k, v in sub_.violations.items():
        c.violate(k, v)


def simpler(t, group, feat):
    return [o.name for o in dcorpus.T if o.group <= (t.group | {'seq'}) - {group} and usable(o, feat)]


def attribute(c, failing, kinds, group):
    """a violation of a type counts unless a simpler type, without this group of attributes, fails as well"""
    if not failing:
        return
    need = {}
    for feat, name, _ in failing:
        need.setdefault(feat, set()).update(simpler(dcorpus.D_BY_NAME[name], group, feat))
    feats = sorted(need)
    units, items = [], []
    for feat in feats:
        for unit in shards([t.name for t in dcorpus.T if t.name in need[feat]]):
            units.append((feat, unit))
            items += [(feat, n, kinds) for n in unit]
    build_units(units)
    import harness
    c2 = harness.Check(c.prop, c.tier, c.seed)
    res = c2.pmap(fails_item, items)
    bad = {(i[0], i[1]) for i, r in zip(items, res) if r}
    for feat, name, viols in failing:
        o = next((n for n in simpler(dcorpus.D_BY_NAME[name], group, feat) if (feat, n) in bad), None)
        if o:
            c.notes.append('%s differs, as does %s, which has nothing of this rule: not attributed to it' % (name, o))
            continue
        for k, v in viols.items():
            c.violate(k, v)


def fails_item(c, feat, name, kinds):
    one_type(c, feat, name, kinds)
    return bool(c.violations)


def derive_check(c, group, kinds, floor):
    items, units = [], []
    for feat in RC.configs(c):
        if feat == '' and c.tier != 'thorough':
            continue
        for unit in shards([t.name for t in dcorpus.T if group in t.group and usable(t, feat)]):
            units.append((feat, unit))
            items += [(feat, n, kinds, group) for n in unit]
    build_units(units)
    res = c.pmap(type_item, items)
    attribute(c, [x for x in res if x], kinds, group)
    c.floor('derived functions', floor)
    c.assumptions = [
        'rustc front end, macro expansion and MIR construction (nightly) are faithful to the source',
        'the summaries of std/bitvec functions in lib/stdmodel.py are faithful',
        'fields of an opaque type stand for every field type: the generated code is parametric in them',
        'attributes are sampled by the corpus of types (every attribute, every compatible pair, a sample of triples, in struct and enum shapes), not every program',
    ]


PRIM = re.compile(r'^(read|write)\|([ui]\d+|[ui]size|f32|f64|bool|bytes)\|')


def stored_id(t, f):
    """the variants a behaviour is about keep their identifier in a field"""
    vs = [v for v in t.variants or () if v.name in f.get('variant', '').split('/')]
    return bool(vs) and t.get('id') is None and all(v.get('id_pat') is not None and v.fields for v in vs)


def projected(behs, t):
    """what a behaviour set says about the fields alone: the order of their reads or writes, what becomes of the values"""
    out = {}
    for (ev, res), f in behs.items():
        keep, lab = [], {}
        for n, e in enumerate(ev):
            prim = PRIM.match(e) and not (e.startswith('write|') and stored_id(t, f))
            if e.startswith(('read|', 'write|', 'ureader|', 'uwriter|')) and not prim:
                p = e.split('|')
                w = p[0] + '|' + p[1] + ('|' + '|'.join(p[2:-1]) if p[0] in ('write', 'uwriter') else '') + '|' + p[-1]
                lab[str(n)] = '%s@%d' % (p[1], len(keep))
                keep.append(w)
            else:
                lab[str(n)] = None
        nm = lambda s: re.sub(r'#(\d+)', lambda m: '#' + (lab.get(m.group(1)) or '-'), s)
        keep = tuple(nm(x) for x in keep)
        if res.startswith('Ok('):
            r = 'Ok ' + ' '.join(x for x in re.findall(r'#(\S+?@\d+)', nm(res)))
        else:
            r = nm(res) if re.fullmatch(r'e#\d+', res) and lab.get(res[2:]) else 'other error'
        out.setdefault((keep, r), (ev, res, f))
    return out


def order_item(c, feat, name, kinds):
    """every behaviour treats the fields as some promised behaviour does"""
    F = dfacts(feat, name)
    t = dcorpus.D_BY_NAME[name]
    for pre, what in ROOTS:
        root = [r for r in F.roots if r.split('::')[-1] == pre + name]
        if not root or what.split()[0] not in kinds:
            continue
        exp, act, m, en = behaviours_of(F, root[0], t, pre, 'bits' in feat)
        c.analysed('derived functions', '%s of %s [%s]' % (what, name, feat))
        pe, pa = projected(exp, t), projected(act, t)
        for k in pa:
            c.oblig(k in pe, 'order:%s:%s' % (what, name), '%s of %s [%s] treats its fields in a way no promised behaviour does\n%s\n\nfields: %s => %s\nbehaviour:\n%s' % (
                what, name, feat, t.rust(), ' ; '.join(k[0]), k[1], show_path(pa[k][:2], pa[k][2])))


def order_check(c, kinds, floor):
    c.rule('in every behaviour of every other type of the corpus, the reads (writes) of the fields, their order, the outcome and the place of the values are those of a promised behaviour')
    items, units = [], []
    for feat in RC.configs(c):
        if feat == '' and c.tier != 'thorough':
            continue
        for unit in shards([t.name for t in dcorpus.T if 'seq' not in t.group and 'size' not in t.group and usable(t, feat)]):
            units.append((feat, unit))
            items += [(feat, n, kinds) for n in unit]
    _UNIT.clear()
    build_units(units)
    c.pmap(order_item, items)
    c.floor('derived functions', floor)


RULE = ('the compiled expansion of every type of the corpus is interpreted abstractly with opaque fields, user functions and stream; its complete set of '
        'behaviours (sequence of stream events with arguments, path condition, result) must equal the set the documentation of the attributes implies')


def reg(pid, group, kinds, floor, extra):
    @check(pid)
    def f(c):
        c.rule(RULE)
        c.rule(extra)
        derive_check(c, group, kinds, floor)
        if group == 'seq':
            order_check(c, kinds, 1500)


reg('P05', 'seq', ('read',), 25, 'reading: every field once, in declaration order, the first failure ends the read, the value holds what was read')
reg('P06', 'seq', ('write',), 25, 'writing: every field once, in declaration order, with the context used for reading, the first failure ends the write')
reg('P07', 'magic', ('read', 'write'), 100, 'magic: each byte is read and compared before anything after it; writing emits the same bytes first')
reg('P08', 'enum', ('read',), 200, 'enum reading: the identifier is read with the identifier attributes; each identifier value selects the first matching variant, else the default, else an error')
reg('P09', 'enum', ('write',), 200, 'enum writing: the identifier of the stored variant is written with the attributes it is read with, then its fields')
reg('P25', 'enum', ('identifier',), 60, 'identifier query: for every variant the declared identifier, the one its writing emits, and an error for a variant without a declared identifier')
reg('P10', 'assert', ('read', 'write'), 100, 'assertions: evaluated after the value is known; a false one fails with an assertion error before anything further is read or written')
reg('P11', 'cond', ('read', 'write'), 300, 'skip and cond: exactly the documented combinations read, write or default the field')
reg('P12', 'temp', ('read', 'write', 'update'), 100, 'temporary fields are read but not stored and written from temp_value; update assigns exactly the annotated fields')
reg('P13', 'ctx', ('read', 'write'), 300, 'endian, bit order, sizes and ctx values reach the field in the documented order; container-level settings apply unless overridden')
reg('P14', 'custom', ('read', 'write'), 150, 'map, reader and writer functions are called exactly once in place of (or on) the value')
reg('P15', 'limit', ('read', 'write'), 200, 'count, until, bits_read, bytes_read and read_all hand exactly that limit to the collection')
reg('P16', 'pad', ('read', 'write'), 300, 'padding of exactly the given size is skipped / written as zeros before and after the field')
reg('P17', 'seek', ('read', 'write'), 200, 'seek attributes move the stream before everything else of the field; a failure is an I/O error, an unusable offset an error')
reg('P18', 'size', ('size',), 300, 'SIZE_BITS equals the sum of the parts; of an enum the identifier plus the largest variant')
