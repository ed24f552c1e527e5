"""P26: compile-fail witnesses. Every contradictory declaration, in every kind of item, must fail to compile, and its legal twins must compile.

The witnesses are generated here, compiled (type-checked only, never run) against the current tree in each feature
configuration, and the compiler's errors are mapped back to the item whose text they point at."""
import glob
import hashlib
import json
import os
import shutil
import subprocess

import build as B
from checks import check

READ, WRITE, SIZE, ATTR = 'DekuRead', 'DekuWrite', 'DekuSize', 'attr'


class Items:
    def __init__(self):
        self.all = []          # (name, rule, text, good)
        self.seen = set()

    def add(self, rule, name, text, good):
        if text in self.seen:
            return
        self.seen.add(text)
        self.all.append((name, rule, text, good))


def derive(d):
    return '#[deku_derive(DekuRead, DekuWrite)]' if d == ATTR else '#[derive(%s)]' % d


def attr(lst, split=False):
    if not lst:
        return ''
    if split:
        return ' '.join('#[deku(%s)]' % a for a in lst)
    return '#[deku(%s)]' % ', '.join(lst)


def field_ctx(d, at, ty, split=False):
    """the field in every place a field can stand in"""
    f = attr(at, split)
    h = derive(d)
    # a generic or lifetime parameter, neighbours with attributes of their own, first and last position
    yield 'named', '%s\nstruct $N { %s a: %s }' % (h, f, ty)
    yield 'last', '%s\n#[deku(endian = "little")]\nstruct $N { b: u16, #[deku(endian = "big")] c: u32, %s a: %s }' % (h, f, ty)
    yield 'tuple', '%s\nstruct $N(u8, %s %s);' % (h, f, ty)
    yield 'generic', '%s\nstruct $N<const K: usize> { b: [u8; K], %s a: %s }' % (h, f, ty)
    e = '%s\n#[deku(id_type = "u8")]\nenum $N { #[deku(id = "1")] A, #[deku(id = "2")] B%s }'
    yield 'variant', e % (h, ' { x: u8, %s a: %s }' % (f, ty))
    yield 'tuple variant', e % (h, '(%s %s, u8)' % (f, ty))
    yield 'id_pat variant', '%s\n#[deku(id_type = "u8")]\nenum $N { #[deku(id = "1")] A, #[deku(id_pat = "2..=5")] B { id: u8, %s a: %s } }' % (h, f, ty)
    yield 'default variant', '%s\n#[deku(id_type = "u8")]\nenum $N { #[deku(id = "1")] A, #[deku(id = "2", default)] B { x: u8, %s a: %s } }' % (h, f, ty)


def fields(I, rule, bad, ty='u8', derives=(READ, WRITE, ATTR), twins=None, size=False):
    """`bad`: attributes which may not meet on a field; each of them alone (or `twins`) is legal"""
    ds = derives + ((SIZE,) if size else ())
    for d in ds:
        for order, at in (('', bad), (' reversed', bad[::-1])):
            for split in (False, True):
                if len(bad) == 1 and (order or split):
                    continue
                for where, text in field_ctx(d, at, ty, split):
                    if (order or split) and where not in ('named', 'tuple variant'):
                        continue
                    I.add(rule, '%s %s%s%s' % (d, where, order, ' split' if split else ''), text, False)
        for tw in ([[a] for a in bad] if twins is None else twins):
            for where, text in field_ctx(d, tw, ty):
                I.add(rule, '%s %s legal %s' % (d, where, ' '.join(tw)), text, True)


SRC = {'count': 'count = "1"', 'bits_read': 'bits_read = "8"', 'bytes_read': 'bytes_read = "1"',
       'until': 'until = "|v: &u8| *v == 0"', 'read_all': 'read_all'}
SEEK = {'rewind': 'seek_rewind', 'start': 'seek_from_start = "1"', 'current': 'seek_from_current = "1"', 'end': 'seek_from_end = "-1"'}


def witnesses(bits):
    I = Items()
    if bits:
        fields(I, 'bits and bytes', ['bits = 3', 'bytes = 1'], size=True)
    pairs = [('count', 'bytes_read'), ('read_all', 'count'), ('read_all', 'until'), ('read_all', 'bytes_read')]
    if bits:
        pairs += [('bits_read', 'bytes_read'), ('count', 'bits_read'), ('read_all', 'bits_read')]
    for a, b in pairs:
        fields(I, '%s and %s' % (a, b), [SRC[a], SRC[b]], 'Vec<u8>')
    ks = list(SEEK)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            fields(I, 'seek %s and %s' % (a, b), [SEEK[a], SEEK[b]])
    fields(I, 'default alone', ['default = "1"'], twins=[['skip', 'default = "1"'], ['cond = "true"', 'default = "1"']])
    fields(I, 'temp without deku_derive', ['temp'], derives=(READ, WRITE), twins=[])
    fields(I, 'unknown field attribute', ['frobnicate'], size=True, twins=[[]])
    fields(I, 'unknown field attribute with value', ['frobnicate = "1"'], size=True, twins=[[]])
    fields(I, 'attribute of another place on a field', ['id = "1"'], size=True, twins=[[]])
    fields(I, 'attribute given twice', ['bytes = 1', 'bytes = 1'], twins=[['bytes = 1']])
    fields(I, 'attribute given twice: count', ['count = "1"', 'count = "1"'], 'Vec<u8>', twins=[['count = "1"']])
    fields(I, 'bad skip argument', ['skip(foo)'], twins=[['skip'], ['skip(read)'], ['skip(write)']])
    fields(I, 'unknown endian', ['endian = "middle"'], 'u16', derives=(READ, WRITE), twins=[['endian = "big"'], ['endian = "little"']])

    # -- attributes of the item
    for d in (READ, WRITE, ATTR):
        def top(rule, text, legal=()):
            I.add(rule, d + ' ' + rule, derive(d) + '\n' + text, False)
            for t in legal:
                I.add(rule, d + ' legal ' + rule, derive(d) + '\n' + t, True)
        bodies = ['{ a: u8 }', '(u8);', '<const K: usize> { a: [u8; K] }']
        for b in bodies:
            n = '$N' if b[0] in '{(' else '$N'
            for rule, t in (('ctx_default without ctx', 'ctx_default = "1"'), ('id_type on struct', 'id_type = "u8"'), ('id on struct', 'id = "x"'),
                            ('id_endian on struct', 'id_endian = "big"'), ('bytes on struct', 'bytes = 1'), ('unknown struct attribute', 'foo'),
                            ('field attribute on struct', 'count = "1"'), ('bits on struct', 'bits = 1')):
                if 'bits on' in rule and not bits:
                    continue
                top(rule, '#[deku(%s)]\nstruct %s%s' % (t, n, b), ['struct %s%s' % (n, b), '#[deku(ctx = "x: u8", ctx_default = "1")]\nstruct %s%s' % (n, b)])
        vs = ['A', 'A(u8)', 'A { a: u16 }']
        for v in vs:
            legal = ['#[deku(id_type = "u8")]\nenum $N { #[deku(id = "1")] %s }' % v, '#[deku(ctx = "x: u8", id = "x")]\nenum $N { #[deku(id = "1")] %s }' % v,
                     '#[deku(id_type = "u16", bytes = 1)]\nenum $N { #[deku(id = "1")] %s, #[deku(id_pat = "_")] Z(u16) }' % v,
                     '#[deku(id_type = "u16", id_endian = "big", endian = "little")]\nenum $N { #[deku(id = "1", default)] %s, #[deku(id = "2")] Z(u16) }' % v]
            if bits:
                legal.append('#[deku(id_type = "u8", bits = 3)]\nenum $N { #[deku(id = "1")] %s }' % v)

            def en(rule, t, vv='#[deku(id = "1")] ' + v):
                top(rule, '%senum $N { %s }' % ('#[deku(%s)]\n' % t if t else '', vv), legal)
            en('enum without id_type and id', 'endian = "big"')
            en('enum with id_type and id', 'ctx = "x: u8", id_type = "u8", id = "x"')
            en('bytes with id', 'ctx = "x: u8", id = "x", bytes = 1')
            if bits:
                en('bits with id', 'ctx = "x: u8", id = "x", bits = 3')
                en('enum with bits and bytes', 'id_type = "u8", bits = 3, bytes = 1')
            en('enum ctx_default without ctx', 'id_type = "u8", ctx_default = "1"')
            en('unknown enum attribute', 'id_type = "u8", foo')
            en('variant with id and id_pat', 'id_type = "u8"', '#[deku(id = "1", id_pat = "2")] ' + v)
            en('variant id _', 'id_type = "u8"', '#[deku(id = "_")] ' + v)
            en('unknown variant attribute', 'id_type = "u8"', '#[deku(id = "1", bar)] ' + v)
            if v != 'A':
                en('variant without id', 'id_type = "u8"', '#[deku(id = "1")] X, ' + v)
            en('discriminant without repr', 'id_type = "u8"', '#[deku(id = "9")] %s, B = 2' % v) if v == 'A' else None
        top('repr differs from id_type', '#[repr(u16)]\n#[deku(id_type = "u8")]\nenum $N { A = 1, B = 2 }', ['#[repr(u8)]\n#[deku(id_type = "u8")]\nenum $N { A = 1, B = 2 }'])
        if d == READ:
            for v in vs:
                top('two default variants', '#[deku(id_type = "u8")]\nenum $N { #[deku(id = "1", default)] %s, #[deku(id = "2", default)] B }' % v)
                top('two default variants', '#[deku(id_type = "u8")]\nenum $N { #[deku(id = "1", default)] B, #[deku(id_pat = "3")] C(u8), #[deku(id = "2", default)] %s }' % v)
            for at in (['bytes = 1', 'pad_bytes_before = "1"'] + (['bits = 7'] if bits else [])):
                top('attributes on the identifier storage', '#[deku(id_type = "u8")]\nenum $N { #[deku(id_pat = "_")] A(#[deku(%s)] u8) }' % at,
                    ['#[deku(id_type = "u8")]\nenum $N { #[deku(id_pat = "_")] A(u8, #[deku(%s)] u8) }' % at])
            top('identifier storage of another type', '#[deku(id_type = "u8")]\nenum $N { #[deku(id_pat = "_")] A(u16) }')
            top('identifier storage of another type', '#[deku(id_type = "u8")]\nenum $N { #[deku(id_pat = "_")] A { id: u16 } }')
        if d == WRITE:
            top('id_pat without storage', '#[deku(id_type = "u8")]\nenum $N { #[deku(id = "1")] B, #[deku(id_pat = "_")] A }')
    # -- a size which depends on the position is no constant
    for k, v in SEEK.items():
        for name, text in (('struct', '#[deku(%s)]\nstruct $N { a: u8 }'), ('tuple struct', '#[deku(%s)]\nstruct $N(u8, u16);'),
                           ('field', 'struct $N { #[deku(%s)] a: u8 }'), ('second field', 'struct $N { b: u16, #[deku(%s)] a: u8 }'),
                           ('tuple field', 'struct $N(u8, #[deku(%s)] u8);'), ('generic', 'struct $N<const K: usize> { #[deku(%s)] a: [u8; K] }'),
                           ('enum', '#[deku(id_type = "u8", %s)]\nenum $N { #[deku(id = "1")] A }'),
                           ('variant field', '#[deku(id_type = "u8")]\nenum $N { #[deku(id = "1")] A(#[deku(%s)] u8) }'),
                           ('second variant', '#[deku(id_type = "u8")]\nenum $N { #[deku(id = "1")] A, #[deku(id = "2")] B { x: u8, #[deku(%s)] a: u8 } }')):
            I.add('size of a seeking type', 'DekuSize %s %s' % (name, k), '#[derive(DekuSize)]\n' + text % v, False)
            I.add('size of a seeking type', 'DekuSize legal ' + name, '#[derive(DekuSize)]\n' + text.replace(', %s', '').replace('#[deku(%s)]', ''), True)
    return I.all


HEAD = ['#![allow(dead_code, unused)]', 'extern crate alloc;', 'use alloc::vec::Vec;', 'use deku::prelude::*;', '']


def source(items, blank=()):
    out = list(HEAD)
    idx = []
    for n, (name, rule, text, good) in enumerate(items):
        a = len(out) + 1
        lines = text.replace('$N', 'T%d' % n).split('\n')
        out += ['//'] * len(lines) if n in blank else lines
        idx.append((a, len(out)))
    return '\n'.join(out) + '\n', idx


def errors(work, feats, idx):
    """items the compiler's errors point at"""
    cmd = ['cargo', '+nightly', 'check', '--offline', '--message-format=json', '--target-dir', os.path.join(work, 'target'), '--no-default-features',
           '--features', feats]
    r = subprocess.run(cmd, cwd=work, env=B.env_base(), capture_output=True, text=True)
    hit, rest = {}, []
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-message' or m['message']['level'] not in ('error', 'error: internal compiler error'):
            continue
        own = m['target']['name'] == 'reject'
        found = False
        for s in m['message']['spans']:
            while s.get('expansion') and not s['file_name'].endswith('src/lib.rs'):
                s = s['expansion']['span']
            if not own or s['file_name'] != 'src/lib.rs':
                continue
            for n, (a, b) in enumerate(idx):
                if a <= s['line_start'] <= b:
                    hit.setdefault(n, m['message']['message'][:160])
                    found = True
        if not found and not (m['message']['message'].startswith('aborting due to') or m['message']['message'].startswith('could not compile')):
            rest.append((m['target']['name'], m['message']['message'][:300]))
    return hit, rest, r


def compile_all(feats, items):
    """(accepted item numbers, refused {n: message}); cached for the tree"""
    h = hashlib.sha256((B.repo_hash() + B.REPO + feats).encode())
    h.update(json.dumps(items).encode())
    out = os.path.join(B.CACHE, 'facts', 'reject-' + h.hexdigest()[:20])
    res = os.path.join(out, 'result.json')
    with B._lock('reject-' + feats.replace(',', '_')):
        if not os.path.exists(res):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(os.path.join(out, 'w', 'src'))
            work = os.path.join(out, 'w')
            src = os.path.join(B.VERIF, 'corpus', 'reject')
            for f in ('Cargo.toml', 'Cargo.lock'):
                t = open(os.path.join(src, f)).read()
                if f == 'Cargo.toml':
                    t = t.replace('"/repo', '"' + B.REPO)
                open(os.path.join(work, f), 'w').write(t)
            refused, rounds, gone = {}, [], set()
            good = {n for n, i in enumerate(items) if i[3]}
            while True:
                text, idx = source(items, gone)
                open(os.path.join(work, 'src', 'lib.rs'), 'w').write(text)
                hit, rest, r = errors(work, feats, idx)
                rounds.append(len(hit))
                if any(t != 'reject' for t, _ in rest) or (r.returncode != 0 and not hit):
                    raise B.BuildError('the witnesses [%s] cannot be compiled: %s\n%s' % (feats, rest[:3], r.stderr[-1500:]))
                for n, m in hit.items():
                    refused.setdefault(n, m)
                gone |= set(hit)
                if not hit or len(rounds) > 6:
                    break
            shutil.rmtree(work, ignore_errors=True)
            json.dump({'refused': refused, 'rounds': rounds}, open(res, 'w'))
            B._prune()
    return {int(k): v for k, v in json.load(open(res))['refused'].items()}


def job(c, feats):
    items = [list(i) for i in witnesses('bits' in feats)]
    refused = compile_all(feats, items)
    for n, (name, rule, text, good) in enumerate(items):
        c.analysed('declaration', '%s: %s [%s]' % (rule, name, feats))
        c.analysed('rule', rule)
        key = '%s|%s|%s' % (rule, name, feats)
        shown = text.replace('$N', 'T')
        if good:
            c.oblig(n not in refused, key, lambda: 'a legal declaration is refused [%s]: %s\n%s' % (feats, refused.get(n), shown))
        else:
            c.oblig(n in refused, key, 'a contradictory declaration compiles (%s) [%s]: %s\n%s' % (rule, feats, shown.replace('\n', ' '), shown))


@check('P26')
def p26(c):
    c.rule('compile-fail witnesses: every contradictory declaration, in every kind of item, fails to compile against the current tree; each legal twin compiles')
    c.pmap(job, [(f,) for f in (['std,bits', 'std'] if c.tier != 'thorough' else ['std,bits', 'std', 'alloc,bits', 'alloc', 'std,bits,descriptive-errors'])])
    c.floor('declaration', 900)
