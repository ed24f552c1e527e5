"""The corpus of derived types: specifications grouped by the guarantee they exercise."""
from dspec import Ty, F, V, U, L, X, Raw, Cl, TYPES

T = []


def ty(group, name, *a, **k):
    if group == 'enum' and any(x in k for x in ('endian', 'id_endian', 'bits', 'bytes', 'bit_order')):
        group = {'enum', 'ctx'}     # settings that reach the identifier and its storage
    t = Ty(name, *a, group=group, **k)
    T.append(t)
    return t


def un(k, *a):
    return U('n', k, *a)


def us(k, *a):
    return U('s', k, *a)


def ub(k, *a):
    return U('b', k, *a)


def ul(k, leaf, *a):
    return U('l', k, *a, leaf=leaf)


def ue(k, *a):
    return U('e', k, *a)


def uo(k, *a):
    return U('o', k, *a)


# ---- order of fields, contexts, errors -----------------------------------------
ty('seq', 'Sq1', [F('a', L(1)), F('b', L(2)), F('c', L(3))])
ty('seq', 'Sq2', [F('f0', L(1)), F('f1', L(2)), F('f2', L(1))], tuple_=True)
ty('seq', 'Sq3', [])
ty('seq', 'Sq4', [F('a', L(4), endian='big'), F('b', L(2))], endian='little')
ty('seq', 'Sq5', [F('a', 'Sq1'), F('b', L(2)), F('c', 'En1')])
ty('seq', 'Sq6', [F('a', L(1)), F('b', L(2), ctx=['*a']), F('c', L(3), ctx=['*a', '*b'])])
ty('seq', 'Sq7', [F('a', L(1)), F('b', 'Coll<2>', count=un(1, 'a')), F('c', L(3))])
ty('seq', 'Sq8', [F('f%d' % i, L(i)) for i in range(8)], tuple_=True)

# ---- magic -----------------------------------------------------------------------
ty('magic', 'Mg1', [F('a', L(1))], magic=b'\x89')
ty('magic', 'Mg2', [F('a', L(1)), F('b', L(2))], magic=b'deku')
ty('magic', 'Mg3', [F('a', L(1)), F('b', L(2), magic=b'\x00\xff'), F('c', L(3))])
ty('magic', 'Mg4', [F('a', L(1), magic=b'\x01'), F('b', L(2), magic=b'\x02')], magic=b'\x03')
ty('magic', 'Mg5', [], magic=b'\x7fELF')
ty('magic', 'Mg6', variants=[V('A', [F('f0', L(1))], id=1), V('B', [], id=2)], magic=b'\xca\xfe', id_type='u8')

# ---- enums ------------------------------------------------------------------------
ty('enum', 'En1', variants=[V('A', [], id=1), V('B', [F('f0', L(1))], id=2), V('C', [F('f0', L(2)), F('f1', L(3))], id=7)], id_type='u8')
ty('enum', 'En2', variants=[V('A', [F('x', L(1))], tuple_=False, id=0), V('B', [F('x', L(2)), F('y', L(3))], tuple_=False, id=255)], id_type='u8')
ty('enum', 'En3', variants=[V('A', [F('f0', L(1))], id=1), V('B', [F('f0', 'u8'), F('f1', L(2))], id_pat='2..=9'), V('C', [F('f0', 'u8')], id_pat='_')], id_type='u8')
ty('enum', 'En4', variants=[V('A', [], disc=1), V('B', [], disc=5), V('C', [], disc=200)], id_type='u8', attrs='#[repr(u8)]')
ty('enum', 'En5', variants=[V('A', [F('f0', L(1))], id=1), V('B', [], id=2, default=True), V('C', [F('f0', L(3))], id=3)], id_type='u8')
ty('enum', 'En6', variants=[V('A', [F('f0', L(1))], id=1), V('B', [F('f0', L(2))], id=2)], ctx='kind: u8', id='kind', id_ty='u8')
ty('enum', 'En7', variants=[V('A', [], id=0x1234), V('B', [F('f0', L(1))], id=0xffff)], id_type='u16', endian='big')
ty('enum', 'En8', variants=[V('A', [F('f0', L(2))], id=0x1234), V('B', [F('f0', L(1))], id=1)], id_type='u16', endian='big', id_endian='little')
ty('enum', 'En9', variants=[V('A', [F('f0', L(2))], id=0x1234), V('B', [F('f0', 'u16'), F('f1', L(1))], id_pat='_')], id_type='u16', endian='big')
ty('enum', 'En10', variants=[V('A', [F('f0', L(2))], id=0x1234), V('B', [F('f0', 'u16')], id_pat='0x10..=0x20'), V('C', [F('f0', 'u16')], id_pat='_')], id_type='u16', id_endian='big', endian='little')
ty('enum', 'En11', variants=[V('A', [], id=1), V('B', [F('f0', L(1))], id=3)], id_type='u8', bits=3, needs='bits')
ty('enum', 'En12', variants=[V('A', [], id=1), V('B', [F('f0', 'u8'), F('f1', L(1))], id_pat='3..=5'), V('C', [F('f0', L(4))], id=6)], id_type='u8', bits=5, bit_order='lsb', needs='bits')
ty('enum', 'En13', variants=[V('A', [], id=1), V('B', [F('f0', L(1))], id=0x00ffff)], id_type='u32', bytes=3, endian='little')
ty('enum', 'En14', variants=[V('A', [F('f0', L(1))], id=-1), V('B', [F('f0', L(2))], id=-128), V('C', [], id=127)], id_type='i8')
ty('enum', 'En15', variants=[V('A', [F('f0', L(1))], id=-2), V('B', [F('f0', 'i16')], id_pat='_')], id_type='i16', endian='big')
ty('enum', 'En16', variants=[V('A', [], disc=3), V('B', [], disc=4), V('C', [F('f0', 'u8')], id_pat='_')], id_type='u8', attrs='#[repr(u8)]')
ty('enum', 'En17', variants=[V('A', [], id=1), V('B', [F('x', 'u8'), F('y', L(1))], tuple_=False, id_pat='2 | 3'), V('C', [], id=4)], id_type='u8')
ty('enum', 'En18', variants=[V('A', [F('f0', L(1))], id=1), V('B', [F('f0', L(2))], id=1), V('C', [F('f0', L(3))], id=2)], id_type='u8', extra='#[allow(unreachable_patterns)]')
ty('enum', 'En19', variants=[V('A', [], id=1), V('B', [F('f0', L(1))], id=2), V('D', [], id=9, default=True)], ctx='kind: u8', id='kind', id_ty='u8')
ty('enum', 'En20', variants=[V('A', [], id=1), V('B', [F('f0', L(1))], id_pat='10..=20'), V('C', [F('f0', L(2))], id_pat='_')], ctx='kind: u8, n: usize', id='kind', id_ty='u8')
ty('enum', 'En21', variants=[V('A', [F('f0', L(1))], id=1), V('B', [F('f0', L(2))], id=2)], id_type='u64', endian='little', needs='')
ty('enum', 'En22', variants=[V('A', [F('f0', L(1))], id=1)], id_type='u8')
ty('enum', 'En23', variants=[V('A', [F('f0', L(1))], id=i) if i == 0 else V('V%d' % i, [F('f0', L(i))], id=i * 3) for i in range(12)], id_type='u8')
ty('enum', 'En24', variants=[V('A', [], disc=-5), V('B', [], disc=4)], id_type='i8', attrs='#[repr(i8)]')
ty('enum', 'En25', variants=[V('A', [F('f0', L(1))], id=1), V('B', [F('f0', L(2))], id=2, writer=U('w', 5))], id_type='u8')
ty('enum', 'En26', variants=[V('A', [F('x', L(1)), F('y', L(2), ctx=['x'])], tuple_=False, id=1), V('B', [F('x', L(1)), F('y', L(2), cond=ub(3, 'x'), default=ul(1, 2))], tuple_=False, id=2)], id_type='u8')
ty('enum', 'En27', variants=[V('A', [F('f0', L(1))], id=1), V('B', [F('f0', L(2))], id=2)], id_type='u16', endian='endian', ctx='endian: Endian')
ty('enum', 'En28', variants=[V('A', [], disc=1), V('B', [F('x', L(1))], tuple_=False, disc=2)], id_type='u8', attrs='#[repr(u8)]') if False else None

# ---- contexts ----------------------------------------------------------------------
ty('ctx', 'Cx1', [F('a', L(1)), F('b', 'Coll<2>', count=un(1, 'n')), F('c', L(3), ctx=['n', '*a'])], ctx='n: usize')
ty('ctx', 'Cx2', [F('a', L(1)), F('b', L(2), endian='big'), F('c', L(3), ctx=['n'])], ctx='n: u8, e: Endian', endian='e')
ty('ctx', 'Cx3', [F('a', L(1), ctx=['n']), F('b', L(2))], ctx='n: usize', ctx_default=un(7))
ty('ctx', 'Cx4', [F('a', L(1), ctx=['n', 'e']), F('b', L(2), endian='e')], ctx='n: usize, e: Endian', ctx_default=[un(7), ue(8)])
ty('ctx', 'Cx5', [F('a', 'Cx1', ctx=[un(3)]), F('b', 'Cx2', ctx=[Raw('9', '9'), ue(4, 'a')]), F('c', 'Cx3'), F('d', 'Cx3', ctx=[un(5)])])
ty('ctx', 'Cx6', variants=[V('A', [F('f0', L(1), ctx=['n'])], id=1), V('B', [F('f0', L(2)), F('f1', L(3), cond=ub(2, 'n'))], id=2)], id_type='u8', ctx='n: usize', ctx_default=un(1))
ty('ctx', 'Cx7', variants=[V('A', [F('f0', L(1))], id=1), V('B', [F('f0', L(2), endian='big')], id=2)], id='k', id_ty='u8', ctx='k: u8, e: Endian', endian='e')
ty('ctx', 'Cx8', [F('a', L(1)), F('b', L(2), ctx=['deku::bit_offset']), F('c', L(3), ctx=['deku::byte_offset', '*a'])])
ty({'ctx', 'cond'}, 'Cx9', [F('a', L(1)), F('b', L(2), cond=ub(1, 'deku::bit_offset'), default=ul(2, 2)), F('c', L(3))])
ty({'ctx', 'assert'}, 'Cx10', [F('a', L(1)), F('b', L(2), assert_=ub(1, 'deku::byte_offset', 'a')), F('c', L(3))])
ty('ctx', 'Cx11', [F('a', L(1)), F('b', L(2), bits=3, endian='little', bit_order='lsb', ctx=['*a'])], needs='bits')
ty('ctx', 'Cx12', [F('a', L(1)), F('b', L(2), bytes=3, endian='little', ctx=['*a'])])
ty('ctx', 'Cx13', [F('a', L(1)), F('b', L(2), bit_order='o'), F('c', L(2), bit_order='msb')], ctx='o: Order', bit_order='o', needs='bits')
ty('ctx', 'Cx14', [F('a', 'Cx13', ctx=[Raw('Order::Lsb0', 'Order.Lsb0')]), F('b', 'Cx4', ctx=[un(2), Raw('Endian::Big', 'Endian.Big')])], needs='bits')
ty({'ctx', 'enum'}, 'Cx15', variants=[V('A', [F('f0', L(1))], id=1), V('B', [F('f0', 'u8'), F('f1', L(1), endian='little')], id_pat='_')], id_type='u8', endian='big', bits=7, bit_order='lsb', needs='bits')
ty({'ctx', 'enum'}, 'Cx16', [F('t', L(1)), F('e', 'En6', ctx=[U('h', 1, 't')])])
ty({'ctx', 'enum'}, 'Cx17', variants=[V('A', [F('f0', L(1))], id=1), V('B', [F('f0', L(2))], id=2)], id='k', id_ty='u8', ctx='k: u8', ctx_default=Raw('2', '2'))

# ---- limits ------------------------------------------------------------------------------
ty('limit', 'Lm1', [F('n', L(1)), F('d', 'Vec<Leaf<2>>', count=un(1, 'n')), F('e', L(3))], needs='alloc')
ty('limit', 'Lm2', [F('d', 'Vec<Leaf<2>>', until=Cl('b', 5, None)), F('e', L(3))], needs='alloc')
ty('limit', 'Lm3', [F('n', L(1)), F('d', 'Vec<Leaf<2>>', bytes_read=un(1, 'n'), endian='big'), F('e', 'Vec<Leaf<3>>', read_all=True)], needs='alloc')
ty('limit', 'Lm4', [F('n', L(1)), F('d', 'Vec<Leaf<2>>', bits_read=un(1, 'n'), ctx=['*n'])], needs='alloc,bits')
ty('limit', 'Lm5', [F('n', L(1)), F('d', 'Vec<u8>', count=un(1, 'n')), F('e', L(3))], needs='alloc')
ty({'limit', 'ctx'}, 'Lm9', [F('n', L(1)), F('d', 'Vec<u8>', count=un(1, 'n'), bits=4), F('e', 'Vec<u8>', count=un(2), bit_order='lsb'), F('f', 'Vec<u8>', count=un(3))], bit_order='msb', needs='alloc,bits')
ty({'limit', 'ctx'}, 'Lm10', [F('n', L(1)), F('d', 'Vec<u8>', count=un(1, 'n')), F('e', 'Vec<u8>', count=un(2), bytes=1, endian='little'), F('f', 'Vec<u8>', count=un(3), endian='big')], bit_order='lsb', needs='alloc,bits')
ty({'limit', 'ctx'}, 'Lm11', [F('n', L(1)), F('d', 'Vec<u8>', count=un(1, 'n'), bytes=1), F('e', 'Vec<u8>', count=un(2))], endian='big', needs='alloc')
ty('limit', 'Lm6', [F('n', 'u8'), F('d', 'Coll<2>', count=Raw('*n', '#0')), F('e', L(3))], derive='read')
ty('limit', 'Lm7', variants=[V('A', [F('n', L(1)), F('d', 'Coll<2>', count=un(1, 'n'))], tuple_=False, id=1), V('B', [F('field_0', L(1)), F('field_1', 'Coll<3>', until=Cl('b', 2, None, 'field_0'))], id=2)], id_type='u8')
ty('limit', 'Lm8', [F('n', L(1)), F('d', 'Coll<2>', until=Cl('b', 5, None, 'n')), F('e', L(3))])

# ---- assertions ------------------------------------------------------------------------------
ty('assert', 'As1', [F('a', L(1), assert_=ub(1, 'a')), F('b', L(2), assert_=ub(2, 'a', 'b')), F('c', L(3), assert_eq=ul(3, 3, 'a', 'b'))])
ty('assert', 'As2', [F('a', L(1), assert_eq=ul(1, 1))])
ty('assert', 'As3', variants=[V('A', [F('f0', L(1), assert_eq=ul(1, 1))], id=1), V('B', [F('x', L(2)), F('y', L(3), assert_=ub(2, 'x', 'y'))], tuple_=False, id=2)], id_type='u8')
ty({'assert', 'cond'}, 'As4', [F('a', L(1)), F('b', L(2), skip='all', default=ul(1, 2), assert_=ub(2, 'b'))])
ty({'assert', 'enum'}, 'As5', variants=[V('A', [F('field_0', L(1), assert_=ub(3, 'field_0')), F('field_1', L(2))], id=1), V('B', [], id=2)], id_type='u8')

# ---- temporaries and updates -------------------------------------------------------------------
ty('temp', 'Tm1', [F('n', L(4), temp=True, temp_value=ul(1, 4, 'b')), F('b', 'Coll<2>', count=un(2, 'n')), F('c', L(3))])
ty('temp', 'Tm2', [F('a', L(1)), F('t', L(4), temp=True, temp_value=ul(1, 4, 'a')), F('u', L(5), temp=True, temp_value=ul(2, 5, 't')), F('c', L(3), ctx=['*t', '*u'])])
ty('temp', 'Tm3', variants=[V('A', [F('t', L(4), temp=True, temp_value=ul(1, 4, 'b')), F('b', L(2), ctx=['*t'])], tuple_=False, id=1), V('B', [F('x', L(1))], tuple_=False, id=2)], id_type='u8')
ty('temp', 'Tm4', [F('t', L(4), temp=True, temp_value=ul(1, 4)), F('field_1', L(1)), F('field_2', L(2), ctx=['*field_1'])], tuple_=True)
ty('temp', 'Tm5', [F('a', L(1), update=ul(1, 1, 'self.b')), F('b', L(2), update=ul(2, 2, 'self.a')), F('c', L(3))])
ty('temp', 'Tm6', [F('a', L(1), update=U('q', 1, 'self.b', raw=True)), F('b', L(2)), F('c', L(3), update=U('q', 2, 'self.a', raw=True))])
ty('temp', 'Tm7', [F('a', L(1)), F('b', L(2))])
ty('temp', 'Tm8', variants=[V('A', [F('x', L(1)), F('y', L(2), update=ul(1, 2, 'x'))], tuple_=False, id=1), V('B', [F('field_0', L(1), update=U('q', 2, raw=True)), F('field_1', L(2))], id=2), V('C', [], id=3)], id_type='u8')
ty('temp', 'Tm9', [F('a', L(1)), F('t', L(4), temp=True, skip='write', temp_value=ul(1, 4)), F('b', L(2), cond=ub(1, 't'))], derive='read')
ty('temp', 'Tm10', [F('t', L(4), temp=True, temp_value=ul(1, 4, 'b'), endian='big', bytes=3), F('b', L(2), update=ul(3, 2, 'self.c')), F('c', L(3))], endian='little')
ty('temp', 'Tm11', [F('a', L(1), update=ul(1, 1, 'self.2')), F('b', L(2)), F('c', L(3))], tuple_=True)

# ---- custom functions ----------------------------------------------------------------------------
ty('custom', 'Cu1', [F('a', L(1)), F('b', L(2), reader=U('r', 1, 'a', leaf=2), writer=U('w', 2, 'a', 'b')), F('c', L(3))])
ty('custom', 'Cu2', [F('a', L(1)), F('b', L(2), map=Cl('m', 1, 2, 'a')), F('c', L(3), map=Cl('m', 2, 3))])
ty('custom', 'Cu3', variants=[V('A', [F('field_0', L(1), reader=U('r', 1, leaf=1), writer=U('w', 2, 'field_0'))], id=1), V('B', [F('field_0', L(2), map=Cl('m', 3, 2))], id=2), V('C', [F('field_0', L(2))], id=3, writer=U('w', 4))], id_type='u8')
ty('custom', 'Cu4', [F('a', L(1), reader=U('r', 1, 'deku::bit_offset', leaf=1), writer=U('w', 2, 'a', 'deku::bit_offset')), F('b', L(2))])
ty('custom', 'Cu5', [F('a', L(1), map=Cl('m', 1, 1), endian='big'), F('b', L(2), ctx=['*a'])])

# ---- padding and seeking --------------------------------------------------------------------------
ty('pad', 'Pd1', [F('a', L(1), pad_bits_before=3, pad_bytes_before=2, pad_bits_after=4, pad_bytes_after=1), F('b', L(2))], needs='bits')
ty('pad', 'Pd2', [F('a', L(1), pad_bits_before=3, bit_order='lsb'), F('b', L(2), pad_bytes_after=100)], bit_order='msb', needs='bits')
ty('pad', 'Pd3', [F('a', L(1)), F('b', L(2), pad_bytes_before=un(1, 'a'), pad_bytes_after=un(2, 'b')), F('c', L(3))])
ty('pad', 'Pd13', [F('a', L(1)), F('b', L(2), pad_bytes_before=us(1, 'a'), pad_bytes_after=us(2, 'b')), F('c', L(3))])
ty('pad', 'Pd14', [F('a', L(1)), F('b', L(2), pad_bits_before=us(1, 'a'), pad_bits_after=us(2, 'b')), F('c', L(3))], needs='bits')
ty('pad', 'Pd4', [F('a', L(1), pad_bytes_after=65), F('b', L(2), pad_bytes_before=1000)])
ty('pad', 'Pd5', [F('a', L(1), pad_bits_after=513), F('b', L(2), pad_bits_before=1000)], needs='bits')
ty('pad', 'Pd6', variants=[V('A', [F('field_0', L(1), pad_bytes_before=1), F('field_1', L(2), pad_bytes_after=2)], id=1), V('B', [F('x', L(2), pad_bytes_before=7)], tuple_=False, id=2)], id_type='u8')
ty('pad', 'Pd7', [F('a', L(1)), F('b', L(2), pad_bytes_before=un(1, 'a'), pad_bits_before=un(2, 'a'), pad_bits_after=un(3), pad_bytes_after=un(4, 'b'))], needs='bits')
for i, (k, v) in enumerate((('seek_from_current', us(1)), ('seek_from_end', us(2)), ('seek_from_start', un(3)), ('seek_rewind', True), ('seek_from_start', Raw('4', '4')), ('seek_from_end', Raw('-9', '-9')), ('seek_from_current', un(3)), ('seek_from_start', us(5)), ('seek_from_end', un(6)))):
    ty('seek', 'Sk%d' % (i if i < 7 else i + 10), [F('a', L(1)), F('b', L(2))], **{k: v})
    ty('seek', 'Sf%d' % (i if i < 7 else i + 10), [F('a', L(1), **{k: v}), F('b', L(2)), F('c', L(3), **{k: v})])
ty({'seek', 'magic'}, 'Sk8', [F('a', L(1))], magic=b'\x42', seek_from_start=un(1))
ty('pad', 'Pd9', [F('a', L(1)), F('b', L(2), pad_bytes_before=U('h', 1, 'a'), pad_bytes_after=U('h', 2, 'b')), F('c', L(3), pad_bytes_before=9)])
ty('pad', 'Pd10', [F('a', L(1)), F('b', L(2), pad_bytes_before=U('h', 1, 'a'), pad_bits_before=U('h', 3)), F('c', L(3), pad_bits_after=U('h', 4, 'a'), pad_bytes_after=70)], needs='bits')
ty({'seek', 'magic', 'pad'}, 'Sf8', [F('a', L(1)), F('b', L(2), magic=b'\x42', seek_from_current=us(1), pad_bytes_before=2)])
ty({'seek', 'ctx'}, 'Sk9', [F('a', L(1))], seek_from_start=un(1, 'n'), ctx='n: usize')

ty('pad', 'Pd8', [F('a', L(1), pad_bits_after=3, bit_order='lsb'), F('b', L(2), pad_bits_before=5, bit_order='msb'), F('c', L(3), pad_bytes_after=un(1)), F('d', L(4), pad_bytes_before=un(2, 'a'))], needs='bits')

# ---- declared sizes --------------------------------------------------------------------------------
RWS = 'read,write,size'
ty('size', 'Sz1', [F('a', L(1)), F('b', L(2)), F('c', L(3))], derive=RWS)
ty('size', 'Sz2', [F('a', 'u8'), F('b', 'u32'), F('c', '[u16; 3]'), F('d', '(u8, Leaf<2>)'), F('e', 'bool')], derive=RWS)
ty('size', 'Sz3', [F('a', L(1), bytes=3), F('b', L(2), magic=b'abc'), F('c', L(3), pad_bytes_before=2, pad_bytes_after=5)], magic=b'xy', derive=RWS)
ty('size', 'Sz4', [F('a', L(1), bits=3), F('b', L(2), pad_bits_before=3, pad_bytes_before=2), F('c', L(3), pad_bits_after=1, pad_bytes_after=4)], needs='bits', derive=RWS)
ty('size', 'Sz5', [F('a', 'Sz1'), F('b', '[Sz3; 4]'), F('c', '(Sz1, Sz3)')], derive=RWS)
ty('size', 'Sz6', variants=[V('A', [], id=1), V('B', [F('f0', L(9))], id=2), V('C', [F('f0', L(1)), F('f1', L(2))], id=3)], id_type='u8', derive=RWS)
ty('size', 'Sz7', variants=[V('A', [F('f0', L(50))], id=1), V('B', [F('f0', L(9))], id=2)], id_type='u32', bytes=3, derive=RWS)
ty('size', 'Sz8', variants=[V('A', [F('f0', L(5))], id=1), V('B', [F('f0', L(9), bits=1)], id=2)], id_type='u8', bits=3, magic=b'm', needs='bits', derive=RWS)
ty('size', 'Sz9', variants=[V('A', [F('f0', L(5))], id=1), V('B', [F('f0', 'u16'), F('f1', L(60))], id_pat='_')], id_type='u16', derive=RWS)
ty('size', 'Sz10', variants=[V('A', [F('f0', L(5))], id=1), V('B', [F('f0', L(60), pad_bytes_after=1), F('f1', L(2), magic=b'\0')], id=2)], ctx='k: u8', id='k', id_ty='u8', derive=RWS)
for _i, _kw in enumerate(({}, dict(magic=b'mm'))):
    ty('size', 'SzC%d' % _i, variants=[V('A', [F('f0', L(5))], id=1), V('B', [F('f0', L(60)), F('f1', L(2))], id_pat='_')], ctx='k: u8', id='k', id_ty='u8', derive='read,size', **_kw)
    ty('size', 'SzD%d' % _i, variants=[V('A', [F('f0', L(5))], id=1), V('B', [F('a', L(60)), F('b', L(2))], tuple_=False, id_pat='2..=9'), V('C', [], id_pat='_')], ctx='k: u8', id='k', id_ty='u8', derive='read,size', **_kw)
ty('size', 'Sz11', [], derive=RWS)
ty('size', 'Sz13', variants=[V('A', [], disc=3), V('B', [], disc=4)], id_type='u16', attrs='#[repr(u16)]', derive=RWS)
ty('size', 'Sz14', [F('a', 'T', model=L(7)), F('b', '[T; 2]', model='[Leaf<7>; 2]')], generics='<T>', where="where T: DekuWriter<()> + for<'x> DekuReader<'x, ()>", inst='<Leaf<7>>', noupd=True, derive=RWS)
ty('size', 'Sz15', [F('b', '((u8, u16), u8)'), F('c', '[[u8; 2]; 3]'), F('d', 'f64'), F('e', 'i128'), F('f', 'f32'), F('g', 'u64'), F('h', 'i8')], derive=RWS)
ty('size', 'Sz16', variants=[V('A', [F('f0', 'Sz6')], id=1), V('B', [F('f0', 'Sz7'), F('f1', 'Sz8b')], id=2)], id_type='u8', derive=RWS)
ty('size', 'Sz8b', variants=[V('A', [F('f0', L(5))], id=1), V('B', [F('x', L(9), bytes=1)], tuple_=False, id=2), V('C', [], id=3)], id_type='u8', magic=b'\0\0', derive=RWS)
ty('size', 'Sz20', [F('f%d' % i, x) for i, x in enumerate('u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 bool'.split())], derive=RWS)
ty('size', 'Sz21', [F('f%d' % n, '(%s,)' % ', '.join('Leaf<%d>' % (k + n) for k in range(1, n + 1))) for n in range(1, 12)], derive=RWS)


def _sizes():
    parts = {'m': ('', dict(magic=b'abc')), 'pb': ('bits', dict(pad_bits_before=3)), 'pyb': ('', dict(pad_bytes_before=5)), 'pa': ('bits', dict(pad_bits_after=11)),
             'pya': ('', dict(pad_bytes_after=7)), 'bits': ('bits', dict(bits=9)), 'bytes': ('', dict(bytes=3)), 'p0': ('', dict())}
    ks = sorted(parts)
    n = 0
    for i, a in enumerate(ks):
        for b in ks[i:]:
            if {a, b} == {'bits', 'bytes'}:
                continue
            at = dict(parts[a][1])
            at.update(parts[b][1])
            need = 'bits' if 'bits' in (parts[a][0], parts[b][0]) else ''
            n += 1
            fs = lambda tup: [F('field_0' if tup else 'a', L(1)), F('field_1' if tup else 'b', L(2), **at), F('field_2' if tup else 'c', L(3))]
            ty('size', 'SzP%d_%s_%s' % (n, a, b), fs(n % 2 == 0), tuple_=n % 2 == 0, needs=need, derive=RWS, **({'magic': b'\1\2'} if n % 3 == 0 else {}))
            vs = [V('A', [F('field_0', L(60 if n % 3 == 0 else 5))], id=1), V('B', fs(n % 2 == 1), tuple_=n % 2 == 1, id=2), V('C', [F('field_0', L(60 if n % 3 == 1 else 6))], id=3), V('D', [], id=4)]
            ty('size', 'SzQ%d_%s_%s' % (n, a, b), variants=vs, id_type=('u8', 'u16', 'u32', 'u64')[n % 4], needs=need, derive=RWS, **({'magic': b'\1'} if n % 4 == 0 else {}))
    for k, x in (('bits', 5), ('bytes', 1)):
        ty('size', 'SzI_' + k, variants=[V('A', [F('field_0', L(5))], id=1), V('B', [], id=2)], id_type='u16', needs='bits' if k == 'bits' else '', derive=RWS, **{k: x})
    for i, shape in enumerate(('tuple', 'named')):
        tup = shape == 'tuple'
        ty('size', 'SzW%d' % i, variants=[V('A', [F('field_0', L(5))], id=1), V('B', [F('field_0' if tup else 'id', 'u16'), F('field_1' if tup else 'x', L(40))], tuple_=tup, id_pat='_')], id_type='u16', derive=RWS)


_sizes()
ty('size', 'Sz17', [F('a', L(1), cond=ub(1), default=ul(2, 1)), F('b', L(2), assert_=ub(2, 'b')), F('c', 'Leaf<3>', endian='big', ctx=[un(1)])], derive=RWS)

# ---- settings given as expressions whose operators bind loosely ----------------------------------------
ty('size', 'Xz1', [F('a', L(1), pad_bytes_before=X(3, '1 + 2')), F('b', L(2), pad_bytes_after=X(6, '4 | 2'))], derive=RWS)
ty('size', 'Xz2', [F('a', L(1), pad_bits_before=X(3, '1 | 2'), pad_bytes_before=X(5, '4 | 1')), F('b', L(2), pad_bits_after=X(7, '3 | 4'), pad_bytes_after=X(3, '1 ^ 2'))], needs='bits', derive=RWS)
ty('size', 'Xz3', [F('a', L(1), pad_bits_before=X(3, '1 | 2')), F('b', L(2), pad_bits_after=X(7, '3 | 4'))], needs='bits', derive=RWS)
ty('size', 'Xz4', variants=[V('A', [F('f0', L(1), pad_bytes_before=X(3, '1 | 2'))], id=1), V('B', [F('f0', L(1)), F('f1', L(2), pad_bytes_after=X(6, '4 | 2'))], id=2)], id_type='u8', derive=RWS)
for _i, (_n, _at) in enumerate((
        ('bits', dict(pad_bits_before=un(1, 'a').weak(), pad_bits_after=un(2, 'a', 'b').weak())),
        ('', dict(pad_bytes_before=un(1, 'a').weak(), pad_bytes_after=un(2, 'a', 'b').weak())),
        ('bits', dict(pad_bits_before=un(1, 'a').weak(), pad_bytes_before=un(2, 'a').weak(), pad_bits_after=un(3).weak(), pad_bytes_after=un(4).weak())))):
    ty('pad', 'Xp%d' % _i, [F('a', L(1)), F('b', L(2), **_at), F('c', L(3))], needs=_n)
for _i, _at in enumerate((dict(seek_from_current=us(1, 'a').weak()), dict(seek_from_end=us(1, 'a').weak()), dict(seek_from_start=un(1, 'a').weak()))):
    ty('seek', 'Xs%d' % _i, [F('a', L(1)), F('b', L(2), **_at), F('c', L(3))])
ty('cond', 'Xc0', [F('a', L(1)), F('b', L(2), cond=ub(1, 'a').weak(), default=ul(2, 2, 'a')), F('c', L(3))])
ty('assert', 'Xa0', [F('a', L(1)), F('b', L(2), assert_=ub(1, 'a', 'b').weak()), F('c', L(3))])
ty({'assert', 'temp'}, 'Xa1', [F('a', L(1)), F('b', L(2), cond=ub(1, 'a').weak(), default=ul(2, 2, 'a'), assert_=ub(3, 'b').weak(), pad_bytes_before=un(4).weak())])
for _i, (_n, _at) in enumerate((('', dict(count=un(1, 'a').weak())), ('bits', dict(bits_read=un(1, 'a').weak())), ('', dict(bytes_read=un(1, 'a').weak())))):
    ty('limit', 'Xl%d' % _i, [F('a', L(1)), F('b', 'Coll<2>', **_at), F('c', L(3))], needs=_n)
ty('ctx', 'Xx0', [F('a', L(1)), F('b', L(2), ctx=[un(1, 'a').weak(), ub(2, 'a').weak()]), F('c', L(3), ctx=[un(3).weak()])])

# ---- generic and borrowed types, unusual names -------------------------------------------------------
DG = "DekuWriter<()> + for<'x> DekuReader<'x, ()>"
ty('seq', 'Gn1', [F('a', 'T', model=L(1)), F('b', L(2)), F('c', 'T', model=L(1))], generics='<T>', where='where T: %s' % DG, inst='<Leaf<1>>', noupd=True)
ty('seq', 'Gn2', [F('r#type', L(1)), F('r#fn', L(2)), F('_c', L(3))])
ty('seq', 'Gn3', [F('a', L(1)), F('b', '[Leaf<2>; N]', model='[Leaf<2>; 4]')], generics='<const N: usize>', inst='<4>', noupd=True)
ty('seq', 'Gn4', [F('val', L(1)), F('ok', L(2)), F('err', L(3)), F('reader', L(4)), F('writer', L(5)), F('input', L(6)), F('output', L(7)), F('ctx', L(8)), F('value', L(9)), F('rest', L(10)), F('pad', L(11)), F('e', L(12)), F('bits', L(13))])
ty('enum', 'Gn5', variants=[V('Ok', [F('val', L(1)), F('variant_id', L(2))], tuple_=False, id=1), V('Err', [F('f0', L(1))], id=2), V('Some', [F('f0', L(1))], id=3), V('None', [], id=4)], id_type='u8')
ty('enum', 'Gn6', variants=[V('A', [F('f0', 'T', model=L(1))], id=1), V('B', [F('f0', L(2))], id=2)], generics='<T>', where='where T: %s' % DG, inst='<Leaf<1>>', id_type='u8', noupd=True)

# ---- one and two attributes together, in every container shape -----------------------------
def mkl(ty, k, *a):
    """an expression of the type of the field"""
    if ty.startswith('Coll'):
        return U('c', k, *a, leaf=2)
    return U('l', k, *a, leaf=2)


C2 = 'Coll<2>'
# name: (group, needs, conflict tags, attributes(type, previous fields), forced field type)
ATTRS = {
    'end': ('ctx', '', 'end', lambda t, p: dict(endian='big'), None),
    'endv': ('ctx', '', 'end', lambda t, p: dict(endian=ue(1, *p)), None),
    'ord': ('ctx', 'bits', 'ord', lambda t, p: dict(bit_order='lsb'), None),
    'ordv': ('ctx', 'bits', 'ord', lambda t, p: dict(bit_order=uo(1, *p)), None),
    'bits': ('ctx', 'bits', 'size', lambda t, p: dict(bits=9), None),
    'bytes': ('ctx', '', 'size', lambda t, p: dict(bytes=3), None),
    'ctx1': ('ctx', '', 'ctx', lambda t, p: dict(ctx=[un(2, *p)]), None),
    'ctx2': ('ctx', '', 'ctx', lambda t, p: dict(ctx=[ub(3, *p), un(2)]), None),
    'ctxo': ('ctx', '', 'ctx', lambda t, p: dict(ctx=['deku::bit_offset', 'deku::byte_offset']), None),
    'wro': ('custom', '', 'wr', lambda t, p: dict(writer=U('w', 41, 'deku::byte_offset', *p)), None),
    'cnto': ('limit', '', 'lim', lambda t, p: dict(count=un(39, 'deku::byte_offset')), C2),
    'cnts': ('limit', '', 'lim', lambda t, p: dict(count=us(40, *p)), C2),
    'rdm': ('custom', '', 'rd lim map', lambda t, p: dict(reader=U('r', 9, *p, leaf=9), map=Cl('m', 8, 2)), None),
    'condo': ('cond', '', 'cond', lambda t, p: dict(cond=ub(42, 'deku::bit_offset')), None),
    'count': ('limit', '', 'lim', lambda t, p: dict(count=un(4, *p)), C2),
    'until': ('limit', '', 'lim', lambda t, p: dict(until=Cl('b', 5, None)), C2),
    'bitsr': ('limit', 'bits', 'lim', lambda t, p: dict(bits_read=un(6, *p)), C2),
    'bytesr': ('limit', '', 'lim', lambda t, p: dict(bytes_read=un(7, *p)), C2),
    'all': ('limit', '', 'lim', lambda t, p: dict(read_all=True), C2),
    'map': ('custom', '', 'map', lambda t, p: dict(map=Cl('m', 8, 2)), None),
    'rd': ('custom', '', 'rd lim map', lambda t, p: dict(reader=U('r', 9, *p, leaf=2)), None),
    'wr': ('custom', '', 'wr', lambda t, p: dict(writer=U('w', 10, *p)), None),
    'skip': ('cond', '', 'skip', lambda t, p: dict(skip='all', default=mkl(t, 11, *p)), None),
    'skipd': ('cond', '', 'skip', lambda t, p: dict(skip='all'), None),
    'skipr': ('cond', '', 'skip', lambda t, p: dict(skip='read', default=mkl(t, 12, *p)), None),
    'skipw': ('cond', '', 'skip', lambda t, p: dict(skip='write'), None),
    'cond': ('cond', '', 'cond', lambda t, p: dict(cond=ub(13, *p)), None),
    'conde': ('cond', '', 'cond', lambda t, p: dict(cond=ub(14, *p), default=mkl(t, 15, *p)), None),
    'ass': ('assert', '', 'ass', lambda t, p: dict(assert_=ub(16, 'b?', *p)), None),
    'aeq': ('assert', '', 'aeq', lambda t, p: dict(assert_eq=mkl(t, 17, *p)), None),
    'upd': ('temp', '', 'upd', lambda t, p: dict(update=mkl(t, 18, 'self.a')), None),
    'updc': ('temp', '', 'upd', lambda t, p: dict(update=U('q', 19, 'self.c', raw=True)), None),
    'temp': ('temp', '', 'upd temp ass aeq', lambda t, p: dict(temp=True, temp_value=mkl(t, 20, *p)), None),
    'tempd': ('temp', '', 'upd temp ass aeq dflt', lambda t, p: dict(temp=True, temp_value=mkl(t, 51, *p), default=mkl(t, 52, *p)), None),
    'rdc': ('custom', '', 'rd lim map', lambda t, p: dict(reader=U('r', 53, *p, leaf=2), count=un(54, *p)), None),
    'rdmc': ('custom', '', 'rd lim map', lambda t, p: dict(reader=U('r', 55, *p, leaf=9), map=Cl('m', 56, 2), count=un(57, *p)), None),
    'pbb': ('pad', 'bits', 'pbb', lambda t, p: dict(pad_bits_before=5), None),
    'pbbv': ('pad', 'bits', 'pbb', lambda t, p: dict(pad_bits_before=un(21, *p)), None),
    'pyb': ('pad', '', 'pyb', lambda t, p: dict(pad_bytes_before=3), None),
    'pybv': ('pad', '', 'pyb', lambda t, p: dict(pad_bytes_before=un(22, *p)), None),
    'pba': ('pad', 'bits', 'pba', lambda t, p: dict(pad_bits_after=6), None),
    'pbav': ('pad', 'bits', 'pba', lambda t, p: dict(pad_bits_after=un(23, *p)), None),
    'pya': ('pad', '', 'pya', lambda t, p: dict(pad_bytes_after=2), None),
    'pyav': ('pad', '', 'pya', lambda t, p: dict(pad_bytes_after=un(24, *p)), None),
    'skc': ('seek', '', 'seek', lambda t, p: dict(seek_from_current=us(25, *p)), None),
    'ske': ('seek', '', 'seek', lambda t, p: dict(seek_from_end=us(26, *p)), None),
    'sks': ('seek', '', 'seek', lambda t, p: dict(seek_from_start=un(27, *p)), None),
    'sksi': ('seek', '', 'seek', lambda t, p: dict(seek_from_start=us(33, *p)), None),
    'skeu': ('seek', '', 'seek', lambda t, p: dict(seek_from_end=un(34, *p)), None),
    'pybs': ('pad', '', 'pyb', lambda t, p: dict(pad_bytes_before=us(35, *p)), None),
    'pbas': ('pad', 'bits', 'pba', lambda t, p: dict(pad_bits_after=us(36, *p)), None),
    'skcu': ('seek', '', 'seek', lambda t, p: dict(seek_from_current=un(28, *p)), None),
    'skr': ('seek', '', 'seek', lambda t, p: dict(seek_rewind=True), None),
    'mag': ('magic', '', 'mag', lambda t, p: dict(magic=b'\x00\xfe'), None),
}
CONT = (({}, ''), (dict(endian='little'), ''), (dict(endian='little', bit_order='msb'), 'bits'), (dict(bit_order='lsb'), 'bits'),
        (dict(ctx='e: Endian', endian='e'), ''))


def fields(ats, tup, enum=False):
    """three fields, the middle one carrying the attributes; None when they cannot be combined"""
    tags = set()
    for a in ats:
        ts = set(ATTRS[a][2].split())
        if tags & ts:
            return None
        tags |= ts
    t = 'Leaf<2>'
    for a in ats:
        t = ATTRS[a][4] or t
    coll = t
    if t == C2 and any('map' in ATTRS[a][2].split() and a != 'rd' for a in ats):
        t = 'Leaf<2>'
    A, B, Cc = ('field_0', 'field_1', 'field_2') if tup else ('a', 'b', 'c')
    prev = (A,)
    at = {}
    for a in ats:
        for k, v in ATTRS[a][3](t, prev).items():
            at[k] = v
            if isinstance(v, U):
                v.args = tuple(B if x == 'b?' else x for x in v.args)
                if enum:
                    v.args = tuple(x.replace('self.', '') if isinstance(x, str) else x for x in v.args)
                    if tup:
                        v.args = tuple({'a': 'field_0', 'c': 'field_2'}.get(x, x) if isinstance(x, str) else x for x in v.args)
                elif tup:
                    v.args = tuple(x.replace('self.a', 'self.0').replace('self.c', 'self.2') if isinstance(x, str) else x for x in v.args)
    if 'default' in at and 'skip' not in at and 'cond' not in at:
        return None
    if 'temp' in at and ('skip' in at or 'cond' in at) and 'default' not in at:
        return None
    if 'map' in at:
        src = 'Coll<9>' if coll == C2 else 'Leaf<9>'
        at['map'].src = src
        at['src'] = src
    if 'reader' in at and t == C2:
        return None
    if any(k in at for k in ('bits', 'bytes')) and t == C2:
        pass
    return [F(A, L(1)), F(B, t, **at), F(Cc, L(3))]


SHAPES = ('S', 'T', 'N', 'U')


def combo(ats, shape, cont):
    tup = shape in 'TU'
    fs = fields(ats, tup, shape in 'NU')
    if fs is None:
        return None
    cat, cneed = CONT[cont]
    needs = ','.join(x for x in sorted(set(ATTRS[a][1] for a in ats) | {cneed}) if x)
    name = 'P%s%d_%s' % (shape, cont, '_'.join(ats))
    group = set(ATTRS[a][0] for a in ats) | ({'ctx'} if cat else set())
    if shape in 'NU':
        group.add('enum')
        cat = dict(cat)
        vs = [V('A', [F('f0', L(5))], id=1), V('B', fs, tuple_=tup, id=2)]
        return ty(group, name, variants=vs, id_type='u8', needs=needs, **cat)
    return ty(group, name, fs, tuple_=tup, needs=needs, **cat)


def _combos():
    import random
    ks = sorted(ATTRS)
    for i, a in enumerate(ks):
        for j, s in enumerate(SHAPES):
            combo((a,), s, 0 if j % 2 == 0 else (i + j) % len(CONT))
    n = 0
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            n += 1
            combo((a, b), SHAPES[n % 4], 0 if n % 3 else n % len(CONT))
    # what decides together how a field is read and written: all triples
    core = ('aeq', 'bits', 'cond', 'conde', 'count', 'map', 'rd', 'rdmc', 'skip', 'skipr', 'skipw', 'temp', 'tempd', 'until', 'upd', 'wr')
    n = 0
    for i, a in enumerate(core):
        for j, b in enumerate(core[i + 1:]):
            for c in core[i + j + 2:]:
                if combo((a, b, c), SHAPES[n % 4], 0 if n % 3 else n % len(CONT)) is not None:
                    n += 1
    r = random.Random(7)
    for x in (('cond', 'rdm'), ('conde', 'rdm', 'ass'), ('skipd', 'rdm', 'cond'), ('rdm', 'wr', 'conde')):
        for s in SHAPES:
            combo(tuple(sorted(x)), s, 0)
    for _ in range(260):
        x = tuple(sorted(r.sample(ks, 3)))
        combo(x, SHAPES[r.randrange(4)], r.randrange(len(CONT)))


_combos()
TYPES.update({t.name: t for t in T})
T[:] = list({t.name: t for t in T}.values())
D_BY_NAME = {t.name: t for t in T}
