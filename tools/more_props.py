DW = ['deku-derive/src/macros/deku_read.rs', 'deku-derive/src/macros/deku_write.rs', 'deku-derive/src/macros/mod.rs', 'deku-derive/src/lib.rs']
DT = ABS + ': the full behaviour set of macro-expanded code over opaque fields, compared with a specification of the attributes'
DN = ('all behaviours of every type of a generated corpus (about 1150 types: every attribute, every compatible pair of attributes, sampled triples, in struct, tuple, generic and enum '
      'shapes) in three (quick) or four (thorough) feature configurations; exhaustive over data, contexts and failures of each type, sampled over types')
DWHY = 'Tests sample a handful of attribute combinations with literal bytes; the guarantee is about every combination, every data value and every failure point.'


def derived(id, title, statement, text, mech, files=None):
    prop(id, title, statement, ['programs', 'inputs', 'fault_sequences', 'configurations'], text, DWHY, files or DW, mech, DT, DN)


derived('P05', 'A derived read consumes each field once, in declaration order',
        'A derived read reads every field exactly once in declaration order from the one stream it was given, and the value returned holds in each field what was read for it. '
        'The first failure ends the read with that failure and nothing further is consumed.',
        'every derived struct and enum, every stream content, every failing field',
        [('emit_struct, emit_enum, emit_field_read', 'deku-derive/src/macros/deku_read.rs')])

derived('P06', 'A derived write emits each field once, in the order it is read',
        'A derived write emits every field exactly once in declaration order, each with the same context (endianness, size, bit order, extra arguments) its read uses. '
        'The first failure ends the write with that failure and nothing further is emitted.',
        'every derived struct and enum, every value, every failing field',
        [('emit_struct, emit_enum, emit_field_write', 'deku-derive/src/macros/deku_write.rs')])

derived('P07', 'Magic bytes are checked in order before the data and written before it',
        'A type, or a field, with a magic value reads its bytes first, one after the other, and fails with a parse error at the first byte that differs, before anything further is read; '
        'writing emits exactly these bytes first. No value is ever produced from data whose magic differs in any byte.',
        'every position and length of magic values, every input byte',
        [('emit_magic_read', 'deku-derive/src/macros/deku_read.rs'), ('magic in writes', 'deku-derive/src/macros/deku_write.rs')])

derived('P08', 'Reading an enum picks the first variant whose identifier matches',
        'The identifier is read once with the type, size, endianness and bit order declared for it (or taken from the context), and the first variant in declaration order whose value or pattern matches is read; '
        'otherwise the default variant if there is one, otherwise a parse error. A variant selected by a pattern stores the identifier in its first field without reading it again.',
        'every derived enum and every identifier value',
        [('emit_enum', 'deku-derive/src/macros/deku_read.rs'), ('DekuData::to_struct, variants', 'deku-derive/src/lib.rs')])

derived('P09', 'Writing an enum emits the identifier its reader will recognise',
        'Writing an enum first emits the identifier of the stored variant, once, with the same type, size, endianness and bit order its read uses (a variant selected by a pattern emits the identifier it stored; '
        'an enum whose identifier comes from the context emits none), then the fields of that variant.',
        'every derived enum and every variant and stored identifier',
        [('emit_enum', 'deku-derive/src/macros/deku_write.rs')])

derived('P25', 'The identifier of an enum value is the one declared for its variant',
        'Asking a derived enum value for its identifier answers, for every variant, with the identifier declared for that variant - the one writing the value emits and reading it recognises - '
        'whatever the fields hold and whatever else is declared on the variant. Only a variant without a declared identifier (one selected by a pattern or by its discriminant) is an error.',
        'every derived enum, every variant and every value of its fields',
        [('emit_enum, DekuEnumExt', 'deku-derive/src/macros/deku_read.rs')])

derived('P10', 'A false assertion stops the read or write before anything further',
        'The assertions on a field are evaluated on the value just read (or about to be written) and on the fields before it. When one is false the operation fails with an assertion error, '
        'and neither a value nor a further byte is read or written.',
        'every field carrying assertions, every value',
        [('field_assert', 'deku-derive/src/macros/mod.rs'), ('use on both sides', 'deku-derive/src/macros/deku_read.rs, deku_write.rs')])

derived('P11', 'Skipped and conditional fields touch the stream exactly when promised',
        'A field that is skipped (always, only when reading, only when writing, or under its condition) touches the stream on neither side it is skipped on and reads as its default (or default value); '
        'an unskipped conditional field is read only when its condition holds and is its default otherwise, and is always written.',
        'every combination of skip, cond and default with every other field attribute',
        [('emit_field_read skip/cond', 'deku-derive/src/macros/deku_read.rs'), ('emit_field_write skip', 'deku-derive/src/macros/deku_write.rs')])

derived('P12', 'Temporary fields and update keep derived values consistent',
        'A temporary field is read in its place and usable by later fields but not stored; writing emits its declared value in its place. An update assigns each annotated field its expression, '
        'in declaration order, and changes nothing else; a failing conversion is an error.',
        'every type with temporary fields or update expressions',
        [('emit_field_update', 'deku-derive/src/macros/deku_write.rs'), ('temp', 'deku-derive/src/macros/deku_read.rs, deku_write.rs, mod.rs')])

derived('P13', 'Endianness, sizes, bit order and context reach the fields they belong to',
        'Each field receives its own endianness, size, bit order and context values, in the documented order, else those of its container or variant setting; values passed from the parent (or the declared default context) bind to the '
        'names declared for them. Offsets visible to expressions are those where the field starts.',
        'every placement and combination of endian, bits, bytes, bit_order, ctx, ctx_default',
        [('gen_field_args, gen_ctx_types_and_arg', 'deku-derive/src/macros/mod.rs')])

derived('P14', 'Custom readers, writers and maps are called once in place of the default',
        'A custom reader or writer is called exactly once instead of the default one, with the stream and the values it names; a map is applied exactly once to what was read. Their results are stored and their errors returned unchanged.',
        'every placement of reader, writer and map',
        [('emit_field_read reader/map', 'deku-derive/src/macros/deku_read.rs'), ('emit_field_write writer', 'deku-derive/src/macros/deku_write.rs')])

derived('P15', 'Collection attributes hand their exact limit to the collection reader',
        'A collection field with a count, a bit size, a byte size, a stop condition or read-all reads with exactly that limit, computed from the fields already read, together with the field\'s other settings; '
        'writing it uses the same settings without the limit.',
        'every limit attribute in every shape with every other attribute',
        [('emit_field_read limits', 'deku-derive/src/macros/deku_read.rs')])

derived('P16', 'Padding skips and writes exactly the bits asked for, in place',
        'Padding before a field is skipped on reading and written as zeros on writing just before it, padding after it just after it, each of exactly the declared number of bits (bytes times eight). '
        'The size may be computed from earlier fields; a failing or unusable size is an error.',
        'every combination of bit and byte padding with every other attribute, every computed size',
        [('emit_padding, emit_padding_bytes', 'deku-derive/src/macros/deku_read.rs, deku_write.rs')])

derived('P17', 'Seek attributes move the stream first, and an unusable target is an error',
        'A seek attribute on a field or a type moves the stream to the declared place before anything else of it is read or written, on both sides alike. A failing seek ends the operation with that error, '
        'and a computed offset that cannot be represented is an error, never a panic or another place.',
        'every seek attribute with every other attribute, every computed offset',
        [('emit_field_read seek', 'deku-derive/src/macros/deku_read.rs'), ('seek on write', 'deku-derive/src/macros/deku_write.rs'), ('seek attributes', 'deku-derive/src/lib.rs')])

derived('P18', 'The static size of a derived type is the size of its layout',
        'The static size of a struct is the sum of its magic, fixed padding and field sizes (declared bit or byte sizes counting for their fields); of an enum, the identifier plus the largest variant. '
        'In byte terms it is an eighth of that, and absent when that is not whole.',
        'every type with a static size',
        [('deku_size macro', 'deku-derive/src/macros/deku_size.rs'), ('DekuSize', 'src/lib.rs')], ['deku-derive/src/macros/deku_size.rs', 'src/lib.rs', 'src/impls'])

IM = ['src/impls/vec.rs', 'src/impls/hashmap.rs', 'src/impls/hashset.rs', 'src/impls/slice.rs', 'src/impls/boxed.rs', 'src/impls/arc.rs', 'src/impls/cow.rs', 'src/impls/tuple.rs',
      'src/impls/option.rs', 'src/impls/unit.rs', 'src/impls/bool.rs', 'src/impls/nonzero.rs', 'src/impls/ipaddr.rs', 'src/impls/cstring.rs', 'src/reader.rs', 'src/ctx.rs']
IN = 'every implementation instantiated with opaque element types, contexts and stop conditions; every path, loops as repetitions; every feature configuration'


def impls(id, title, statement, text, mech, files):
    prop(id, title, statement, ['inputs', 'fault_sequences', 'configurations'], text,
         'Tests read a few literal sequences of integers; the guarantee is for every element type, length, limit and failure point.', files, mech,
         ABS + ': every path of the implementation over opaque elements, as words of an automaton or against the specified behaviours', IN)


impls('P19', 'A collection holds exactly the elements its limit admits, in order',
      'Reading a collection under a limit (a count, a number of bits or bytes, a stop condition, or the end of input) reads its elements one after another with the context given, stores each, and stops exactly when the limit is reached; '
      'the first element that fails ends the read with its error. Writing a collection writes every element once, in order for sequences, with the context given, and the first failure ends it.',
      'every limit, element type that occupies memory, stream content and failing element, for vectors, boxed and shared slices, hash maps and hash sets',
      [('reader_vec_with_predicate, reader_vec_to_end', 'src/impls/vec.rs'), ('from_reader_with_ctx_hashmap_*', 'src/impls/hashmap.rs, hashset.rs'), ('limits', 'src/ctx.rs')],
      ['src/impls/vec.rs', 'src/impls/hashmap.rs', 'src/impls/hashset.rs', 'src/impls/slice.rs', 'src/impls/boxed.rs', 'src/impls/arc.rs', 'src/ctx.rs'])

impls('P20', 'Arrays, tuples and wrappers are exactly the concatenation of their parts',
      'Reading or writing an array, slice, tuple, box, shared pointer, borrowed-or-owned value, reference, option or unit reads or writes exactly its parts, in order, once each, with the context given, and nothing else. '
      'The first failing part ends the operation with its error, and parts already read are dropped exactly once.',
      'every part type, context, length and failing part (arrays of 0 to 4 and of 17 elements, tuples of 1 to 11)',
      [('tuples', 'src/impls/tuple.rs'), ('arrays', 'src/impls/slice.rs'), ('wrappers', 'src/impls/boxed.rs, arc.rs, cow.rs, option.rs, unit.rs')],
      ['src/impls/slice.rs', 'src/impls/tuple.rs', 'src/impls/boxed.rs', 'src/impls/arc.rs', 'src/impls/cow.rs', 'src/impls/option.rs', 'src/impls/unit.rs'])

impls('P21', 'Restricted values are accepted exactly when they are in their domain',
      'Reading a boolean, a non-zero integer, an IP address or a C string reads exactly one underlying number (for strings, bytes up to the first zero or the given count) with the context given, succeeds exactly when the value is in the domain, '
      'and is a parse error otherwise. Writing emits the number (or bytes, terminator included) that reads back as the same value.',
      'every underlying value and every context',
      [('bool', 'src/impls/bool.rs'), ('NonZero', 'src/impls/nonzero.rs'), ('IP addresses', 'src/impls/ipaddr.rs'), ('C strings', 'src/impls/cstring.rs')],
      ['src/impls/bool.rs', 'src/impls/nonzero.rs', 'src/impls/ipaddr.rs', 'src/impls/cstring.rs'])

prop('P24', 'Every bit of a number lies where its size, endianness and bit order put it',
     'A number read or written with a size, an endianness and a bit order starts right after what precedes it, also within a byte, and each of its bits is at the place of the stream its layout gives it; '
     'numbers narrower than their type are extended by zeros or by their sign. A size beyond the type is an error on both sides, and so is writing a value that does not fit its size in bits. '
     '(Not covered: items of different bit orders sharing a byte, and least-significant-bit-first big endian numbers over one byte whose size is not whole bytes.)',
     ['inputs', 'configurations'], 'every value, for every number type, form of context, size, endianness, bit order and start within a byte',
     'The combinations of sizes, endianness, bit orders and alignments run into tens of thousands and each has 2^size values; tests try a few of each.',
     ['src/impls/primitive.rs', 'src/reader.rs', 'src/writer.rs'],
     [('DekuRead and DekuReader of numbers', 'src/impls/primitive.rs'), ('read_bits_into, read_bits_uint_msb0, read_bytes', 'src/reader.rs'),
      ('write_bits_order, write_bits_uint_msb0, write_bytes', 'src/writer.rs')],
     'abstract interpretation of MIR: bit provenance (each bit of a value carries its origin), outcomes compared with the layout',
     'every number type in every context form; quick: chosen sizes and alignments in 2 feature configurations, thorough: all sizes 0 to width+1 at all alignments in 5')

prop('P22', 'Converting from and to bytes uses and reports exactly the bits of the value',
     'Reading a type from bytes, or from a stream, at a bit offset skips exactly that offset, reads the value from the bits that follow and reports exactly where it ends: the unread bytes and bit offset, or the number of bits read. '
     'It succeeds exactly when the input suffices (otherwise the input is incomplete, whatever the offset), and converting a whole byte slice also refuses bytes left over. '
     'Converting to bytes, bits or into a given buffer produces exactly the bits of the value, the last byte filled with zeros, touches nothing past them, reports their number, and fails when the buffer is too small.',
     ['inputs', 'configurations'], 'every content of inputs of every small length at every offset, for types of whole bytes, part bytes, no bytes, both bit orders, seeks, contexts and enums',
     'Tests use inputs of fitting length at offset zero; truncation at every point and offsets beyond the end are not tried.',
     ['src/lib.rs', 'deku-derive/src/macros/deku_read.rs', 'deku-derive/src/macros/deku_write.rs', 'src/reader.rs', 'src/writer.rs'],
     [('from_reader, from_bytes, TryFrom<&[u8]>', 'deku-derive/src/macros/deku_read.rs'), ('to_bytes, to_slice, to_bits', 'src/lib.rs'),
      ('TryFrom into vectors', 'deku-derive/src/macros/deku_write.rs'), ('skip_bits', 'src/reader.rs')],
     'abstract interpretation of MIR: bit provenance through the derived code, cursors included, against the layout of each type',
     'ten representative derived types; inputs of 0 to 5 (thorough 6) arbitrary bytes at offsets 0 to 40 (thorough 56); values arbitrary; buffers of every size around the need')

prop('P26', 'Contradictory declarations are refused when compiling',
     'On a field, `bits` with `bytes`, two of `count`, `bits_read` and `bytes_read`, `read_all` with any of these or with `until`, two seek attributes, `default` without `skip` or `cond`, and unknown, repeated or malformed attributes '
     'do not compile; nor do `ctx_default` without `ctx`, enum-only attributes on a struct, an enum with neither or both of `id_type` and `id` (or `id` with `bits` or `bytes`), a variant with both `id` and `id_pat` or without any identifier, '
     'two default variants when reading, and the static size of a type that seeks. This holds in whatever kind of item or variant the attributes stand, in whatever order, and in every feature configuration in which they exist. '
     'Each of these attributes alone compiles.',
     ['programs', 'configurations'], 'every listed contradiction in named, tuple and generic structs and in plain, pattern and default variants, for each derive, in every feature configuration',
     'A unit test is a program that compiles; the few compile-fail samples of the repository cover one place and one configuration each, and silent acceptance means one of the two settings is ignored.',
     ['deku-derive/src/lib.rs', 'deku-derive/src/macros/deku_read.rs', 'deku-derive/src/macros/deku_write.rs', 'deku-derive/src/macros/deku_size.rs'],
     [('DekuData::validate, FieldData::validate, VariantData::validate', 'deku-derive/src/lib.rs'), ('identifier and default checks', 'deku-derive/src/macros/deku_read.rs, deku_write.rs'),
      ('seek checks', 'deku-derive/src/macros/deku_size.rs')],
     'compile-fail witnesses: generated declarations type-checked against the current tree, compiler errors mapped back to the declaration, with legal twins that must compile',
     'about 2900 declarations in two (quick) or five (thorough) feature configurations')

prop('P27', 'Errors, limits and settings keep their meaning when they are converted',
     'Turning an error into an I/O error gives the kind that belongs to it (incomplete: unexpected end of file; parse and assertion: invalid data; invalid parameter: invalid input; unknown identifier: not found; an I/O failure its own kind), '
     'and an I/O error turned into a deku error keeps its kind; a failed integer or slice conversion is a parse error. Bits needed are given in whole bytes rounded up, the size of a type in bits is eight times its bytes, '
     'a limit built from a count, size or predicate is that limit, and an endianness is read from exactly its two names.',
     ['inputs', 'configurations'], 'every error variant and I/O error kind, every text of up to eight bytes, every way to build a limit',
     'Tests convert one or two kinds; there are over forty I/O error kinds and separate implementations with and without the standard library.',
     ['src/error.rs', 'src/ctx.rs'],
     [('From implementations', 'src/error.rs'), ('Limit, BitSize, Endian', 'src/ctx.rs')],
     ABS + ' of every conversion, once per case of its input, results compared with the promised one',
     'all error variants and kinds of the target library; limits and sizes at representative amounts; two (quick) or five (thorough) feature configurations')

prop('P29', 'No input makes reading or writing panic',
     'Whatever the bytes read, the values written and the settings computed from them (counts, sizes, offsets), an operation ends with a value or an error and never with a panic.',
     ['inputs', 'fault_sequences', 'histories', 'configurations'], 'every input, every history of operations on one reader or writer',
     'A test stops at the inputs it has; the panics found and repaired here needed unusual amounts or alignments.',
     ['src', 'deku-derive/src/macros'], [('arithmetic on amounts, slices of buffers', 'src/reader.rs, src/writer.rs, src/lib.rs')],
     '', '', na='In general it needs bounds this analysis cannot infer: counters that only wrap after 2^61 bytes, and non-linear relations between pending bits and buffer sizes inside deku and bitvec. '
     'Where the analysis is exact, a reachable panic is already a violation of the property concerned: derived code with opaque fields (P05-P18, P25), collections and wrappers (P19-P21), and every number, alignment and short input (P02-P04, P22, P24).')

prop('P30', 'A count announced by the input is not trusted for memory reserved in advance',
     'Reading a collection or a counted string reserves memory in advance only up to a fixed bound, or up to what the stream itself says is left to read, whatever count the input announces; '
     'beyond that, memory grows with the elements actually read. A count that the input cannot satisfy therefore ends in an error, not in an allocation of that size.',
     ['inputs', 'configurations'], 'every count, for every collection, limit and element type',
     'A hostile count asks for more memory than a test can hold, and a generous one is reserved without a test noticing.',
     ['src/impls/vec.rs', 'src/impls/hashmap.rs', 'src/impls/hashset.rs', 'src/impls/cstring.rs', 'src/impls/mod.rs'],
     [('initial_capacity', 'src/impls/mod.rs'), ('ReadExact for Vec<u8>', 'src/impls/vec.rs'), ('with_capacity', 'src/impls/vec.rs, hashmap.rs, hashset.rs')],
     ABS + ': dataflow of every amount of memory reserved, with the conditions of its path', IN)

prop('P31', 'Reading takes time and memory in proportion to the input consumed',
     'Nothing in the input makes a read loop or allocate beyond a constant multiple of the bytes it consumes.',
     ['inputs'], 'every input', 'Time is not an assertion, and the inputs that matter are unusual.',
     ['src/impls', 'src/reader.rs'], [('collection loops', 'src/impls/vec.rs')],
     '', '', na='It quantifies over run-time amounts (allocator behaviour, growth policy of the standard collections, elements that occupy no input, user code of element types) that no sound static argument in reach bounds. '
     'The decidable instance, memory reserved in advance, is P30.')

prop('P32', 'The unused bits reported are exactly those still pending',
     'Asking a reader for its unused bits gives the bits already taken from the stream but not yet delivered (a byte buffered by the end-of-input test included), asking a writer gives the bits accepted but not yet handed to the stream, '
     'each once and in the order they lie in the byte, and nothing when nothing is pending. Asking changes nothing: what is read or written afterwards is the same as without it.',
     ['inputs', 'histories'], 'every number of pending bits, bit order, amount read or written before, and value of the bits',
     'Tests ask after one or two reads of fixed data; the answer depends on the order and amount of everything before.',
     ['src/reader.rs', 'src/writer.rs', 'src/lib.rs'],
     [('Reader::rest', 'src/reader.rs'), ('Writer::rest', 'src/writer.rs'), ('BoundedBitVec', 'src/lib.rs')],
     'bit-provenance abstract interpretation: every bit reported, read and written is traced to the stream bit or value bit it comes from', 'every pending amount, both orders, amounts up to 40 (quick) or 57 (thorough) bits')
