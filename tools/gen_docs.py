#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = 'abstract interpretation of MIR'
P = []          # claimed
NA = []         # not applicable


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, na=None, **kw):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    anchors.update(kw)
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': anchors}
    assert len(title) <= 80, (id, len(title))
    P.append((d, technique, note, na))


prop('P01', 'A stream failure always ends the operation with that failure',
     'If the underlying stream fails during any read or write, the operation in progress returns an error at once: end of input as '
     '"incomplete", any other failure as an I/O error of the same kind. No failure is turned into data, success or another error, and the stream is not used again '
     'by that operation. The end-of-input test answers true only at end of input and does not invent data when the stream fails.',
     ['fault_sequences', 'inputs', 'configurations'], 'every stream call that any read or write can issue, failing in every way, in every feature configuration',
     'Tests use in-memory cursors, which fail only at end of input and only where the sample data ends.',
     ['src/reader.rs', 'src/writer.rs', 'src/impls/primitive.rs', 'src/noseek.rs'],
     [('mapping of stream errors', 'src/reader.rs read_bytes*/read_bits*'), ('mapping of write errors', 'src/writer.rs'), ('end of input test', 'src/reader.rs Reader::end')],
     ABS + ': every path from a failing stream call to the return',
     'all paths of every stream-level and primitive read/write entry, loops by induction, in four (quick) or six (thorough) feature configurations')

prop('P02', 'Reading accounts for every bit taken from the stream',
     'After every successful read, the number of bits reported as read has advanced by exactly the number of bits requested, and bits previously pending '
     'plus bits taken from the stream equal bits delivered plus bits still pending. No bit is lost, delivered twice or counted twice, whatever was pending before '
     '(nothing, a partial byte, or a byte buffered by the end-of-input test).',
     ['inputs', 'histories', 'configurations'], 'every amount, bit order, endianness and pending state, for every primitive read entry',
     'The amounts and alignments of a history of reads are unbounded; tests sample a few alignments.',
     ['src/reader.rs', 'src/impls/primitive.rs'],
     [('bit accounting', 'src/reader.rs read_bits_into, read_bytes*, read_bits_uint_msb0'), ('primitive readers', 'src/impls/primitive.rs')],
     ABS + ': affine equalities between ghost counters of stream bytes and the reader state; bit provenance of what is delivered',
     'counts: all success paths, loop relations inferred and proved inductive; contents: reader operations of chosen amounts (thorough: 0 to 57 bits) at every alignment, and numbers')

prop('P03', 'Writing accounts for every bit handed to the stream',
     'After every successful write, the bits-written count has advanced by exactly the bits handed to the stream, and bits previously pending plus bits accepted equal '
     'bits handed to the stream plus bits still pending. Finalizing leaves nothing pending and emits exactly one padded byte if and only if bits were pending.',
     ['inputs', 'histories', 'configurations'], 'every amount, bit order and pending state, for every primitive write entry',
     'The combinations of pending bits, bit orders and lengths are unbounded; tests sample a few.',
     ['src/writer.rs', 'src/impls/primitive.rs'],
     [('write_bits_order and its four order cases', 'src/writer.rs'), ('write_bits_uint_msb0, write_bytes, finalize', 'src/writer.rs')],
     ABS + ': affine equalities between ghost counters of stream bytes and the writer state; bit provenance of what is handed over',
     'counts: all success paths, finalize decided for each of the 8 pending counts; contents: writer operations of chosen amounts (thorough: 0 to 57 bits) at every alignment, and numbers')

prop('P04', 'Seeking and skipping move to exactly the requested place',
     'Seeking a reader or writer passes the requested target to the stream once, returns the stream\'s answer, drops everything pending so that what follows starts fresh, and '
     'makes the read position eight times the new byte position. Skipping bits moves by exactly the requested number of bits counted from the next bit to be read.',
     ['inputs', 'histories', 'configurations'], 'every target, every pending state, every skip amount',
     'Needs particular pending states before the seek; tests seek from aligned positions.',
     ['src/reader.rs', 'src/writer.rs'],
     [('Seek for Reader', 'src/reader.rs'), ('Seek for Writer', 'src/writer.rs'), ('skip_bits', 'src/reader.rs')],
     ABS + ': events and state on all paths of seek and skip',
     'all paths of seek on both sides and of skip_bits')

prop('P28', 'The no-seek adapter tracks its position exactly and never moves on a seek',
     'Wrapping an unseekable stream passes every read and write through unchanged, its virtual position advances by exactly what the stream reports as moved, and a failed operation moves nothing. '
     'A seek succeeds only when it would not move, and never touches the stream.',
     ['inputs', 'fault_sequences', 'configurations'], 'every operation, short reads and writes, failures',
     'Short reads/writes and failures of the wrapped stream do not occur with in-memory cursors.',
     ['src/noseek.rs'], [('NoSeek', 'src/noseek.rs')],
     ABS + ': events and position on all paths of every operation',
     'all paths of all eleven operations')

exec(open(os.path.join(V, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more_props.py')) else None


def main():
    P.sort(key=lambda x: x[0]['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, _, _, _ in P:
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d, tech, note, reason in P:
        if reason:
            na.append({'property': d['id'], 'reason': reason})
            continue
        checks.append({'property': d['id'], 'quick_cmd': 'bin/check %s --tier quick' % d['id'],
                       'thorough_cmd': 'bin/check %s --tier thorough' % d['id'],
                       'evidence_file': 'evidence/%s.json' % d['id'],
                       'technique': 'static analysis: ' + tech, 'level': 'other', 'level_note': note})
    m = {'version': 1, 'setup_cmd': 'python3 lib/build.py', 'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis only: a rustc driver dumps the type-checked, optimised-off MIR of small client crates together with all of deku that they '
                  'reach (derive output included), and an abstract interpreter decides the properties on it. See DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
