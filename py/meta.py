#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'protospec-build/src/'
def m(name, where): return dict(name=name, where=S + where)
DEC = [m('sequencing of decode instructions', 'coder/decode/container.rs'), m('field decoding', 'coder/decode/field.rs'), m('emission of decoders', 'compiler/decoder.rs')]
ENC = [m('sequencing of encode instructions', 'coder/encode/container.rs'), m('field encoding', 'coder/encode/field.rs'), m('emission of encoders', 'compiler/encoder.rs')]
GEN = 'The tests pin the generated text or a handful of bytes of a handful of programs; '
P = []
def prop(id, title, statement, over, text, why, mech, level_note, technique='TLA+ specification (TLC) behaviours replayed into generated coders', level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, note=level_note, technique=technique, level=level))

BOUND = 'Seeded random behaviours of the specification, not all of them; programs of up to ~10 declarations, messages of up to ~60 bytes. Trusts the specification, rustc and the stand-ins for tokio/anyhow.'

prop('C01', 'Encoding then decoding gives the value back',
 'For every type of every protocol and every value its encoder accepts, decoding the bytes the encoder wrote succeeds, yields that value (with calculated fields holding what was calculated), and consumes exactly those bytes. Values whose data contains an array terminator, or exceeds a declared container length, are outside this guarantee.',
 ['programs', 'inputs'], 'all programs of the language, all values of their types, all arguments',
 GEN + 'losing or reordering one field kind in one nesting breaks messages no test sends.', ENC + DEC, BOUND)
prop('C02', 'Encoders write exactly the declared wire layout',
 'The bytes an encoder writes are the concatenation of its fields in declaration order, each in its declared width and byte order: two\'s-complement integers, IEEE floats, booleans as one byte 0 or 1, enums and bitfields as their number, strings and arrays as their elements, and paddings as that many zero bytes. A value that does not satisfy the declaration (a wrong element count, a missing field that must be present) is refused with an error.',
 ['programs', 'inputs'], 'all programs, all values', GEN + 'an encoder and decoder wrong in the same way still round-trip.', ENC, BOUND)
prop('C03', 'Decoders read exactly what the layout says and no more',
 'For every input, a decoder yields the one value the declared layout assigns to the leading bytes, or an error if it assigns none. On success it has consumed exactly the bytes of that value, leaving all later bytes to the next reader.',
 ['programs', 'inputs'], 'all programs, all byte strings', GEN + 'no test looks at how much of the input was consumed.', DEC, BOUND)
prop('C04', 'Malformed or truncated input is an error, never a crash',
 'On every byte string, however damaged, a decoder returns: a value if the declared layout accepts the bytes, otherwise an error. It does not panic, loop, abort on a large announced length, or report success for a message that was cut short.',
 ['programs', 'inputs'], 'all programs, all truncations, alterations and extensions of messages', 'The tests decode only well-formed messages.', DEC + [m('array lengths', 'coder/decode/array.rs'), m('strings', 'prelude/utf8.rs')], BOUND + ' Arithmetic overflow in a protocol\'s own expressions is outside the property.')
prop('C05', 'Conditional fields are on the wire exactly when their condition holds',
 'A conditional field or container is written, read and present in the decoded value exactly when its condition evaluates to true over the arguments and the fields before it; otherwise it contributes no bytes and decodes as absent. Encoding a value that lacks a field whose condition holds is an error.',
 ['programs', 'inputs'], 'all conditions over all field values, conditional fields nested in conditional containers', GEN + 'each condition is exercised on one side at most.', ENC + DEC, BOUND)
prop('C06', 'Arrays hold the declared number of elements',
 'A counted array is read and written with exactly the number of elements its length expression gives, a terminated array ends at the first element position where the terminator stands (which is consumed), and an open array ends with the input; nesting and element types do not change this. A decoder never reserves memory for elements it has not read, and an encoder refuses a value whose count differs.',
 ['programs', 'inputs'], 'all element types and length expressions, all contents', GEN + 'terminators and open arrays are tested on one input each.', [m('array decoding', 'coder/decode/array.rs'), m('array encoding', 'coder/encode/array.rs'), m('length expressions', 'semantics/convert/length.rs')] , BOUND)
prop('C07', 'A container\'s length bounds what its fields may read',
 'Fields inside a container with a declared length see the input end after that many bytes: open arrays stop there, and anything needing more is an error, while what follows the container is read from after the bytes its fields consumed. Containers without a declared length impose no bound.',
 ['programs', 'inputs'], 'all lengths and contents, nested bounds, bounds computed from fields', GEN + 'no test overruns a bound.', [m('limited streams', 'coder/decode/container.rs'), m('emission', 'compiler/decoder.rs')], BOUND)
prop('C08', 'Calculated fields always hold what their expression says',
 'When a value is encoded, each calculated field is written as its expression evaluates over the value being written, whatever the caller stored in it. A byte-length calculation equals the number of bytes its container occupies on the wire before that container\'s own transforms.',
 ['programs', 'inputs'], 'all calculations over all values, several per container', GEN + 'the byte length of anything but a flat container is untested.', [m('calculated fields', 'coder/encode/container.rs'), m('length calls', 'prelude/blen.rs'), m('length of values', 'prelude/len.rs')], BOUND)
prop('C09', 'Tagged containers take the first alternative that applies',
 'A tagged container is decoded and encoded as its first alternative whose condition holds; with none, both directions report an error, and so does encoding a value of any other alternative. Transforms and length bounds of the container apply to every alternative.',
 ['programs', 'inputs'], 'all lists of alternatives and conditions, overlapping or not exhaustive', GEN + 'no test has overlapping alternatives or none that applies.', [m('alternatives on decode', 'coder/decode/container.rs'), m('alternatives on encode', 'coder/encode/container.rs')], BOUND)
prop('C10', 'Enums and bitfields admit exactly the declared numbers',
 'An enum decodes to the variant of that number and to an error (or its default variant, keeping the number) for any other; implicit numbers count up from the last explicit one. A bitfield decodes exactly when every set bit is declared; implicit flags shift left from the last explicit one.',
 ['programs', 'inputs'], 'all representations, explicit, implicit and default items, all numbers', GEN + 'undeclared numbers are not decoded in any test.', [m('numbering', 'asg/types/enum_.rs'), m('emission', 'compiler/mod.rs')], BOUND)
prop('C11', 'Transforms wrap exactly the bytes of what they are attached to',
 'The bytes of a transformed field, container or type pass through its transforms in the order written, skipping those whose condition is false, and decoding undoes them in reverse; the bytes before and after are untouched. Nothing a transform buffers is lost or written late.',
 ['programs', 'inputs'], 'all chains of conditional and parametrised transforms at every place', GEN + 'chains of more than one transform are untested, and none buffers.', ENC + DEC + [m('transform arguments', 'semantics/convert/ffi_arguments.rs')], BOUND + ' Transforms are harness-supplied (add, xor, length-framing).')
prop('C12', 'Type arguments reach the type they are given to',
 'A parametrised type is encoded and decoded with each parameter bound to the value of the corresponding argument expression in the referring scope, or to its default if omitted, also through aliases, arrays and further references.',
 ['programs', 'inputs'], 'all parameter lists, argument expressions and nestings', GEN + 'arguments are constants in the tests.', [m('references', 'semantics/convert/ffi_arguments.rs'), m('emission', 'compiler/decoder.rs')] + DEC, BOUND)
prop('C13', 'Varints and strings follow their encodings',
 'Variable-length integers are little-endian base-128 of the two\'s-complement number at its width, and no encoding longer than the width admits is read. utf8 and utf16 strings are read and written as exactly the declared number of bytes or code units (or up to a NUL), and ill-formed text is an error.',
 ['inputs', 'programs'], 'all integers and byte strings', 'The tests encode a few small integers and ASCII strings.', [m('varints', 'prelude/var.rs'), m('utf8', 'prelude/utf8.rs'), m('utf16', 'prelude/utf16.rs')], BOUND)
prop('C14', 'Fragmentation never matters and stream failures are reported',
 'The outcome of decoding depends only on the bytes, not on how the source hands them out. If the source fails or ends before a message is decided the decoder reports an error, and if the sink fails before the whole message is written the encoder reports an error, having written a prefix of the message.',
 ['schedules', 'fault_sequences', 'inputs'], 'all ways of cutting the stream, all positions of failure', 'The tests use in-memory streams that never fail and never return short.', DEC + ENC, BOUND)
prop('C15', 'Asynchronous coders behave as synchronous ones',
 'Generated asynchronous encoders and decoders write the same bytes, yield the same values, consume the same input and report errors for the same messages as the synchronous ones, however often the stream is pending and however it is fragmented.',
 ['schedules', 'programs', 'inputs'], 'all programs, all poll schedules', 'The tests only compile asynchronous output as text.', [m('asynchronous emission', 'compiler/decoder.rs'), m('asynchronous emission', 'compiler/encoder.rs'), m('prelude', 'prelude/utf8.rs')], BOUND)
prop('E01', 'Expressions mean what the language says',
 'Every accepted expression evaluates, in a condition, length, argument, calculation or constant, to the value given by its operators at its operand types: fixed-width arithmetic, signed comparison and shifts, short-circuit logic, lazy choice, widening and truncating casts, indexing, flag and variant tests, and calls. Operator precedence and associativity are those of the grammar.',
 ['programs', 'inputs'], 'all expressions over all operand values', GEN + 'most operators never occur in an executed test.', [m('expressions', 'semantics/convert/expression/mod.rs'), m('emission', 'compiler/expr.rs'), m('constants', 'asg/expression/const_int.rs')], BOUND)
prop('E02', 'The compiler accepts exactly the well-typed programs',
 'A program is rejected with an error if it is ill-formed: an unknown or doubly declared name, an argument list that does not fit, operands or conditions of the wrong type, a literal out of range, a misplaced default or unreachable alternative. Every other program is accepted.',
 ['programs'], 'all programs, well-formed or not', 'The tests contain a few dozen programs and reject almost none.', [m('semantic analysis', 'semantics/convert/program/mod.rs'), m('assignability', 'asg/types/mod.rs'), m('inference', 'semantics/partial_type.rs')], BOUND)

FRONT = 'Seeded random behaviours of the specification, not all of them; texts of up to ~2 kB. Trusts the specification.'
TT = 'TLA+ specification (TLC) behaviours replayed into the lexer and parser'
prop('F01', 'Text reads as the grammar says, whatever its layout',
 'Every text is read as the one token sequence and declaration list the grammar assigns to it, or rejected if it assigns none. White space and comments between tokens, optional trailing commas and redundant parentheses never change what is read; string escapes, number spellings, keywords, operator precedence and associativity are as the grammar has them.',
 ['inputs', 'programs'], 'all texts: every declaration written in every layout, and damaged texts', 'The tests parse a few dozen tidy programs and almost no ill-formed ones.',
 [m('tokens', 'tokenizer.rs'), m('expressions', 'parser/expression/mod.rs'), m('types', 'parser/types/mod.rs'), m('fields', 'parser/field.rs'), m('declarations', 'parser/declaration/mod.rs')], FRONT, TT)
prop('F02', 'Tokens, names and syntax errors carry their place in the text',
 'Each token, and each name, string and number of the parsed declarations, carries the line and column (from 1, columns in bytes) where it starts and ends in the text, whatever comments, strings and line breaks precede it. A syntax error is reported at the first token that cannot continue the text before it, or as an unexpected end.',
 ['inputs'], 'all texts, well-formed or not', 'No test looks at a position.', [m('places', 'tokenizer.rs'), m('errors', 'parser/token_iter.rs'), m('names', 'parser/expression/primary.rs')], FRONT, TT)

prop('F03', 'Splitting a protocol into modules changes nothing',
 'A protocol split into modules that import from one another, directly or through other modules, under the same or other names, is accepted and encodes and decodes its messages exactly as the single program it stands for: every imported name means the declaration it had in its module, with that module\'s own names. A program whose imports cannot be resolved (no such module or name, modules importing each other in a cycle, a module that is itself ill-formed, two different declarations under one name) is rejected with an error.',
 ['programs', 'inputs'], 'all splits of all programs into modules, well-formed or damaged', 'The tests import one name from one module and never run the result.',
 [m('imports', 'semantics/convert/program/import.rs'), m('module resolution', 'semantics/convert/program/mod.rs'), m('what is generated for imports', 'compiler/mod.rs'), m('reachable types', 'asg/program.rs')], BOUND)

prop('G01', 'Generated values behave as numbers, flags and variants',
 'Whatever a program does with generated values between decoding and encoding: a bitfield\'s flag constants, ALL and ZERO hold the declared bits; combining, negating, setting and testing act on exactly those bits; `from_repr` admits exactly the declared numbers and leaves every other to an error; enum variants convert to their declared numbers and back; `to_be_bytes` and `to_le_bytes` are the number\'s bytes; equality is equality of values; and `Default` is zero, empty or absent everywhere and the first variant of an enum or tagged container.',
 ['programs', 'histories'], 'all enums, bitfields and containers; all sequences of operations', 'No test runs an operator or accessor of a generated bitfield, or a generated Default.',
 [m('bitfields and enums', 'compiler/mod.rs'), m('item values', 'asg/expression/const_int.rs')], BOUND, 'TLA+ specification (TLC) behaviours replayed into generated types')

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            files = sorted({x['where'] for x in p['mech']})
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'], anchors=dict(files=files, mechanism=p['mech'], observe_at=['generated coders', 'compiler library API'], hook_needed=None))) + '\n')
    man = dict(version=1, setup_cmd='python3 py/check.py --setup',
               checks=[dict(property=p['id'], quick_cmd='python3 py/check.py %s quick' % p['id'], thorough_cmd='python3 py/check.py %s thorough' % p['id'],
                            technique=p['technique'], level=p['level'], level_note=p['note']) for p in P],
               not_applicable=[], notes='TLA+ with TLC; see DESIGN.md. No hooks in /repo: everything is observed through the public API and the generated code.')
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__': main()
