#!/usr/bin/env python3
"""Writes properties.jsonl. Edit the properties here."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=None)))

SV='ser_raw/src/storage/aligned_vec.rs'; SM='ser_raw/src/storage/mod.rs'
POS='ser_raw/src/pos.rs'; TC='ser_raw/src/serializer_traits/complete.rs'
TP='ser_raw/src/serializer_traits/ptr_writing.rs'; TT='ser_raw/src/serializer_traits/pos_tracking.rs'
TO='ser_raw/src/serializer_traits/ptr_offset.rs'; TW='ser_raw/src/serializer_traits/writable.rs'
IP='ser_raw/src/serialize_impls/ptrs.rs'; IM='ser_raw/src/serialize_impls/multiples.rs'
IO='ser_raw/src/serialize_impls/other.rs'; IB='ser_raw/src/serialize_impls/bigint.rs'
SER='ser_raw/src/serializer.rs'; UT='ser_raw/src/util.rs'
DS='ser_raw_derive/src/structs.rs'; DE='ser_raw_derive/src/enums.rs'; DL='ser_raw_derive/src/lib.rs'
DZ='ser_raw_derive_serializer/src'

prop('C01', 'Complete serializer output is directly usable as an equal value',
  'For every value, the output of the complete serializer contains at the returned position a valid value of the same type, equal to the input at every depth. Every pointer reachable from it points inside the output, to correctly aligned contents of the right length, and nothing in it refers back to memory of the input.',
  ['inputs','configurations'],
  'Every value of the supported types (integers, floats, non-zero integers, bool, char, arrays, tuples, Option, Box, Vec, String, derived structs and enums, nested), any contents, any legal capacities, any storage alignment configuration, any starting capacity.',
  'Tests compare about 30 fixed literals with one storage configuration and a few starting capacities; contents, excess capacities and positions are all fixed.',
  [TC, TP, TT, POS, IP, IM, IO, SER], [('pointers are overwritten as targets are pushed, and shifted when storage has moved', TC), ('position mapping translates address of a pointer field to its place in output', POS)],
  [('position mapping','where the value being processed was copied to', POS)], ['address cast of output + returned position'])
prop('C02', 'Written pointers are right whenever and wherever the storage moves',
  'However often the storage buffer changes address while values are serialized, and even if it returns to an earlier address, all pointers in the finished output are relative to the final address of the buffer. This holds whether pointers were written before, between or after the moves.',
  ['histories','schedules'],
  'Every sequence of pointer writes (up to the stated number) interleaved with every sequence of buffer addresses, including reuse of an earlier address, and any positions and targets.',
  'In tests the allocator decides if the buffer moves; histories such as A-B-A, or a move after the last pointer write, are not controlled and mostly never happen.',
  [TC, POS, SV], [('pointer positions grouped by storage address at time of writing, each group corrected by its own shift at the end', TC)],
  [('pointer groups','positions of pointers written while storage was at one address', POS)], ['pointer fields in finished output'])
prop('C03', 'Excess capacity of vectors and strings is trimmed in complete output',
  'In the output of the complete serializer every Vec and String has capacity equal to its length, and an empty one has capacity 0 and the well-aligned dangling pointer of a fresh empty collection. All else about the collection, and all neighbouring data in the output, is as in the input.',
  ['inputs'],
  'Every combination of length and capacity (any capacity from length to the maximum) of vectors and strings, alone, nested and as fields of larger values.',
  'Tests exercise a handful of capacity/length pairs; only the solver ranges over all 2^63 capacities in every position.',
  [IP, TC, TW], [('capacity, and pointer if empty, overwritten when they differ from what they should be', IP)], (), ['header words of collections in output'])
prop('C04', 'Pointer-offset serializer writes the position of each pointee',
  'For every value, the pointer-offset serializer leaves in each pointer field of the output the position, from the start of the output, at which the pointee was written; the pointee found there equals the input and is aligned. Fields which own no allocation keep their original bits, as do lengths and capacities.',
  ['inputs','configurations'],
  'Every value of the supported types, any contents and capacities, any storage alignment configuration and starting capacity, including several values in one output.',
  'Tests use fixed literals and one configuration.',
  [TO, TP, TT, POS, IP], [('pointer field overwritten with position of target', TO)], (), ['pointer fields in output'])
prop('C05', 'Output layout: depth first, verbatim, aligned, minimal padding',
  'The pure-copy serializer writes the value and then every allocation it owns, depth first in field order, each verbatim at the next position which suits its alignment, padding to the minimum value alignment and no further. All built-in serializers place the same parts at the same positions.',
  ['inputs','configurations'],
  'Every value of the supported types, any contents, any storage alignment configuration and starting capacity.',
  'Tests check fixed literals with one configuration; they do not compare serializers with each other.',
  [SER, SM, IP, IM, IO, 'ser_raw/src/serializers/pure_copy.rs'], [('each push aligns before and after', SM)], (), ['bytes of output', 'position after serializing'])
prop('C06', 'Storage stays aligned and in bounds after any sequence of operations',
  'After any operation on a storage, the position is a multiple of the minimum value alignment and no greater than capacity, capacity is a multiple of the maximum value alignment and no greater than the limit, and the buffer address is a multiple of the storage alignment. Each pushed value or slice gets the lowest suitably aligned position at or after the previous end. The alignments and limit a built-in serializer states as its constants are those its storage keeps to.',
  ['histories','configurations','inputs'],
  'Every state satisfying the invariant (all positions and capacities up to the 63-bit limit), every single operation from it, for element types of many sizes and alignments and many alignment configurations; hence every history.',
  'Tests push a few hundred bytes in default configuration; the interesting states are near capacity and near limits, and in unusual alignment configurations.',
  [SM, SV, UT, 'ser_raw/src/serializers/complete.rs', 'ser_raw/src/serializers/ptr_offset.rs', 'ser_raw/src/serializers/pure_copy.rs'], [('position aligned before push if type needs more than minimum, and after push if size is not a multiple of it', SM)],
  [('position','end of what has been pushed', SV), ('capacity','size of allocation', SV)], ['position and capacity after each operation'])
prop('C07', 'Pushed data is stored exactly and never disturbed later',
  'A push stores exactly the bytes of the value at the position it returns, and no later push, reservation, growth, shrink or other write elsewhere changes bytes already stored. The source of a push is never modified.',
  ['histories','inputs'],
  'Every contents, many sizes and alignments, every sequence (up to the stated length) of pushes, reservations and shrinks, every starting capacity that makes growth happen at any point in between.',
  'Tests push a few known values and rarely grow in the middle; loss of a tail on growth needs a particular fill level.',
  [SV, SM], [('contents copied on growth by the allocator, with the old layout', SV)], (), ['bytes of the storage'])
prop('C08', 'Reservation guarantees space, grows geometrically and enforces the limit',
  'After a reservation succeeds, capacity minus position is at least what was asked for, and position is unchanged; if there was enough already nothing changes. Capacity grows to the next power of two that suffices, or straight to the maximum when that is nearer, never beyond; asking for more than the maximum panics and leaves the storage usable, as does creating one with too much.',
  ['inputs','configurations'],
  'Every capacity, position and requested amount over all 64-bit values, for several limits including ones which are not a power of 2.',
  'The interesting cases are requests of exabytes and sums that wrap, which no test can allocate.',
  [SV, SM, UT], [('growth computed with overflow check and clamped to maximum', SV)], (), ['capacity', 'panic or return'])
prop('C09', 'Memory is allocated, resized and released exactly as the allocator requires',
  'Every allocation is made with non-zero size and the storage alignment, every resize and release names the size and alignment the block currently has, the block size always equals the reported capacity, and each block is released exactly once, no later than when the storage is dropped. No allocation is made or kept for zero capacity.',
  ['histories','inputs','configurations'],
  'Every capacity and position, every sequence of create, reserve, push, shrink and drop (up to the stated length), several alignment configurations.',
  'The system allocator accepts wrong layouts silently, so no test can notice; the contract has to be checked at the allocator boundary for all sizes.',
  [SV], [('layout rebuilt from capacity and storage alignment', SV)], (), ['calls to the allocator'])
prop('C10', 'Many values share one output, and storage can be borrowed and reused',
  'Serializing several values in turn into one output leaves each of them correct at its own position, as if pointers of one did not know about the others. A serializer over borrowed storage appends after what the storage holds, leaving that intact; clearing empties the storage, keeps its capacity, and the next output is the same as from a fresh storage.',
  ['histories','inputs'],
  'Every sequence (up to the stated length) of values and of serializers over the same storage, any contents, any prior contents and position of the storage.',
  'Tests serialize one value per storage almost always.',
  [SER, TT, TC, SM, 'ser_raw/src/serializers/complete.rs', 'ser_raw/src/serializers/ptr_offset.rs', 'ser_raw/src/serializers/pure_copy.rs'], [('each top-level value sets its own position mapping', TT)], (), ['each value in output'])
prop('C11', 'Derived Serialize visits each field exactly once, in order',
  'Derived serialization of a struct serializes each of its fields exactly once in declaration order, using the proxy where one is named for a field of a struct, and of an enum exactly the fields of the active variant, in order. It holds for named, tuple and unit forms, any number of fields, field names that clash with names in generated code, and declarations that come out of a macro.',
  ['programs','inputs'],
  'A family of struct and enum shapes (named, tuple, unit, one to dozens of fields, const-generic, with proxies, mixed variants), and every value of them including every active variant.',
  'Tests derive on a few shapes and look only at one or two values of each.',
  [DS, DE, DL], [('one statement generated per field; one match arm per variant with fields', DE)], (), ['sequence of fields visited'])
prop('C12', 'Container implementations visit each element exactly once, in order',
  'Serializing an array, tuple (1 to 32 elements), Option, Box, Vec or String visits each contained element exactly once, in order, after the memory holding it has been written, and pushes exactly one contiguous block for each non-empty allocation. Nothing is pushed for None, empty collections or boxes and vectors of zero-sized values.',
  ['inputs'],
  'All lengths up to the stated bound for arrays and vectors, every tuple arity from 1 to 32, every Option state, nested combinations, any contents.',
  'Tests cover tuples up to 3, arrays up to 3 and particular vectors.',
  [IM, IO, IP, 'ser_raw/src/serialize_impls/primitives.rs'], [('loops and macro-generated tuple implementations', IM)], (), ['sequence of elements visited and blocks pushed'])
prop('C13', 'Big integers serialize like the vector of digits they wrap',
  'A big unsigned integer is serialized exactly as its vector of digits would be, and a big signed integer keeps its sign and serializes its magnitude, for zero, positive and negative numbers of any size and any excess capacity. The complete serializer yields an equal, usable number.',
  ['inputs'],
  'All digit contents for digit counts up to the stated bound, every sign, any capacity, all built-in serializers.',
  'Tests use a few fixed numbers.',
  [IB, IP], [('offset of magnitude deduced from where the sign byte lies', IB)], (), ['number in output'])
prop('C14', 'Position queries while serializing are correct for every value in progress',
  'While a value is being processed, a position-tracking serializer maps the address of any part of it to the position in the output where that part was written. After processing of an owned allocation ends, the same is true again for the value that owns it, at any nesting depth.',
  ['inputs','histories'],
  'Every input address and output position (full range, including above 4 GiB), every nesting up to the stated depth, values and slices, with and without further processing, for all position-tracking serializer kinds.',
  'Tests never query positions except through pointer writes of small values near the start of output.',
  [POS, TT, TP], [('mapping saved before processing an allocation and restored afterwards', TT)], (), ['position reported for an address'])
prop('C15', 'Reserving space for later leaves exactly enough aligned space, or panics',
  'Pushing empty space for a value or slice returns a position aligned for the type, with at least the full size of it between there and the new position, all inside capacity; existing data is kept. If the size cannot be represented or exceeds the limit it panics rather than reserving less.',
  ['inputs','configurations'],
  'Every length over all 64-bit values, element types of many sizes, every prior position and capacity, several configurations.',
  'Sizes which overflow cannot be reached by pushing real data.',
  [SM, SV], [('size computed with overflow check, then reserved', SM)], (), ['returned position, position, capacity'])
prop('C16', 'Overwriting changes only its target, and only where it is supported',
  'Overwriting a value given its address in the input changes exactly the bytes of the output that hold the copy of it, and no others, at any nesting depth. Serializers which do not support overwriting ignore such requests without running them; the complete serializer always runs them, once.',
  ['inputs','histories'],
  'Every address within values being serialized and every output position, any contents, all serializer kinds.',
  'Only capacity trimming uses it in tests, at fixed places.',
  [TC, TW, SER, POS], [('address translated by position mapping; no-op defaults', SER)], (), ['bytes of output', 'whether callback ran'])
prop('C17', 'Alignment arithmetic is exact over its whole domain',
  'Rounding up gives the smallest multiple of the alignment not below the position, testing alignment is exact, and the capacity limits are the largest allowed for the alignment. Alignments which are zero, not powers of two or too large are rejected by the functions which take arbitrary ones.',
  ['inputs'],
  'All 64-bit positions and alignments for which the result is representable.',
  'A test samples; the solver covers all 2^64 x 64 combinations.',
  [UT], [('mask arithmetic', UT)], (), ['return values, panics'])
prop('C18', 'Derived serializers behave exactly like the built-in ones',
  'A user-defined serializer derived with a given kind, over any conforming storage, with its fields in any order and whatever it and its type parameters are called, yields for every value the same positions, bytes, pointer values and answers to position queries as the built-in serializer of that kind, and overwrites exactly if that does.',
  ['programs','inputs'],
  'Each of the four kinds, several struct shapes (field order, extra fields, generics, borrowed storage), a family of values with any contents.',
  'Tests define no serializer of their own.',
  [DZ+'/lib.rs', DZ+'/common.rs', DZ+'/ser_types/complete.rs', DZ+'/ser_types/ptr_offset.rs', DZ+'/ser_types/pos_tracking.rs', DZ+'/ser_types/pure_copy.rs'], [('generated methods delegate to trait of the kind', DZ+'/ser_types/complete.rs')], (), ['output of both serializers'])
prop('C19', 'Random access reads and writes exactly the addressed bytes',
  'Writing a value or slice at a position stores exactly its bytes there and changes nothing else, neither contents elsewhere nor position nor capacity. Reading at a position returns exactly what was last stored there; pointers handed out address the same bytes.',
  ['inputs','configurations'],
  'Every legal position in storages up to the stated size, element types of many sizes and alignments, any contents.',
  'Tests of serializers touch only header words.',
  [SV, SM], [('unchecked copies at offset from buffer start', SV)], (), ['bytes of storage'])
prop('C20', 'Zero-sized values occupy nothing and stay legal',
  'Pushing or reserving room for zero-sized values or empty slices takes no space beyond what aligning the position for the type may take, and always yields a position from which such a value (of an alignment which the configuration allows) can legally be read, even when storage has never allocated. Boxes and vectors of zero-sized values are left as they are and push nothing.',
  ['inputs','configurations'],
  'Every count of elements, zero-sized types of each alignment, any storage state and configuration, all serializers.',
  'Tests look only at the resulting equality; illegal pointers to zero bytes are invisible to them.',
  [SM, SV, IP], [('early return for zero-sized types; dangling pointer aligned as storage', SV)], (), ['position', 'pointer validity'])
prop('C21', 'Storage configurations are accepted exactly when they are valid',
  'A storage configuration is rejected at compile time unless alignments are powers of two, ordered value <= maximum value <= storage, and the limit is non-zero, a multiple of the maximum value alignment and within what an allocation may be. Every configuration which satisfies the documented rules is accepted.',
  ['configurations'],
  'All 64-bit values of the four configuration parameters.',
  'Each test configuration is one point; a compile-time check is only exercised by the configurations someone compiles.',
  [SM, UT], [('constant assertions evaluated when a storage is created', SM)], (), ['assertion outcome'])
prop('C22', 'Output does not depend on capacity, growth history or kind of construction',
  'For the same values, output positions and contents (relative to the start of output) are the same whether storage started empty, small, exactly sized or large, was created by any constructor, was borrowed, or had been used and cleared before.',
  ['histories','configurations','inputs'],
  'Every contents of a family of values, starting capacities that make growth happen at each possible point, every construction.',
  'Tests compare each output with the input only, at one starting capacity.',
  [SV, SM, SER, TC], [('positions depend only on previous pushes', SM)], (), ['bytes and positions of both outputs'])
prop('C23', 'Types which need too much alignment are rejected at compile time',
  'Pushing a value or slice of a type, or reserving room for one, whose alignment exceeds the maximum value alignment of the storage is rejected at compile time, for every configuration and type which is not zero-sized. Types with an alignment up to the maximum are always accepted.',
  ['configurations'],
  'All valid 64-bit configurations; all sizes and alignments of types.',
  'A test which should be rejected by the compiler is not a test which can run.',
  [SM], [('constant assertion evaluated per type and storage', SM)], (), ['compile-time outcome'])
prop('C24', 'Failure to allocate is reported and never corrupts the storage',
  'When the allocator does not provide memory for creating, growing or shrinking a storage, the operation reports the failure, naming the size and alignment it asked for, and does not go on. The storage is by then as it was before, apart from alignment of its position, with the block it had.',
  ['fault_sequences','configurations','inputs'],
  'Failure of any request, in any state and configuration, for any operation which allocates.',
  'The allocator does not fail in tests.',
  [SV], [('null checks after alloc and realloc', SV)], (), ['reported layout, state of storage when the failure is reported'])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
import jsonschema
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p, sch)
print(len(P))
