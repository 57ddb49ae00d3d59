"""Per-property configuration of the checks."""

QUICK_BUDGET = 780       # seconds for a whole check
QUICK_HARNESS = 200      # seconds for one harness
THOROUGH_BUDGET = 6 * 3600
THOROUGH_HARNESS = 1800

CHECKS = {
    'C01': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of the complete serializer over a family of value shapes',
        symbolic=['all scalar contents', 'capacity of vectors and strings (len..isize::MAX/size) in single-collection shapes'],
        bounds=['53 value shapes (see harnesses/shapes.rs): nesting depth <= 4, collections of <= 3 elements, strings <= 5 bytes',
                'configurations 16/16/8, 16/16/1, 16/16/16, 64/32/4; starting capacities 0 to 512 incl. ones which force growth at every push',
                'loops unrolled 10 to 20 times, checked'],
        outside=['longer collections, deeper nesting, types outside the family', 'u16/u32-limited targets, other architectures'],
        assumptions=['shape (lengths, variants) is concrete per harness, contents symbolic'],
    ),
    'C02': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of complete serializers over storage which moves between symbolic or scheduled addresses',
        symbolic=['all scalar contents', 'storage address at every reservation (q_any_*, q_model_box, q_model_opt_vec): any 64-bit address, equal or not to earlier ones',
                  'numeric distance between the areas in all schedules with real objects'],
        bounds=['every way in which the addresses at up to 4 pointer writes can coincide with each other and, for up to 3 writes (thorough: 4), with the final one',
                'the real AlignedVec with an allocator which stays or moves between 3 areas, also back, on growth, explicit reserve and shrink: 14 schedules',
                'shapes with up to 8 pointers, two values per output',
                '20, 40 and 70 (thorough: 200) pointers, with a move after 1, 25 and 69 (130) of them; up to 3 (thorough: 9) moves back and forth'],
        outside=['more than 4 pointer writes with arbitrary address patterns', 'schedules for larger shapes other than those listed in harness/src/c02.rs'],
        assumptions=['the model storage claims addresses it does not have and settles at its real address before finalization'],
    ),
    'C03': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of the complete serializer over vectors and strings of any capacity',
        fake_memory=True,
        symbolic=['excess capacity (any legal 64-bit value)', 'contents, and position and capacity of the output (any legal 64-bit values) in q_rec_*'],
        bounds=['vectors and strings of 0 to 8 elements of 11 element types, alone and in structs, arrays, tuples, vectors, options and boxes; recording storage: also strings of 70001 and 2^33 bytes and a vector of 260'],
        outside=['longer collections', 'element types not listed'],
        assumptions=['recording storage (q_rec_*): buffer address is one concrete 64-bit number'],
    ),
    'C04': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of the pointer-offset serializer, over real memory and over recording storage from an arbitrary state',
        fake_memory=True,
        symbolic=['all scalar contents', 'excess capacities', 'position and capacity of the output (any legal 64-bit values) in q_rec_*'],
        bounds=['49 value shapes (harness/src/rec.rs) of nesting depth <= 4 over recording storage in five configurations; collections of <= 40 elements, and a vector of 260 and strings of 300, 70001, 2^30 and 5 * 2^30 bytes',
                '53 value shapes over the real storage'],
        outside=['longer collections, deeper nesting, types outside the family'],
        assumptions=['recording storage: buffer address is one concrete 64-bit number (the arithmetic on it is checked for symbolic positions)',
                     'at least 4096 bytes remain below the limit'],
    ),
    'C05': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of all three serializers, over real memory and over recording storage from an arbitrary state',
        fake_memory=True,
        symbolic=['all scalar contents', 'excess capacities', 'position and capacity of the output (any legal 64-bit values) in q_rec_*'],
        bounds=['49 value shapes (harness/src/rec.rs) of nesting depth <= 4 over recording storage in five configurations; collections of <= 40 elements, and a vector of 260 and strings of 300, 70001, 2^30 and 5 * 2^30 bytes',
                '53 value shapes over the real storage, each with all three built-in serializers'],
        outside=['longer collections, deeper nesting, types outside the family'],
        assumptions=['recording storage: buffer address is one concrete 64-bit number (the arithmetic on it is checked for symbolic positions)',
                     'at least 4096 bytes remain below the limit'],
    ),
    'C14': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT): values which ask for positions while they are serialized, from an arbitrary storage state',
        fake_memory=True,
        symbolic=['position and capacity of the output (any legal 64-bit values)', 'start address, offset and position of the mapping itself (any 64-bit values)'],
        bounds=['8 value shapes which ask for the positions of their parts before, between and after their children; serializers of 3 kinds in 2 configurations'],
        outside=['deeper nesting than 3 allocations, more than 2 siblings'],
        assumptions=['recording storage: buffer address is one concrete 64-bit number'],
    ),
    'C18': dict(
        must_compile=True,
        title='bounded symbolic execution (Kani/CBMC, SAT) of user-derived serializers over foreign storage against the same model as the built-in ones',
        fake_memory=True,
        symbolic=['position and capacity of the output (any legal 64-bit values)', 'contents in q_real*'],
        bounds=['every kind x field orders x with and without explicit finalize, over 12 value shapes; foreign storage in three configurations; and over AlignedVec; four shapes of values which ask for positions, one which overwrites; names which occur in the expansion'],
        outside=['longer collections, deeper nesting, types outside the family'],
        assumptions=['recording storage: buffer address is one concrete 64-bit number'],
    ),
    'C06': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT), one storage operation from an arbitrary legal state, imaginary memory',
        fake_memory=True,
        symbolic=['capacity and position (any legal 64-bit values)', 'length of pushed slice', 'argument of reserve / push_empty_slice', 'address given by the allocator'],
        bounds=['one operation from any state with the invariant to a state with the invariant (inductive over operations)',
                '9 configurations (harness/src/state.rs), element types of size 0 to 32 and alignment 1 to 32',
                'constants of the three built-in serializers against storage of any initial capacity, 5 configurations'],
        outside=['configurations and element types not listed'],
        assumptions=['a slice has at most isize::MAX bytes'],
    ),
    'C08': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of reserve and with_capacity from an arbitrary legal state, imaginary memory',
        fake_memory=True, runs=[(False, 'q_'), (True, 'p_')],
        symbolic=['capacity and position (any legal 64-bit values)', 'amount to reserve, initial capacity (any 64-bit value)'],
        bounds=['9 configurations (harness/src/state.rs)', 'must-panic harnesses are decided without debug assertions'],
        outside=['configurations not listed'],
        assumptions=[],
    ),
    'C09': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of storage operations against an allocator model which checks its contract',
        fake_memory=True,
        symbolic=['capacity and position (any legal 64-bit values)', 'operation arguments', 'address given by the allocator'],
        bounds=['one operation from any legal state, then drop; and short histories from new()', '9 configurations (harness/src/state.rs)'],
        outside=['configurations not listed', 'unwinding out of an operation'],
        assumptions=[],
    ),
    'C15': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of push_empty / push_empty_slice from an arbitrary legal state, over AlignedVec and a contract-checking storage',
        fake_memory=True, runs=[(False, 'q_'), (True, 'p_')],
        symbolic=['capacity and position (any legal 64-bit values)', 'length of the reserved slice (any 64-bit value)'],
        bounds=['9 configurations, element types of size 0 to 32', 'must-panic harnesses are decided without debug assertions'],
        outside=['configurations and element types not listed'],
        assumptions=[],
    ),
    'C17': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of the alignment functions over their whole domain',
        runs=[(False, 'q_'), (True, 'p_')],
        symbolic=['position and alignment (any 64-bit value in the documented domain; any value for must-panic harnesses)'],
        bounds=['none: loop-free code over all 64-bit inputs'],
        outside=['32-bit targets'],
        assumptions=[],
    ),
    'C07': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of storage operations on a buffer of arbitrary contents and position, over real memory',
        symbolic=['contents of the buffer and of what is pushed', 'index of the byte compared (any)', 'position'],
        bounds=['buffers of up to 48 bytes filled to any position, moved or extended in place by the allocator on growth, scrambled tail after shrink',
                'one or two operations out of every push / reserve / shrink / write / clear, for 8 element types in several configurations',
                'large pushes (300 to 2051 bytes) of a fixed pattern with one arbitrary byte, followed by growth and shrinking'],
        outside=['larger buffers and elements', 'element types not listed'],
        assumptions=[],
    ),
    'C10': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of several values and several serializers over one storage, over real memory and over recording storage from an arbitrary state',
        fake_memory=True,
        symbolic=['all scalar contents', 'excess capacities', 'position and capacity of the output (any legal 64-bit values) in q_rec_*', 'prior contents of borrowed storage'],
        bounds=['up to 3 values per output of nesting depth <= 4', 'three kinds of serializer, owned and borrowed storage, cleared and reused'],
        outside=['longer sequences, larger values', 'pushing the value at one address twice', 'complete output in borrowed storage which grows afterwards'],
        assumptions=['recording storage: buffer address is one concrete 64-bit number'],
    ),
    'C11': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of code generated by derive(Serialize), compared with the sequence of visits the declaration calls for',
        must_compile=True,
        symbolic=['contents of all fields', 'active variant in q_any_*, q_plain and q_hollow'],
        bounds=['the struct and enum shapes in harness/src/c11.rs: named, tuple, unit and empty, 0 to 40 fields, every variant of each enum, const generics, '
                'lifetimes, proxies, bounds, explicit representations and discriminants, raw and clashing names, recursive types',
                'four kinds of serializer'],
        outside=['shapes not listed', 'proxies on fields of enum variants (documented as not implemented)', 'types generic over types (not supported by the macro)'],
        assumptions=['storage only records what is pushed'],
    ),
    'C12': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of container implementations, compared with the sequence of visits and blocks the value calls for',
        symbolic=['contents of all elements', 'capacity of vectors', 'length of strings and byte vectors in q_*_any_*'],
        bounds=['arrays of 0 to 40 and 300 (thorough: 1100), tuples of every arity 1 to 32, vectors of 0 to 40 and 300 (1100), strings of any length up to 64; nested combinations of depth <= 5',
                'four kinds of serializer (two for the largest)'],
        outside=['longer collections, deeper nesting'],
        assumptions=['storage only records what is pushed'],
    ),
    'C16': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of values which overwrite parts of themselves, over recording storage from an arbitrary state and over real memory',
        fake_memory=True,
        symbolic=['position and capacity of the output (any legal 64-bit values)', 'contents written', 'address overwritten (any within the value) in q_any_*'],
        bounds=['values of nesting depth <= 3 which overwrite themselves before, between and after their children; all serializer kinds, and one put together by hand from ser_traits'],
        outside=['deeper nesting'],
        assumptions=['recording storage: buffer address is one concrete 64-bit number'],
    ),
    'C19': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of random access on a buffer of arbitrary contents and position, over real memory',
        symbolic=['contents of the buffer and of what is written', 'index of the byte compared (any)', 'position'],
        bounds=['buffers of up to 48 bytes, every legal position of each of 8 element types and slices of up to 3, several configurations',
                'large writes (261 to 1048 bytes, as slices and as one value) of a fixed pattern with some arbitrary bytes, at one position each'],
        outside=['larger buffers and elements'],
        assumptions=[],
    ),
    'C22': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of the same serialization into storages of different histories, over real memory and over recording storage',
        fake_memory=True,
        symbolic=['all scalar contents', 'capacity given to with_capacity and new_with in imaginary memory (any 64-bit value)', 'state of recording storage'],
        bounds=['value shapes of harness/src/rec.rs and shapes.rs, capacities 0 to 512 which put growth at each push, each constructor, owned, borrowed, cleared'],
        outside=['longer histories, larger values'],
        assumptions=['recording storage: buffer address is one concrete 64-bit number'],
    ),
    'C13': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of big integers through all serializers, compared with the vector of digits, over real memory and over recording storage',
        fake_memory=True,
        symbolic=['all digits', 'capacity of the vector of digits', 'number of digits in q_like_uint_any', 'position and capacity of the output (any legal 64-bit values) in q_rec_*'],
        bounds=['0 to 8 digits (16 in q_like_uint_any), each sign, alone and in tuples, boxes, vectors, arrays and options'],
        outside=['longer numbers'],
        assumptions=['num-bigint 0.4.3 as in the lock file', 'recording storage: buffer address is one concrete 64-bit number'],
    ),
    'C20': dict(
        title='bounded symbolic execution (Kani/CBMC, SAT) of zero-sized values and empty slices, from an arbitrary storage state and as parts of values',
        fake_memory=True,
        symbolic=['capacity and position (any legal 64-bit values)', 'number of zero-sized elements (any 64-bit value)'],
        bounds=['9 configurations, zero-sized types of alignment 1 to 64 (up to what the configuration allows)', 'whole values of boxes, vectors, arrays, tuples and options of zero-sized values through all serializers'],
        outside=['zero-sized types with a greater alignment than the configuration allows', 'types not listed'],
        assumptions=[],
    ),
}

MIR = ('Second engine: MIR of the current source is executed symbolically path by path and decided by z3 (bit vectors) for all 64-bit configurations, '
       'positions, capacities, lengths, addresses, and element sizes and alignments at once, with and without debug assertions')
CHECKS['C21'] = dict(
    title='symbolic execution of the compiler\'s intermediate representation (MIR) of the compile-time checks and constructors, decided by z3 for all configurations',
    kani=False, smt=True,
    symbolic=['all four configuration parameters (any 64-bit values)', 'capacity asked for'],
    bounds=['none on the values: 64-bit targets; all paths of the checks and of the constructors of AlignedVec and of the three serializers',
            'in addition 20 boundary configurations are compiled with the pinned compiler and compared'],
    outside=['storages other than AlignedVec', '32-bit targets'],
    assumptions=['constants named in a function are evaluated for every instance of it, and a panic in one is a compile error',
                 'MIR of a newer compiler than the pinned one'],
)
CHECKS['C23'] = dict(
    title='symbolic execution of the compiler\'s intermediate representation (MIR) of the pushing functions, decided by z3 for all configurations and types',
    kani=False, smt=True,
    symbolic=['configuration', 'size and alignment of the type', 'position, capacity, length'],
    bounds=['none on the values: 64-bit targets; all paths of push, push_slice, push_empty, push_empty_slice and align_for'],
    outside=['zero-sized types', 'unsafe functions which document the requirement', 'storages other than AlignedVec'],
    assumptions=['constants named in a function are evaluated for every instance of it, and a panic in one is a compile error',
                 'MIR of a newer compiler than the pinned one'],
)
for p in ('C06', 'C07', 'C08', 'C09', 'C10', 'C15', 'C19', 'C20'):
    CHECKS[p]['smt'] = True
    CHECKS[p]['title'] += '; and symbolic execution of MIR decided by z3 for all configurations'
    CHECKS[p]['bounds'].append({
        'C10': MIR + ': for clear()',
    }.get(p, MIR) + '. One operation from any state which satisfies the invariant, which it restores, so sequences of operations are covered by induction')

NOT_APPLICABLE = {}
CHECKS['C24'] = dict(
    title='symbolic execution of the compiler\'s intermediate representation (MIR) of everything that allocates, with an allocator which may fail, decided by z3 for all configurations and states',
    kani=False, smt=True,
    symbolic=['whether each request to the allocator fails', 'all four configuration parameters, size and alignment of the element type', 'capacity, position, buffer address, length'],
    bounds=['none on the values: 64-bit targets; all paths of with_capacity, with_capacity_unchecked, reserve, shrink_to_fit and the five pushes, with and without debug assertions'],
    outside=['storages other than AlignedVec', 'allocations of the serializers for their own records', 'what the program does when the failure is reported'],
    assumptions=['handle_alloc_error does not return', 'MIR of a newer compiler than the pinned one'],
)
