P = [
dict(id='C04', title='Strings behave as byte sequences under every operation history',
 statement='After any sequence of assign, append, insert, remove, replace, truncate, resize, reserve, search and compare operations, on a string that is stored inline, on the heap or shared with copies, the string holds exactly the bytes the operations denote and stays null terminated. Copies made earlier never change, a failed call leaves the string as it was, and no operation touches memory outside of the string.',
 over=['inputs', 'histories', 'fault_sequences'], q='all byte contents, positions and lengths within the bounds (strings up to a few bytes around the inline capacity and the first heap capacities), sequences of up to 2 operations from every representation, every allocation failure',
 why='The unit test walks one history with fixed literals; inline/heap/shared transitions, aliasing and allocation failure at every point are never combined.',
 files=['blend2d/core/string.cpp', 'blend2d/core/string.h', 'blend2d/core/object.cpp'], mech=[('modify_and_copy / modify_op', 'blend2d/core/string.cpp'), ('inline (SSO) vs dynamic representation', 'blend2d/core/object_p.h')],
 note='Bounded: up to two operations (one modelled prefix state), lengths across the SSO limit and first growth step. Contents are symbolic, positions and lengths are case split. Trusts clang IR and the engine; format functions are outside.'),
dict(id='C05', title='Dynamic arrays behave as value sequences under every operation history',
 statement='After any sequence of array operations, on an inline, heap, shared or external-data array of integers, floats or reference counted objects, the array holds exactly the item sequence the operations denote and copies made earlier never change. Items that are reference counted are retained and released exactly once, a failed call leaves the array as it was, and no operation touches memory outside of its storage.',
 over=['inputs', 'histories', 'fault_sequences'], q='all item values, positions and counts within bounds, item sizes 1, 4 and 8 bytes and object items, sequences of up to two operations from each representation, every allocation failure',
 why='Tests use one or two hand-picked histories per type; overlap of representation, capacity and position edge cases is combinatorial.',
 files=['blend2d/core/array.cpp', 'blend2d/core/array.h', 'blend2d/core/array_p.h'], mech=[('modify_op / insert / replace', 'blend2d/core/array.cpp'), ('item reference counting', 'blend2d/core/array.cpp')],
 note='Bounded: arrays up to about a dozen items, up to two operations after a chosen representation. Item values are symbolic, positions case split.'),
dict(id='C06', title='Bit sets behave as sets of integers under every operation history',
 statement='After any sequence of bit, range and word operations, on a small range, small dense or segmented bit set, the set contains exactly the integers the operations denote and every query (membership, cardinality, ranges, comparison, iteration) agrees with that content. Copies never change, failed calls leave the set as it was, and no operation touches memory outside of its storage.',
 over=['inputs', 'histories', 'fault_sequences'], q='all word patterns, ranges and bit indexes within the bounds over inline range, inline dense, heap dense and heap range-segment representations, sequences of up to two operations, every allocation failure',
 why='Unit tests check chosen bit patterns; segment splitting and merging depends on the relative position of ranges and word contents.',
 files=['blend2d/core/bitset.cpp', 'blend2d/core/bitset.h', 'blend2d/core/bitset_p.h'], mech=[('segment iterators and range splitting', 'blend2d/core/bitset.cpp'), ('inline dense/range encodings', 'blend2d/core/bitset.cpp')],
 note='Bounded: sets over the first few hundred bit positions plus word boundaries at large offsets, up to two modifying operations; word contents symbolic, boundaries case split. Entries that run out of their time budget are reported as incomplete.'),
dict(id='C07', title='Bit arrays behave as fixed length bit sequences under every history',
 statement='After any sequence of bit array operations (assign, resize, append, fill, set, clear, replace and word operations), inline, on the heap or shared, the array holds exactly the bits the operations denote and every query agrees with that content. Copies never change, failed calls leave the array as it was, and no operation reads or writes outside of its storage.',
 over=['inputs', 'histories', 'fault_sequences'], q='all word contents and all bit positions and lengths within the bounds, inline, heap and shared representations, up to two operations, every allocation failure',
 why='The unit test performs a few sequences on fixed sizes; masks at every word boundary combination and shared or failing reallocation are not reached.',
 files=['blend2d/core/bitarray.cpp', 'blend2d/core/bitarray.h', 'blend2d/core/bitarray_p.h', 'blend2d/support/bitops_p.h'], mech=[('word masks and combine helpers', 'blend2d/support/bitops_p.h'), ('make_mutable_for_modify_op', 'blend2d/core/bitarray.cpp')],
 note='Bounded: up to a few words, up to two operations; bit contents symbolic, positions and lengths case split.'),
dict(id='C22', title='Variants convert, compare and own values exactly',
 statement='A variant holds the value assigned last, whatever its type. Converting it to a number succeeds exactly when nothing is lost and otherwise saturates or truncates towards zero and reports it; two numeric variants are equal exactly when they stand for the same number, symmetrically and across types; colours come back unchanged, except that a negative alpha is zero. Copies are independent, moves transfer ownership, and every boxed object is released exactly once.',
 over='All 64-bit integers, all doubles (split by exponent) and all colour bit patterns for every pair of types; histories of 3 operations over two variants and seven kinds of content.',
 q='Bit-exact conversion and equality tables; ownership for bounded histories.',
 why='Wrong cases are single points of the 64-bit range (2^53+1, 2^63) or bit patterns that look like an object.',
 files=['blend2d/core/var.cpp', 'blend2d/core/var.h', 'blend2d/core/var_p.h', 'blend2d/core/object.cpp', 'blend2d/core/object_p.h', 'blend2d/core/object.h'],
 mech=[('numeric conversion', 'blend2d/core/var.cpp'), ('equality across types', 'blend2d/core/var.cpp'), ('object marker', 'blend2d/core/object.h')],
 note='Out-of-range float to integer conversion of the library itself uses the x86 result. Bounded histories.'),
]
