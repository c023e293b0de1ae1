P=[
dict(id='C26', title='Internal ordered, hashed and linked containers and algorithms are exact',
 statement='The ordered tree, linked list, hash map and bit array used inside of the library hold exactly the elements inserted and not yet removed: lookup, order, size and iteration agree with an abstract set, sequence or bit vector after every sequence of insertions and removals, and the tree stays ordered and balanced. Sorting returns an ordered permutation of its input and searching returns the documented position, for all inputs. Degraded growth after a failed allocation changes no result.',
 over='All key orders of up to 5 symbolic keys and histories over 12 node trees; list histories of 5 operations; hash maps across the embedded table and the first growth steps; symbolic bit words; all arrays of small size over a small domain.',
 q='Refinement of abstract containers for bounded histories; functional correctness of sort and search for bounded sizes.',
 why='Rebalancing cases, bucket migration and partial words are reached only by particular orders, which randomized unit tests sample.',
 files=['blend2d/support/arenatree_p.h', 'blend2d/support/arenalist_p.h', 'blend2d/support/arenahashmap.cpp', 'blend2d/support/arenahashmap_p.h', 'blend2d/support/arenabitarray_p.h', 'blend2d/support/algorithm_p.h', 'blend2d/support/bitops_p.h'],
 mech=[('red-black insertion and removal', 'blend2d/support/arenatree_p.h'), ('reciprocal modulo and rehash', 'blend2d/support/arenahashmap.cpp'), ('quick sort', 'blend2d/support/algorithm_p.h')],
 note='Bounded sizes; hash codes of the history checks come from 31 classes, the bucket index is decided for 16-bit ranges of hash codes and the table sizes reachable with up to 60 nodes.'),
dict(id='C27', title='Scratch allocators hand out disjoint, aligned, in-bounds regions',
 statement='Regions obtained from the scratch allocators are inside of memory obtained from the system, aligned as requested, at least as large as requested and disjoint from every live region, for every history of allocating, saving and restoring state, clearing, resizing and releasing, and for every pattern of failing system allocations. Memory from the zeroed allocator is zero whenever its users zero what they release, its reported use is exact, and everything is returned to the system in the end.',
 over='Symbolic request sizes, sizes equal to or just around the remaining room, impossible sizes, several alignments; histories of 3 operations (arena) and 4 operations plus 256 fragmentation patterns (zeroed memory); failing allocations.',
 q='Invariant of all live regions after every operation of a bounded history.',
 why='The failing cases need a block that is exactly full, or an alignment that crosses the end of a block.',
 files=['blend2d/support/arenaallocator.cpp', 'blend2d/support/arenaallocator_p.h', 'blend2d/support/zeroallocator.cpp', 'blend2d/support/zeroallocator_p.h', 'blend2d/support/bitops_p.h'],
 mech=[('block switch and growth', 'blend2d/support/arenaallocator.cpp'), ('state restore', 'blend2d/support/arenaallocator_p.h'), ('area search window', 'blend2d/support/zeroallocator.cpp')],
 note='Bounded histories. Concurrent use of the zeroed allocator is guarded by one mutex and is not explored.'),
]
