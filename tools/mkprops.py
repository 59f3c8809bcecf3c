#!/usr/bin/env python3
# Writes properties.jsonl. Edit here, not there.
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p('M01', 'Memory blocks and views keep their bytes and their ownership',
  "Through any history of linking, managing, copying, assigning, moving, swapping, resizing, reserving, shrinking, inserting, erasing and filling, a memory block or view holds exactly the bytes those operations define, and an operation on one object changes no other owning block. "
  "A view refers to the caller's memory and never frees it; a block that grows, inserts into or erases from linked memory first takes its own copy and leaves the caller's bytes unchanged. "
  "Each piece of owned memory is released exactly once, and nothing outside the blocks is read or written.",
  ['histories', 'inputs'], 'every finite history of operations on several block, view and string-like objects sharing caller memory, every size',
  'The tests run one scripted history over blocks of a few sizes; ownership errors show only after particular sequences (link after own, move into a linked block, shrink then grow), and an extra or missing free leaves the printed output unchanged.',
  ['memblock.cc', 'memblock.h', 'memlink.cc', 'memlink.h', 'cmemlink.cc', 'cmemlink.h'],
  [('capacity zero means linked; reserve copies linked data before the first growth', 'memblock.cc reserve, memblock.h is_linked'),
   ('deallocate frees only what has capacity; unlink gives ownership up', 'memblock.cc deallocate, unlink'),
   ('insert and erase rotate the bytes in place', 'memlink.h insert, erase')],
  ['size, begin, capacity, is_linked and bytes of each object after each public call', 'allocator calls (address sanitizer, live heap bytes)'],
  [('_data,_size', 'where the object points', 'cmemlink.h'), ('_capacity', 'owned bytes, 0 when linked', 'memblock.h')])

p('C01', 'A vector is exactly the sequence its operations define',
  "After any history of constructing, assigning, copying, moving, swapping, resizing, reserving, shrinking, inserting (one, n, a range, a list, in place), erasing, pushing, popping, linking and copying a link, a vector holds exactly the sequence of values those operations define, with the reported size, emptiness, capacity at least the size, and access by index, from the front and from the back agreeing. "
  "Each inserting or erasing call returns the position of the first inserted element or of the element after the erased ones. "
  "Other vectors, and memory a vector was linked to, are never changed by an operation that makes the vector its own copy.",
  ['histories', 'inputs'], 'every finite history over several vectors, every position and count, several element sizes including class types',
  'The tests print a few hand-picked vectors; positions at both ends, empty ranges, growth across each capacity boundary and operations after a shrink, move or link are not combined.',
  ['uvector.h', 'memblock.cc', 'umemory.h', 'ualgobase.h', 'ualgobase.cc'],
  [('reserve with power-of-two growth, hole opened by rotation, element construction in the hole', 'uvector.h insert_hole, append_hole; memblock.cc insert')],
  ['public accessors after each call'])

p('C02', 'Container elements are constructed and destroyed exactly once',
  "Over any history of operations on vectors, lists, sets, multisets, maps and owning pointers inside them, every element object is constructed before it is used and destroyed exactly once, at the latest when its container is destroyed, cleared or deallocated. "
  "No operation assigns to, reads or destroys an object that is not alive, and the number of live objects always equals the number of elements held. "
  "Resources owned by elements, such as strings inside a container, are all released at the end.",
  ['histories'], 'every finite history over containers of elements with observable construction, copying, moving and destruction',
  'The tests use element classes with no observable lifetime or count only a few constructions; a double or missing destruction prints nothing.',
  ['uvector.h', 'umemory.h', 'ulist.h', 'uset.h', 'umultiset.h', 'umap.h', 'umultimap.h'],
  [('placement construction into holes, destroy before erase, destroy_all in destructors of non-linked vectors', 'uvector.h'),
   ('uninitialized_* and destroy', 'umemory.h')],
  ['constructor, copy, move, assignment and destructor events of an instrumented element', 'live heap bytes'])

p('C03', 'Sets and multisets stay sorted and answer by key',
  "After any history of inserting, emplacing, erasing by key, position or range, assigning, merging in ranges, swapping, moving and clearing, iteration over a set or multiset is in ascending order, a set holds each inserted and not erased key once, and a multiset holds it as many times as it was inserted and not erased. "
  "Finding, counting, bounds and equal ranges return what that collection of keys defines, including for absent keys and empty containers. "
  "Insertion reports whether the key was new and where it is.",
  ['histories', 'inputs'], 'every finite history and every key',
  'The tests insert one small fixed collection; duplicate keys, erasing every copy, keys outside the range and empty containers are sampled or absent.',
  ['uset.h', 'umultiset.h', 'ualgo.h', 'uvector.h'],
  [('lower_bound/upper_bound into a sorted vector on each insertion', 'uset.h insert, umultiset.h insert')],
  ['iteration order, returned iterators and counts'])

p('C04', 'Maps and multimaps bind keys to the values last given',
  "After any history of insertion, subscripting, emplacing, erasing by key, position or range, assigning, swapping, moving and clearing, a map iterates its keys in ascending order, each once, bound to the value those operations define; a multimap keeps every inserted pair, ordered by key. "
  "Lookup, counting, bounds, equal ranges and checked access return what that collection defines. "
  "Inserting an existing key into a map reports it and does not create a second entry.",
  ['histories', 'inputs'], 'every finite history and every key and value',
  'The tests build two small maps; re-insertion, insertion around existing keys in every position, absent keys and multimap duplicates are sampled or absent.',
  ['umap.h', 'umultimap.h', 'uvector.h', 'ualgo.h'],
  [('binary search on the key in a sorted vector of pairs', 'umap.h, umultimap.h')],
  ['iteration, lookups, returned iterators'])

p('C05', 'Lists, deques, queues and stacks deliver elements in order',
  "A queue delivers elements first in first out, a stack last in first out, and a deque or list keeps exactly the order its front, back and positional insertions and removals define, for any interleaving of pushes and pops, including after being emptied and refilled. "
  "Splicing moves the given elements of the source to the given position, removal takes out exactly the matching elements, merging two sorted lists gives the sorted union, and reversing, sorting and removing duplicates act as on the abstract sequence. "
  "Size and emptiness always agree with the elements that can still be taken out, and copies and swaps preserve all of this.",
  ['histories', 'inputs'], 'every finite interleaving of operations',
  'The tests push and pop one fixed sequence each; the queue reclaims space only after particular push/pop interleavings, and splice and merge are tried once.',
  ['ulist.h', 'uqueue.h', 'ustack.h', 'uvector.h'],
  [('queue keeps popped elements until the front passes half of the storage', 'uqueue.h pop, push'), ('list operations on a vector', 'ulist.h')],
  ['size, front, back, iteration after each call'])

p('C06', 'Heaps and priority queues always yield the greatest element',
  "Making a heap of a range, pushing onto it, popping from it and sorting it preserve the collection of elements, keep or establish the heap property with respect to the given ordering, and pop moves the greatest element to the end. "
  "A priority queue, with the default or a given ordering and from any initial contents, yields its elements in descending order of that ordering, for any interleaving of pushes and pops. "
  "Testing whether a range is a heap is right for every range.",
  ['histories', 'inputs'], 'every interleaving of pushes and pops, every range with duplicates, either ordering',
  'The tests heapify one sequence with the default ordering.',
  ['uheap.h'], [('trickling children up and down the implicit tree', 'uheap.h trickle_down_heap, push_heap, pop_heap, make_heap')],
  ['range contents after each call'])

p('C07', 'A bitset is exactly the set of bits its operations define',
  "For any width, any history of setting, clearing and flipping single bits, ranges or all bits, of bitwise combination and complement, of conversion from and to numbers and from and to text, leaves exactly the bits those operations define. "
  "Counting, testing any or none, comparing and printing depend only on the bits within the width.",
  ['histories', 'inputs'], 'every history, widths that are and are not multiples of the storage word, every bit position',
  'The tests use two widths and one sequence of operations.',
  ['ubitset.h', 'ubitset.cc', 'uspecial.h'],
  [('word index and mask per bit, whole-word operations', 'ubitset.h')], ['bits, count, any, none, ==, value and string conversions'])

p('C08', 'Fixed-size arrays, tuples and matrices compute elementwise',
  "For every size and element type, constructing, assigning, filling, comparing and swapping fixed-size arrays and tuples, and adding, subtracting, multiplying and dividing them by each other or by one value, give the elementwise result modulo the element width. "
  "Specialised (vectorised) sizes give the same results as the general case. "
  "Matrix rows and columns, transposition, identity and the product of matrices and of a vector with a matrix follow their algebraic definitions.",
  ['inputs', 'configurations'], 'every operand value, every size including those with machine-specific specialisations',
  'The tests try a few values per operation, with matrices whose symmetry hides permuted elements.',
  ['utuple.h', 'uarray.h', 'umatrix.h', 'ulaalgo.h', 'simd.h'],
  [('per-size template and assembly specialisations', 'utuple.h, simd.h, ulaalgo.h')], ['elements of the result'])

p('S01', 'A string is exactly the text its editing operations define',
  "After any history of constructing, linking, copying, moving, assigning, appending, pushing, inserting, erasing, replacing, resizing, reserving, clearing, shrinking, swapping and formatting, a string holds exactly the bytes those operations define, with size, emptiness, front, back, indexing and substrings agreeing. "
  "A string that owns its text is always followed by a terminating zero, and editing a string that refers to someone else's text never changes that text. "
  "Editing one string never changes another string that holds its own copy.",
  ['histories', 'inputs'], 'every finite history, every position and length, strings that refer to literal text and strings that own it',
  'The tests print the result of one operation of each kind at one or two positions.',
  ['ustring.h', 'ustring.cc', 'memblock.cc'],
  [('one extra byte of capacity holds the terminator', 'ustring.h minimumFreeCapacity, ustring.cc resize'), ('linked text is copied on growth', 'memblock.cc reserve')],
  ['bytes, size, terminator, linked memory after each call'])

p('S02', 'String searching and comparing follow the text',
  "For every text, pattern and starting position, forward and backward searches for a character, a substring, and any or none of a set of characters return the first or last matching position, or the not-found value. "
  "Comparison of strings and of string ranges is a total order, lexicographic by unsigned byte value with a proper prefix ordered first, and equality and the ordering operators agree with it; equal strings have equal hashes.",
  ['inputs'], 'every text, pattern and position, including empty ones, patterns longer than the text, and repeated and overlapping patterns',
  'The tests search one sentence for a handful of patterns.',
  ['ustring.cc', 'ustring.h'], [('find skips by the last occurrence of the pattern end', 'ustring.cc find, rfind, find_first_of ...'), ('memcmp then length', 'ustring.cc compare')],
  ['returned positions and comparison signs'])

p('S03', 'UTF-8 text and wide characters convert both ways without loss',
  "Every sequence of characters appended, inserted or assigned to a string as wide characters, or produced by an encoding output iterator, is stored as its UTF-8 encoding, and reading the string character by character gives the same sequence back. "
  "Character counts, byte counts per character and the byte position of the n-th character agree with that encoding, at every length boundary. "
  "Moving a decoding iterator forward by one or by n positions visits the characters in order, and the distance between two positions is the number of characters between them.",
  ['inputs', 'histories'], 'every sequence of characters from each encoding length, and every position',
  'The tests encode one text of a few characters.',
  ['utf8.h', 'ustring.h', 'ustring.cc'], [('leading byte gives the length, continuation bytes carry six bits', 'utf8.h')], ['bytes, decoded characters, lengths'])

p('B01', 'Binary streams never pass their bounds and report every shortfall',
  "For any buffer and any sequence of reads, writes, skips, seeks and alignments, the position of a binary stream stays within its buffer, the remaining size agrees with it, and each successful operation transfers exactly the bytes at the position and advances by their number. "
  "An operation that would pass the end transfers nothing, leaves the position unchanged and reports the failure, as a state flag or as an exception when that was requested. "
  "Reading a zero-terminated string, alignment and the state flags follow the same rule.",
  ['histories', 'inputs', 'fault_sequences'], 'every history over every buffer size and every operand size, with and without exceptions enabled',
  'The tests read back one well-formed buffer; truncation at each byte is not tried.',
  ['mistream.h', 'mistream.cc', 'mostream.h', 'uios.h', 'ustdxept.cc'],
  [('verify_remaining before each transfer', 'mistream.cc, mostream.h'), ('iostate and exception mask', 'uios.h')], ['pos, remaining, state, bytes, exceptions'])

p('B02', 'What is written to a binary stream reads back equal',
  "For every value built from numbers, booleans, strings, memory blocks, pairs, arrays, tuples, bitsets and containers of these, the number of bytes written equals the size announced beforehand, and reading those bytes gives back an equal value and consumes exactly them. "
  "This holds for several values written in sequence with alignment, and for each prefix of the bytes reading reports the shortage rather than giving a wrong value silently. "
  "Exceptions written to a stream read back with the same content.",
  ['inputs', 'histories', 'fault_sequences'], 'every nesting and size of streamable values, every sequence of them, every truncation point',
  'The tests round-trip one value of a few kinds, never truncated.',
  ['uctrstrm.h', 'strmsize.h', 'mistream.h', 'mostream.h', 'uspecial.h', 'upair.h', 'cmemlink.cc', 'memblock.cc', 'ustring.cc', 'uexception.cc', 'ustdxept.cc'],
  [('size prefix then elements then padding', 'uctrstrm.h container_write/container_read'), ('stream_size mirrors write', 'strmsize.h, uctrstrm.h')], ['bytes, positions, values read'])

p('T01', 'Text output writes exactly the formatted text',
  "For any sequence of values, characters, strings, containers and format settings, the text written to a string stream is the concatenation of each value's rendering under the base, width, fill, alignment, precision, sign and case settings then in force; settings stay until they are changed, the width applies to numbers, and the calls that set flags return the previous ones. "
  "Text is neither lost, duplicated nor truncated when it crosses the buffer size: output into a caller's buffer never writes outside it, and text that does not fit continues, together with what was written before, in memory of the stream's own. "
  "A stream that has failed may take only a prefix of what it is given, and then reports that.",
  ['histories', 'inputs', 'configurations'], 'every sequence of output operations, settings and lengths, around every buffer boundary',
  'The tests print one line per feature into a large buffer.',
  ['sostream.h', 'sostream.cc', 'uctrstrm.h', 'uiosfunc.h'], [('format string built from flags; overflow grows the owned buffer', 'sostream.cc fmtstring, overflow, vformat')], ['text, size, state'])

p('T02', 'Text input reads tokens, lines and numbers as delimited',
  "For any text and any sequence of extractions from a string stream, each extraction of a word, character, number, boolean or line returns the value the next delimited token denotes and leaves the position just after what it consumed: a word or line with the delimiter that ends it, a quoted word with its quotes and escapes resolved, a number up to the first character that can not continue it in the base in force. A token that is not a number reads as zero and stays. "
  "Unformatted reads, peeking, putting back, ignoring up to a delimiter and the count of the last unformatted read follow the same position exactly. "
  "An extraction that reaches the end of the text takes what there is, sets the end and failure states, or throws when asked to, and never reads or moves past the end.",
  ['histories', 'inputs'], 'every text, delimiter set and sequence of extractions, including texts ending inside a token',
  'The tests parse one well-formed text.',
  ['sistream.h', 'sistream.cc'], [('skip_delim then collect to the next delimiter', 'sistream.cc')], ['values, position, state, gcount'])

p('F01', 'Files opened through the library are read, written and closed faithfully',
  "For any history of opening, reading, writing, seeking, syncing, resizing and closing files, every successful read or write transfers exactly the requested bytes at the file position even when the system transfers less at a time or is interrupted, and the file holds exactly the bytes written. "
  "Every system failure is reported once, as state or as an exception carrying the error and file name when requested, and leaves the object usable. "
  "Each descriptor opened or attached is closed exactly once by its owner, never used after closing, and never leaked.",
  ['histories', 'fault_sequences'], 'every history with every placement of short transfers, interruptions and errors returned by the system',
  'The tests write and read one small file; the system never interrupts or fails there.',
  ['fstream.cc', 'fstream.h', 'uexception.cc', 'memblock.cc', 'cmemlink.cc'], [('loop over partial transfers, retry on interruption', 'fstream.cc read, write, close'), ('set_and_throw', 'fstream.cc')], ['system calls made, file contents, state, exceptions'])

p('F02', 'Buffered file streams lose, duplicate and reorder no bytes',
  "For any sequence of formatted and raw writes and flushes on a buffered output file, the bytes handed to the system, in order, are exactly the text written, all of them once the stream is flushed, closed or destroyed, whatever the sizes and however partial the system's transfers. "
  "For any sequence of extractions, reads and seeks on a buffered input file, the bytes delivered are exactly the file's bytes in order, independent of how they arrive in pieces, and end of file is reported when and only when they are exhausted.",
  ['histories', 'fault_sequences'], 'every sequence of operations, every size around the buffer size, every split of the transfers',
  'The tests use texts far smaller than the buffer and a system that always transfers everything.',
  ['ofstream.cc', 'ofstream.h', 'sostream.cc', 'sistream.cc'], [('overflow flushes or grows; underflow shifts and refills', 'ofstream.cc')], ['system calls made, bytes delivered, state'])

p('P01', 'Owning pointers destroy what they own exactly once',
  "For any history of constructing, copying, moving, assigning (also to itself), resetting, releasing, swapping and destroying unique, shared and automatic pointers, scope guards and unique resources, the object is destroyed exactly once, when its last owner lets go of it, and never while an owner still refers to it. "
  "A released object is not destroyed; the use count of a shared object equals the number of its owners. "
  "A scope guard or unique resource runs its action exactly once unless released, also when moved.",
  ['histories'], 'every finite history over several pointers to several objects',
  'The tests construct and drop a few pointers in straight-line code.',
  ['umemory.h'], [('reference count in a shared base; reset before overwriting', 'umemory.h shared_ptr, unique_ptr, auto_ptr, scope_exit, unique_resource')], ['destructor events, get, use_count, unique, bool'])

p('P02', 'Shared ownership and atomics hold under every thread schedule',
  "When several threads copy, assign and drop their own shared pointers to the same object, under every schedule the object is destroyed exactly once, after the last owner let go, and never earlier. "
  "Each atomic operation (load, store, exchange, compare-exchange, add, subtract, and, or, xor, increment, decrement, flag test-and-set and clear) takes effect as one indivisible step returning the value its definition gives.",
  ['schedules'], 'every interleaving of two to four threads',
  'The tests are single-threaded.',
  ['uatomic.h', 'umemory.h'], [('compiler atomic builtins', 'uatomic.h'), ('atomic reference count', 'umemory.h shared_ptr')], ['results of each atomic call; destructor events'])

p('A01', 'Searching and comparing algorithms return the defined position',
  "For every range, value, predicate and ordering, finding, counting, searching for a subrange or a run, mismatching, comparing, minimum and maximum, and the container forms of these, return the position, count or truth value their definitions give, including for empty ranges and for patterns longer than the range. "
  "They change no element.",
  ['inputs'], 'every range up to the bound over a small alphabet, every pattern, every predicate',
  'The tests call each once or twice on one sequence.',
  ['ualgo.h', 'upredalgo.h', 'uctralgo.h', 'ualgobase.h'], [('one loop per algorithm', 'ualgo.h, upredalgo.h')], ['return values'])

p('A02', 'Copying, filling, replacing and reordering algorithms are exact',
  "For every range, count, value and predicate, the copying, moving, filling, generating, transforming, replacing, removing, deduplicating, reversing, rotating, partitioning, swapping and shuffling algorithms, and the container forms of these, produce exactly the elements their definitions give, return the defined end position, and touch nothing outside the destination. "
  "Stable forms keep the relative order; in-place and copying forms agree.",
  ['inputs'], 'every range up to the bound over a small alphabet, every count, position and predicate, several element sizes',
  'The tests call each once or twice on one sequence.',
  ['ualgo.h', 'upredalgo.h', 'uctralgo.h', 'ualgobase.h'], [('one loop per algorithm', 'ualgo.h, upredalgo.h, ualgobase.h')], ['contents and guard zones of source and destination, return values'])

p('A03', 'Sorting, searching sorted ranges, merging and set algebra are right',
  "For every range and ordering, sorting gives the sorted permutation, stable where promised; partial sorting and selecting the n-th element place the right elements; bounds, equal ranges and binary search on sorted ranges return the defined positions and truth values. "
  "Merging, set union, intersection, difference, symmetric difference and inclusion give the defined sorted result with the defined multiplicities and end position, elements of the first range preceding equal ones of the second. "
  "Stepping through permutations visits the next or previous one and reports wrapping.",
  ['inputs'], 'every range up to the bound with duplicates distinguishable by a tag, default and custom ordering',
  'The tests sort one sequence and search it for a few values.',
  ['ualgo.h', 'upredalgo.h', 'uctralgo.h'], [('qsort-based and merge-based sorts, binary search', 'ualgo.h, upredalgo.h')], ['contents, return values'])

p('A04', 'Raw block copying, filling and rotating are exact at every size',
  "For every element size, alignment, offset and count, the fast block operations for copying (also overlapping in the promised direction), filling, rotating and swapping move exactly the requested elements to the requested place. "
  "Not one byte before or after the destination is changed.",
  ['inputs', 'configurations'], 'every count up to several cache lines, every alignment of source and destination, element sizes one to eight and class types',
  'The tests copy and fill a few sizes at one alignment.',
  ['ualgobase.h', 'ualgobase.cc'], [('machine-specific unrolled copy and fill', 'ualgobase.cc')], ['bytes of the destination and its surroundings'])

p('A05', 'Numeric algorithms and integer utilities follow their definitions',
  "For every range of integers, accumulating, inner products, partial sums, adjacent differences, and generating sequences give the arithmetic results modulo the width, the defined end position, and powers and products likewise. "
  "Aligning up and down, rounding division, greatest common divisor, least common multiple, bit rotation, byte swapping, highest set bit and next power of two satisfy their definitions for every operand in their domain.",
  ['inputs'], 'every operand in the domain, boundary values of every width',
  'The tests try a few operands.',
  ['unumeric.h', 'uutility.h', 'uratio.h'], [('direct loops; inline assembly for some', 'unumeric.h, uutility.h')], ['return values, written elements'])

p('I01', 'Iterator adaptors and function objects behave as what they adapt',
  "Walking a range through a reverse, moving, index or inserting iterator, by steps, by offsets, by differences and by comparison, visits or inserts exactly the elements the adapted range defines, in the defined order. "
  "Function objects, their negations, bindings, compositions and member-function forms, and wrapped callables return what the wrapped operation returns for every argument.",
  ['inputs', 'histories'], 'every range, offset and walk, every argument',
  'The tests walk one range forward.',
  ['uiterator.h', 'ufunction.h'], [('thin wrappers', 'uiterator.h, ufunction.h')], ['elements visited, results'])

p('E01', 'Exceptions carry and print what happened',
  "Every exception thrown or constructed by the library reports its own type name, the arguments it was given and the system error text where it has one, in the format requested, and never writes past its buffers for any argument. "
  "Copies, assignments, what is caught and copies through streams keep that content and the trace of where it was made; each is caught as exactly its own class and those it derives from. "
  "Error codes and conditions have the numbers and messages of the platform, and readable names of types are those of the types, within the buffer given.",
  ['inputs'], 'every exception type, every argument including very long names, every format',
  'The tests throw each exception once with short arguments.',
  ['uexception.h', 'uexception.cc', 'ustdxept.h', 'ustdxept.cc', 'bktrace.h', 'bktrace.cc', 'uerror.h'], [('fixed size name buffers and format strings', 'uexception.cc, ustdxept.cc')], ['what, info, name, read back content'])

p('D01', 'Durations, time points and rational units convert exactly',
  "Arithmetic and comparison of durations and time points in any units equal the exact integer arithmetic in their common unit, and conversion to a coarser unit truncates toward zero while conversion to a finer one is exact. "
  "Rational units reduce to lowest terms and add, subtract, multiply, divide and compare as rationals.",
  ['inputs', 'configurations'], 'every count within range, every pair of units',
  'The tests print a few conversions.',
  ['uchrono.h', 'uratio.h'], [('compile-time ratio arithmetic', 'uratio.h, uchrono.h')], ['counts'])

p('Z01', 'Optimised code stays small and fast',
  "The library's containers and algorithms keep the documented low code size and do not regress in speed.",
  ['configurations'], 'every instantiation', 'Tests do not measure it.',
  ['ualgobase.cc'], [('unrolled copies, shared non-template code', 'ualgobase.cc, memblock.cc')], ['code size, time'])
p('Z02', 'Floating point text and arithmetic are accurate',
  "Floating point values print, parse and compute with the accuracy of the platform for every value.",
  ['inputs'], 'every floating point value', 'The tests try a few values.',
  ['sostream.cc', 'sistream.cc', 'simd.h'], [('printf/strtod and SSE instructions', 'sostream.cc, sistream.cc, simd.h')], ['digits'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
