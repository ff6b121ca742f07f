HOW={
'P01':dict(what='every function of `bits` against its definition, each an equality of two 64-bit terms for all words and arguments',oracle='bit-by-bit loops written in the harness (population count by adding bits, i-th one by scanning)',s=30,why='a wrong table entry or mask shows up for a handful of the 2^64 words only (the defect in cnt32 needed 16 ones in alternating nibbles)'),
'P02':dict(what='read-after-write and frame condition of every cell access path (operator[], reference proxies, get_int/set_int, iterators, raw bit pointers, unary reads)',oracle='an untouched copy of the memory: the written cell equals the value masked to its width, every other bit equals its old value',s=45,why='cells crossing word borders at particular offset/width pairs with particular neighbours'),
'P03':dict(what='histories of container operations on two vectors, after each of which all elements, sizes, widths, comparisons and storage independence are compared',oracle='arrays of 64-bit integers held by the harness',s=70,why='needs combinations of width, old content of the padding and order of operations'),
'P04':dict(what='util:: functions on int_vector and bit_vector',oracle='scans of the elements / bits',s=35,why='unused bits behind the end, words entirely 0 or 1, all widths'),
'P05':dict(what='rank(i) for every i of every pattern and support, on vectors with arbitrary bits behind the end',oracle='prefix counts of pattern occurrences as symbolic sums',s=67,why='a counter that overflows, or patterns crossing a word at one block position, show only for particular contents; the vectors are fully symbolic (up to 2300 bits)'),
'P06':dict(what='select(j) for every j',oracle='the positions found by scanning',s=36,why='long superblocks, mini-blocks, and the boundary between both exist only for particular spreads of the ones'),
'P07':dict(what='size, operator[], get_int, rank and select of both structures',oracle='the original bit_vector, scanned',s=80,why='block headers sit inside the data; special encodings of hyb blocks (all zero, all one, runs, few minority bits) depend on the block content'),
'P08':dict(what='size, operator[], get_int, rank, select for the specialised and generic block sizes',oracle='the original bit_vector, scanned',s=80,why='one class/offset pair of 2^k is wrong for one block content, inverted superblocks exist only for dense content'),
'P09':dict(what='construction three ways; size, bits, get_int, rank and select for 0 and 1',oracle='the sorted set of positions',s=16,why='the split into high and low parts changes with universe and count; universes up to 2^48 are far outside the tests'),
'P10':dict(what='encode / decode / length / prefix sums / skipping, byte-exact table decoding included',oracle='the value itself, and sums of the values',s=19,why='one length class or one table index is wrong; codes that end close to the end of the buffer'),
'P11':dict(what='operator[], iterators, sizes, and the inverse permutation',oracle='the plain sequence',s=46,why='escape levels of dac, sample borders of enc/vlc and values near 2^64'),
'P12':dict(what='size, sigma, access, rank, select, inverse_select, iterators',oracle='the sequence, scanned',s=42,why='tree shapes depend on frequencies (ties!), symbols 0 and 255, absent symbols'),
'P13':dict(what='as P12 for integer alphabets, plus construction with values up to 2^64-1',oracle='the sequence, scanned',s=92,why='number of levels, sparse alphabets, chunk borders of Golynski, class borders of alphabet partitioning'),
'P14':dict(what='every range operation on every range and every pair of value bounds',oracle='scans that compute the meaning of the operation (sorted ranges, counts, sets of points)',s=67,why='empty ranges, bounds outside the alphabet, ties'),
'P15':dict(what='all navigation operations of three supports',oracle='a stack-based matching of the sequence',s=43,why='answers that lie several blocks away, in the block tree, exist only for particular excess profiles'),
'P16':dict(what='rmq(l,r) for every interval',oracle='a scan for the leftmost extremal position',s=32,why='ties and super-Cartesian trees of particular shapes'),
'P17':dict(what='construct_sa / construct_bwt / construct_isa through the cache interface, and qsufsort directly',oracle='naive suffix sorting in the harness, BWT and ISA by definition',s=31,why='recursion depths and sub-case splits of induced sorting need particular repetition structure'),
'P18':dict(what='seven LCP construction algorithms, five LCP containers',oracle='naive LCP of neighbouring suffixes',s=57,why='the BWT based algorithms switch between phases by LCP value and remaining count'),
'P19':dict(what='every index of SA, ISA, psi, LF, BWT, F, text, C, sigma, alphabet mapping; also after copy, move, swap and load',oracle='naive suffix array and derived arrays',s=110,why='sampling strategies differ in which indices are computed how; each density/position combination matters'),
'P20':dict(what='count, locate, extract, forward/backward/bidirectional search',oracle='naive matching in the text',s=110,why='patterns with symbols that are absent, above 127 or longer than the text, and intervals that become empty in the middle'),
'P21':dict(what='every operation on every node',oracle='a naive suffix tree (nodes as suffix array intervals with their LCP) built by the harness',s=130,why='navigation mixes three structures; errors show on particular tree shapes'),
'P22':dict(what='all k2-treap and k2-tree queries over a grid of query rectangles; top-k order',oracle='scans of the points / adjacency matrix',s=62,why='levels and subtree borders at powers of k, single points, coordinates up to 2^62'),
'P23':dict(what='histories of pushes and pops',oracle='a std::vector as stack',s=13,why='words and block borders of the stack with particular differences between elements'),
'P24':dict(what='update histories and queries',oracle='a bit array; a parent array',s=31,why='sparse occupancy where upper levels decide'),
'P25':dict(what='write between two other members, load into fresh and used objects of other sizes, byte counts of serialize, size_in_bytes and structure tree, second serialization',oracle='the answers of the original before it was written; the stream position',s=120,why='stale members of a used object matter only for particular pairs of contents'),
'P26':dict(what='14 histories of copy, move, swap, assignment, vectors of objects',oracle='the answers before the operation; access to freed memory is a violation',s=130,why='pointers into the old object give right answers as long as it lives'),
'P27':dict(what='operation histories on buffers over RAM and disk files',oracle='an array held by the harness; the file is reloaded and its length compared',s=30,why='dirty blocks, gaps, appends and re-opening at particular offsets within a block'),
'P28':dict(what='operation histories on one file with a reader and a writer, on two names, and store/load/cache functions',oracle='a byte array per name',s=30,why='stream state (get area, put position, append mode) across operations'),
'P29':dict(what='all operators of uint128_t / uint256_t',oracle='128-bit terms (two of them for 256 bits) with explicit carries',s=16,why='carries through all limbs, shifts by multiples of 64'),
'P30':dict(what='allocation histories in a small pool, also through int_vector',oracle='disjointness, alignment and content of the live blocks; a free-space argument for refused requests',s=23,why='merging and splitting of neighbours with particular size remainders'),
'P31':dict(what='operation histories on mapped vectors',oracle='an array; the reloaded file; number of open files and mappings',s=19,why='word and page size borders, growth, read-only mappings'),
'P33':dict(what='const queries, copies and serialization of one object; construction, copies, files of separate objects: what one thread executes is run symbolically in a mode in which memory that existed before is shared: every write to it that is not under a lock, not atomic and not inside the guarded initialisation of a static is a violation, as is an unlocked read of memory that the same code writes under a lock. A run without such an access commutes with every other one, which covers all interleavings of any number of threads',oracle='absence of conflicting accesses; the answers of a single-threaded run. Counterexamples are replayed in two real threads under ThreadSanitizer',s=70,why='interleavings are never produced by single-threaded tests'),
'P34':dict(what='csXprintf of 6 index types with 13 format strings and default / own sentinels, operator<< of 12 container types and of the CSA members, 128/256-bit integers, to_string; the JSON structure report of 29 types, parsed by a strict parser in the harness',oracle='the printed text computed from the suffix array, its inverse, psi, LF, BWT and LCP of the text by their definitions; the number of bytes serialize really writes',s=60,why='printed text is compared nowhere; widths larger than the text, trailing tokens and several tokens per line are inputs nobody types into a test'),
'P32':dict(what='construct / construct_im / construct with a cache for 18 index types; the cache directory before and after',oracle='the suffix array, BWT and LCP values of the text by their definitions; the set of files expected',s=92,why='cache states, input forms and file life cycles are a product that tests do not visit')
}
