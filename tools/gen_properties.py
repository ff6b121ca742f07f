#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/gen_properties.py)
import json, os
I="include/sdsl/"
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
p("P01","Word primitives compute their mathematical definition for all 64-bit inputs",
  "Every primitive on 64-bit words (population count, position of the lowest/highest set bit, i-th set bit, counting and mapping of 01/10/11 patterns with carry, terminating 11 search, bit reversal, next/previous set bit) returns what its documented definition says. This holds for every word and every admissible argument.",
  ["inputs"],"all 2^64 words, all carries, all admissible ranks/offsets","bits_test samples a few thousand random words and a few fixed patterns; a wrong table entry or mask needs one specific byte pattern.",
  [I+"bits.hpp","lib/bits.cpp"],[("SWAR arithmetic and byte tables",I+"bits.hpp"),("lookup tables","lib/bits.cpp")],["sdsl::bits::*"])
p("P02","Packed integer cells: a write stores its value and disturbs nothing else",
  "Reading a packed integer (element access, reference proxy, range get/set, iterator, bit-pointer read/write-and-move, unary read) returns exactly the value last written to those bits, truncated to the cell's width. A write changes no bit outside its own cell. This holds for every width 1..64, every offset, every old content, across word boundaries.",
  ["inputs"],"all widths, bit offsets, old contents and new values","tests write random values in order and read them back; they do not vary old content, width and alignment jointly nor check the neighbours.",
  [I+"int_vector.hpp",I+"bits.hpp"],[("read_int/write_int and *_and_move",I+"bits.hpp"),("int_vector_reference / iterators",I+"int_vector.hpp")],["int_vector::operator[]","get_int","set_int","iterators"])
p("P03","int_vector behaves as a value-semantic sequence container",
  "Construction with a default value, initializer lists, copy, move, assignment, swap, resize, width change, bitwise operators, flip, equality, lexicographic comparison and iterators of an int_vector act like the same operations on a mathematical sequence of width-limited integers. Copies are independent of their source and resize keeps the common prefix. No operation touches memory outside the vector's own storage.",
  ["inputs","histories"],"all contents; sizes, widths and resize histories within the bounds","tests use a handful of random vectors and seldom combine resize histories with unequal tails or widths.",
  [I+"int_vector.hpp",I+"memory_management.hpp"],[("int_vector members",I+"int_vector.hpp"),("memory_manager::resize",I+"memory_management.hpp")],["int_vector<w>","bit_vector"])
p("P04","Vector utilities keep their contract for every content and width",
  "Bit compression and width expansion keep every element's value and choose the minimal/required width; fill-with-value, fill-with-index and modulo give the stated elements; counting of set bits and of 10/01 patterns and the next/previous set-bit searches return the stated number or position for every vector.",
  ["inputs"],"all contents, widths, positions within the size bounds","only a few of these are tested at all and only on random vectors; tail words and word-crossing patterns are rarely hit.",
  [I+"util.hpp","lib/util.cpp"],[("util:: templates",I+"util.hpp")],["util::bit_compress","util::expand_width","util::set_to_value","util::cnt_*","util::next_bit","util::prev_bit"])
p("P05","rank supports of plain bit vectors count exactly, for all patterns and positions",
  "For every bit vector, every supported pattern (0, 1, 00, 01, 10, 11) and every position i in 0..size, each rank support (constant-time and scanning variants) returns the number of pattern occurrences ending before i. The answer does not depend on bits beyond the vector's size, and no memory outside the vector is read.",
  ["inputs"],"all bit contents, all positions, lengths crossing word, block and superblock borders","tests run fixed random or crafted vectors; patterns over block borders and sizes that are exact multiples of the block sizes are only hit by luck.",
  [I+"rank_support_v.hpp",I+"rank_support_v5.hpp",I+"rank_support_scan.hpp",I+"rank_support.hpp"],[("two-level counters",I+"rank_support_v.hpp"),("rank_support_trait carries",I+"rank_support.hpp")],["rank_support_v","rank_support_v5","rank_support_scan"])
p("P06","select supports of plain bit vectors return the i-th occurrence",
  "For every bit vector, every supported pattern (0, 1, 00, 01, 10, 11) and every i from 1 to the number of occurrences, each select support returns the position of the i-th occurrence (of its last bit), i.e. it inverts rank. This holds for dense, sparse and mixed blocks alike.",
  ["inputs"],"all bit contents and ranks; densities that trigger short and long superblocks","tests cover some densities; the switch between long and mini blocks and the carry of pairs over words need specific layouts.",
  [I+"select_support_mcl.hpp",I+"select_support_scan.hpp",I+"select_support.hpp"],[("superblocks, long/mini blocks",I+"select_support_mcl.hpp"),("select_support_trait",I+"select_support.hpp")],["select_support_mcl","select_support_scan"])
p("P07","Interleaved and hybrid bit vectors equal the bit vector they were built from",
  "bit_vector_il and hyb_vector built from any bit vector report the same size, bits and multi-bit reads, and their rank (and, where offered, select) answers for 0 and 1 equal those of the original sequence, for every position.",
  ["inputs"],"all contents (runs, minority encodings, plain blocks), all positions, lengths crossing block borders","the tests' random vectors seldom produce every block encoding next to every border case.",
  [I+"bit_vector_il.hpp",I+"hyb_vector.hpp"],[("interleaved counters",I+"bit_vector_il.hpp"),("per-block encodings",I+"hyb_vector.hpp")],["bit_vector_il","rank_support_il","select_support_il","hyb_vector","rank_support_hyb"])
p("P08","rrr_vector equals the bit vector it compresses, for every block size",
  "An rrr_vector (specialised and generic block sizes, any sampling rate) built from any bit vector reports the same size, bits and multi-bit reads, and its rank and select answers for 0 and 1 equal those of the original sequence.",
  ["inputs"],"all block contents (all classes and offsets), positions, lengths crossing block and superblock borders","tests sample a few vectors; a wrong binomial or an offset that needs one more bit concerns one class of blocks only.",
  [I+"rrr_vector.hpp",I+"rrr_vector_15.hpp",I+"rrr_helper.hpp"],[("enumerative block code",I+"rrr_helper.hpp"),("sampled pointers and ranks, superblock inversion",I+"rrr_vector.hpp")],["rrr_vector","rank_support_rrr","select_support_rrr"])
p("P09","sd_vector equals the sparse set it was built from",
  "An sd_vector built from a bit vector, from a sorted position sequence or through its builder reports the same size, bits and multi-bit reads as the set it represents, and its rank and select answers for 0 and 1 are those of that set, including universes far beyond 2^32.",
  ["inputs"],"all sets within the bounds on count and universe","tests use vectors of moderate size; low-width changes, runs sharing a high part and huge universes are not combined.",
  [I+"sd_vector.hpp","lib/sd_vector.cpp"],[("high/low split",I+"sd_vector.hpp"),("sd_vector_builder","lib/sd_vector.cpp")],["sd_vector","sd_vector_builder","rank_support_sd","select_support_sd"])
p("P10","Self-delimiting integer codes round-trip",
  "For Elias-delta, Elias-gamma, Fibonacci and comma codes, decoding what was encoded returns the same value, the announced code length equals the bits used, and decoding a sequence, a sum of values or skipping codes is consistent with decoding one by one, at any bit offset. This holds for every value in the code's domain.",
  ["inputs"],"all values of the domain, all bit offsets, short sequences","coder_test covers small values and random sequences; codes whose length crosses a word or a table border are hit by luck.",
  [I+"coder_elias_delta.hpp",I+"coder_elias_gamma.hpp",I+"coder_fibonacci.hpp",I+"coder_comma.hpp","lib/coder_elias_delta.cpp","lib/coder_elias_gamma.cpp","lib/coder_fibonacci.cpp"],[("encode/decode with prefix-sum tables",I+"coder_elias_delta.hpp")],["coder::*::encode","coder::*::decode"])
p("P11","Compressed integer vectors return the original elements",
  "enc_vector, vlc_vector and dac_vector (all coders, sampling densities and level widths) built from any integer sequence report the same size and the same element at every index, including their iterators; the permutation-inverse support returns the position of every value of the permutation it supports.",
  ["inputs"],"all values up to 64 bits, all indices, sequence lengths crossing sample borders","tests use generated vectors; overflow of differences, zero values and sample-border combinations need particular sequences.",
  [I+"enc_vector.hpp",I+"vlc_vector.hpp",I+"dac_vector.hpp",I+"inv_perm_support.hpp"],[("sampled differences",I+"enc_vector.hpp"),("levels with overflow bits",I+"dac_vector.hpp"),("back pointers",I+"inv_perm_support.hpp")],["enc_vector","vlc_vector","dac_vector","inv_perm_support"])
p("P12","Byte wavelet trees answer access, rank, select and inverse select exactly",
  "For every byte sequence, each prefix-code-shaped wavelet tree (Huffman, Hu-Tucker, balanced) reports the original symbol at every position, and rank(i,c), select(i,c) and inverse_select(i) equal the counts and positions in the sequence, also for symbols that do not occur.",
  ["inputs"],"all byte sequences within the length bound, all positions and all 256 symbols","tests use a handful of texts; alphabets of size one, skewed codes and absent symbols are rarely queried.",
  [I+"wt_pc.hpp",I+"wt_huff.hpp",I+"wt_hutu.hpp",I+"wt_blcd.hpp",I+"wt_helper.hpp","lib/wt_helper.cpp"],[("prefix-code tree and node bit vectors",I+"wt_pc.hpp"),("code shape",I+"wt_huff.hpp")],["wt_huff","wt_hutu","wt_blcd"])
p("P13","Integer-alphabet wavelet structures answer access, rank and select exactly",
  "For every integer sequence, each large-alphabet structure (level-wise wavelet tree, wavelet matrix, Golynski-Munro-Rao, alphabet-partitioned, run-length, integer Huffman) reports the original value at every position, and rank(i,c), select(i,c) and inverse_select(i) equal the counts and positions in the sequence, also for values that do not occur.",
  ["inputs"],"all sequences within length/value bounds, all positions and query values","tests use a few generated vectors; values absent from the sequence, single-value sequences and extreme widths are rarely combined.",
  [I+"wt_int.hpp",I+"wm_int.hpp",I+"wt_gmr.hpp",I+"wt_ap.hpp",I+"wt_rlmn.hpp",I+"wt_pc.hpp"],[("level bit vectors",I+"wt_int.hpp"),("matrix zeros",I+"wm_int.hpp")],["wt_int","wm_int","wt_gmr","wt_gmr_rs","wt_ap","wt_rlmn","wt_huff_int"])
p("P14","Wavelet range queries equal their brute-force meaning",
  "Range operations on wavelet structures (symbols in an interval with ranks, lexicographic smaller/greater counts, 2-d range search, quantile, interval intersection, smallest value >= / largest value <= a bound, node expansion) return exactly the values, counts and positions that a scan of the sequence would.",
  ["inputs"],"all sequences and all ranges/value bounds within the stated sizes","tests check random ranges on a few vectors; empty ranges and bounds outside the occurring values are rarely asked.",
  [I+"wt_algorithm.hpp",I+"wt_pc.hpp",I+"wt_int.hpp",I+"wm_int.hpp",I+"wt_gmr.hpp",I+"wt_hutu.hpp"],[("interval_symbols / lex_count",I+"wt_pc.hpp"),("range_search_2d",I+"wt_int.hpp"),("quantile_freq, intersect",I+"wt_algorithm.hpp")],["interval_symbols","lex_count","lex_smaller_count","range_search_2d","quantile_freq","intersect","symbol_gte","symbol_lte"])
p("P15","Balanced-parentheses supports navigate exactly",
  "For every balanced parentheses sequence, each support structure answers excess, matching parenthesis, enclosing pair, nearest enclosing pair of two positions (range-restricted and double enclose) and parenthesis rank/select exactly as defined on the sequence.",
  ["inputs"],"all balanced sequences up to the length bound plus long sequences with symbolic parts, all positions","the supports are only exercised indirectly (through suffix trees and range-minimum structures) on few inputs; far pairs across blocks need specific shapes.",
  [I+"bp_support_g.hpp",I+"bp_support_gg.hpp",I+"bp_support_sada.hpp",I+"bp_support_algorithm.hpp","lib/bp_support_algorithm.cpp"],[("pioneers",I+"bp_support_g.hpp"),("min-max tree",I+"bp_support_sada.hpp"),("byte tables",I+"bp_support_algorithm.hpp")],["bp_support_g","bp_support_gg","bp_support_sada"])
p("P16","Range minimum/maximum queries return the right extremal position",
  "For every integer array and every interval, each range-minimum (or maximum) structure returns a position inside the interval holding the extremal value, and the leftmost/rightmost such position according to its documentation.",
  ["inputs"],"all arrays up to the size bound (ties included), all intervals","rmq_test compares on a few generated arrays; ties and block-crossing intervals need specific orders.",
  [I+"rmq_succinct_sada.hpp",I+"rmq_succinct_sct.hpp",I+"rmq_support_sparse_table.hpp"],[("2d-min-heap / super-Cartesian tree over BPS",I+"rmq_succinct_sct.hpp"),("sparse table",I+"rmq_support_sparse_table.hpp")],["rmq_succinct_sada","rmq_succinct_sct","rmq_support_sparse_table"])
p("P17","Suffix sorting, BWT and inverse suffix array are correct for every text",
  "For every text, each suffix-array construction of the library (byte, integer, semi-external) yields the permutation of positions sorted by suffix, and the derived BWT and inverse suffix array are exactly those induced by it.",
  ["inputs","configurations"],"all texts within length/alphabet bounds; every constructor","sa_construct_test runs a few files; short periodic texts and ties at text end are the hard cases.",
  [I+"construct_sa.hpp",I+"construct_sa_se.hpp",I+"qsufsort.hpp",I+"construct_bwt.hpp",I+"construct_isa.hpp","lib/construct_sa.cpp","lib/construct_sa_se.cpp","lib/construct_isa.cpp"],[("sorting algorithms",I+"qsufsort.hpp"),("induced sorting on buffers",I+"construct_sa_se.hpp")],["construct_sa","construct_bwt","construct_isa"])
p("P18","LCP construction and LCP containers give the true longest common prefixes",
  "For every text, each LCP construction algorithm computes, for all adjacent suffixes in suffix-array order, the true length of their longest common prefix, and every LCP container loaded from it returns these values at every index.",
  ["inputs","configurations"],"all texts within bounds, every algorithm and container; container values up to 64 bits","lcp_construct_test runs a few files; LCP values beyond one byte and repetitive texts are rare there.",
  [I+"construct_lcp.hpp","lib/construct_lcp.cpp",I+"construct_lcp_helper.hpp",I+"lcp_bitcompressed.hpp",I+"lcp_byte.hpp",I+"lcp_dac.hpp",I+"lcp_vlc.hpp",I+"lcp_wt.hpp",I+"lcp_support_sada.hpp",I+"lcp_support_tree.hpp",I+"lcp_support_tree2.hpp"],[("Kasai/PHI/go/BWT-based algorithms","lib/construct_lcp.cpp")],["construct_lcp_*","lcp_*"])
p("P19","Compressed suffix arrays represent SA, ISA, psi, LF, BWT and text exactly",
  "For every text, each compressed suffix array (wavelet-tree based, psi based, bit-compressed; byte and integer alphabets; every sampling strategy and density) returns the exact suffix array, inverse, psi, LF, BWT, first-column and text entries at every index.",
  ["inputs","configurations"],"all texts within bounds; sampling densities and alphabet strategies","csa tests cover a few texts with a few template settings.",
  [I+"csa_wt.hpp",I+"csa_sada.hpp",I+"csa_bitcompressed.hpp",I+"csa_sampling_strategy.hpp",I+"csa_alphabet_strategy.hpp",I+"suffix_array_helper.hpp"],[("LF/psi walking to samples",I+"csa_wt.hpp"),("alphabet mapping",I+"csa_alphabet_strategy.hpp")],["csa_wt","csa_sada","csa_bitcompressed"])
p("P20","Pattern search: count, locate and extract are exact",
  "For every text and pattern, count returns the number of occurrences, locate returns exactly the set of their starting positions, extract returns the requested text range, and forward, backward and bidirectional interval searches agree with the suffix array interval of the pattern, also for absent, empty or too long patterns.",
  ["inputs"],"all texts and patterns within the length/alphabet bounds","tests sample patterns from the text; absent patterns and patterns reaching the text end are rarely asked.",
  [I+"suffix_array_algorithm.hpp",I+"suffix_arrays.hpp"],[("backward/forward/bidirectional search",I+"suffix_array_algorithm.hpp")],["count","locate","extract","backward_search","bidirectional_search"])
p("P21","Compressed suffix trees navigate the true suffix tree",
  "For every text, each compressed suffix tree's navigation (root, parent, children, child by letter, sibling, leaves, lowest common ancestor, suffix link, Weiner link, string depth, node depth, edge labels, node ids, iterators) returns exactly the nodes and values of the text's suffix tree.",
  ["inputs","configurations"],"all texts within bounds, all nodes and arguments; the three tree types","cst tests check algebraic identities on a few texts; repetitive shapes and siblings at block borders need specific texts.",
  [I+"cst_sct3.hpp",I+"cst_sada.hpp",I+"cst_fully.hpp",I+"suffix_tree_algorithm.hpp",I+"cst_iterators.hpp",I+"suffix_tree_helper.hpp"],[("BPS navigation",I+"cst_sct3.hpp"),("sampled tree",I+"cst_fully.hpp")],["cst_sct3","cst_sada","cst_fully"])
p("P22","k2-treap and k2-tree answer grid and adjacency queries exactly",
  "For every set of (weighted) points, the k2-treap's range reporting, counting and top-k queries, and for every graph the k2-tree's adjacency, neighbour, reverse-neighbour and related queries, return exactly what a scan of the points or edges would.",
  ["inputs"],"all point/edge sets within grid and count bounds, all query rectangles/nodes","tests use a few generated sets; degenerate rectangles, equal weights and border coordinates are rare.",
  [I+"k2_treap.hpp",I+"k2_treap_algorithm.hpp",I+"k2_treap_helper.hpp",I+"k2_tree.hpp",I+"k2_tree_helper.hpp"],[("recursive partition",I+"k2_treap.hpp"),("level bitmaps and rank",I+"k2_tree.hpp")],["k2_treap","k2_tree"])
p("P23","Succinct sorted stacks behave as stacks",
  "The succinct stacks for increasing integers return, after any history of pushes and pops obeying their precondition, the same top, size and emptiness as an ordinary stack.",
  ["histories","inputs"],"all push/pop histories within the length and value bounds","tests follow one or two orders; pops across emptied words need a specific history.",
  [I+"sorted_int_stack.hpp",I+"sorted_stack_support.hpp",I+"sorted_multi_stack_support.hpp"],[("63-bit blocks with back pointers",I+"sorted_int_stack.hpp")],["sorted_int_stack","sorted_stack_support","sorted_multi_stack_support"])
p("P24","Nearest-neighbour dictionaries and LOUDS trees answer exactly",
  "The static and dynamic nearest-neighbour dictionaries return the exact rank/select/previous/next answers for their current bit contents after any updates, and a LOUDS tree reports exactly the parent, children, degree and leaf status of the tree it was built from.",
  ["histories","inputs"],"all contents and update histories within bounds; all trees up to the node bound","only the dynamic dictionary has a test, with a few hand-picked sizes.",
  [I+"nearest_neighbour_dictionary.hpp",I+"nn_dict_dynamic.hpp",I+"louds_tree.hpp"],[("64-ary tree of words",I+"nn_dict_dynamic.hpp"),("sampled differences",I+"nearest_neighbour_dictionary.hpp"),("unary degree sequence",I+"louds_tree.hpp")],["nn_dict_dynamic","nearest_neighbour_dictionary","louds_tree"])
p("P25","Serialization round-trips and announces its exact size",
  "Serializing any structure and loading it into another object (fresh or previously used) consumes exactly the bytes written, the returned byte count and the size computation equal those bytes, and the loaded object answers every query like the original.",
  ["inputs","configurations"],"all contents within bounds, every serializable structure","tests store and reload a few instances into fresh objects and compare few queries.",
  [I+"io.hpp","lib/io.cpp",I+"int_vector.hpp","lib/structure_tree.cpp.cmake"],[("serialize/load members of every class",I+"*.hpp"),("write_member/read_member",I+"io.hpp")],["serialize","load","size_in_bytes","store_to_file","load_from_file"])
p("P26","Composite structures have value semantics under copy, move, swap and assign",
  "After copy or move construction, copy or move assignment (also onto a used object) or swap, the resulting object answers every query like its source did, remains valid when the source is changed or destroyed, and never refers to the other object's storage.",
  ["histories","inputs"],"all contents within bounds; every copy/move/swap operation followed by destruction of the source","tests rarely use the copies after destroying the source, so a support pointing to the wrong vector goes unnoticed.",
  [I+"rank_support.hpp",I+"util.hpp",I+"wt_pc.hpp",I+"wt_int.hpp",I+"sd_vector.hpp",I+"rrr_vector.hpp",I+"csa_wt.hpp",I+"cst_sct3.hpp"],[("copy()/swap()/operator= re-attaching supports",I+"util.hpp")],["copy/move constructors, operator=, swap of all structures"])
p("P27","Buffered on-disk vectors act like an in-memory array",
  "After any history of reads, writes, appends, buffer resizes, resets, moves, closes and reopens, an int_vector_buffer returns at every index the value last written there (0 for never-written gaps), has the right size, and leaves a file that loads as the equal int_vector.",
  ["histories","inputs","configurations"],"all short operation histories; widths, buffer sizes, plain or vector format","tests use long random histories with few buffer/width combinations.",
  [I+"int_vector_buffer.hpp","lib/ram_filebuf.cpp","lib/sfstream.cpp"],[("single dirty block cache",I+"int_vector_buffer.hpp")],["int_vector_buffer"])
p("P28","RAM files and cached files behave like files",
  "The in-memory file system and its streams give back exactly the bytes written at the positions written, under any sequence of open, write, seek, read, rename, remove and store; storing and loading structures or plain vectors through files or the construction cache returns the same value. (A reader seeks before it reads what another open stream wrote meanwhile; a seek beyond the end is followed by a write.)",
  ["histories","inputs"],"all short histories of file operations and contents","used by tests only as write-once, read-once storage.",
  [I+"ram_fs.hpp","lib/ram_fs.cpp",I+"ram_filebuf.hpp","lib/ram_filebuf.cpp","lib/sfstream.cpp",I+"io.hpp","lib/io.cpp"],[("stream buffer on vector<char>","lib/ram_filebuf.cpp"),("cache registry","lib/io.cpp")],["ram_fs","isfstream","osfstream","store_to_file","load_from_file","store_to_cache","load_from_cache"])
p("P29","128/256-bit integers follow modular unsigned arithmetic",
  "All arithmetic, shift, bitwise, comparison and conversion operators of the library's wide unsigned integers agree with arithmetic modulo 2^128 and 2^256, and their population count, highest-bit and select helpers with the bit-level definition.",
  ["inputs"],"all operand values","no direct test exists; they are used only through large rrr block sizes.",
  [I+"uint128_t.hpp",I+"uint256_t.hpp","lib/uint128_t.cpp","lib/uint256_t.cpp",I+"rrr_helper.hpp"],[("limb arithmetic with carries",I+"uint256_t.hpp")],["uint128_t","uint256_t"])
p("P30","The hugepage allocator never hands out overlapping or lost memory",
  "For every sequence of allocate, reallocate and free requests that fits the pool, the blocks returned by the hugepage allocator lie inside the pool, are aligned and large enough, never overlap a live block, keep their content until freed (and across reallocation), and freed space can be reused.",
  ["histories","inputs"],"all request histories of bounded length with symbolic sizes","no test enables hugepages.",
  ["lib/memory_management.cpp",I+"memory_management.hpp"],[("boundary tags, split and coalesce","lib/memory_management.cpp")],["memory_manager::use_hugepages","memory_manager::alloc_mem/realloc_mem/free_mem"])
p("P31","Memory-mapped vectors act like the vector stored in the file",
  "An int_vector_mapper opened on a stored vector reads and writes the same elements as an int_vector, keeps size and width, persists modifications, appends and resizes into the file on destruction, and leaves the file unchanged in read-only mode.",
  ["histories","inputs"],"all contents, widths and short operation histories","tests use few widths and sizes.",
  [I+"int_vector_mapper.hpp",I+"memory_management.hpp"],[("mmap of header and data, truncate on close",I+"int_vector_mapper.hpp")],["int_vector_mapper"])
p("P32","Index construction gives the same index from every input form and cache state",
  "Constructing a wavelet tree, CSA, CST or LCP array gives the index of the text for every way to supply the text (serialized vector, file of 1, 2, 4 or 8 byte symbols, decimal text file, object in memory; RAM or disk file) and for every set of intermediate arrays already in the cache. The input stays unchanged; with deletion requested no file made by the construction is left, without it the cache holds exactly the correct text, suffix array, BWT and LCP array and an index built from it is the same; CSA and CST construction refuses texts that contain a zero and files whose size is no multiple of the symbol size, leaving the index as it was.",
  ["inputs","histories"],"all short texts in every input form, every admissible cache state, fresh and used indexes, constructions nested in others","tests construct each index from one input form with an empty cache and look at no intermediate file.",
  [I+"construct.hpp",I+"io.hpp",I+"config.hpp","lib/config.cpp","lib/io.cpp",I+"construct_sa.hpp",I+"construct_bwt.hpp",I+"construct_lcp.hpp"],[("registration and removal of cached files",I+"io.hpp"),("cache lookups before each step",I+"construct.hpp")],["construct","construct_im","store_to_cache/load_from_cache/cache_file_exists"])
p("P33","Queries from several threads and work on separate objects do not interfere",
  "Any number of threads may call const member functions of one object at the same time (query, iterate, copy it, serialize it) and get the answers of a single-threaded run; threads that each construct, copy, assign, swap, store, load, query and destroy objects of their own, with RAM files of their own names, do not affect each other. No const operation writes to the object or to static data, and what the library shares between objects (the RAM file system, the id counter for temporary names, lazily initialised tables) is accessed under a lock or atomically.",
  ["schedules","inputs"],"all contents within bounds, all interleavings of two threads by absence of conflicting accesses","no test runs two threads.",
  [I+"util.hpp","lib/util.cpp","lib/ram_fs.cpp",I+"ram_fs.hpp",I+"construct.hpp",I+"io.hpp",I+"rrr_helper.hpp",I+"memory_management.hpp"],[("lock of the RAM file system","lib/ram_fs.cpp"),("counter for temporary names",I+"util.hpp"),("const query members without mutable state",I+"*.hpp")],["const members of every structure","construct","construct_im","util::id","ram_fs"])
p("P34","Text output is what the documentation says",
  "csXprintf prints one line per suffix array position in which every token of the format (%I %S %s %P %p %L %B %T %%, with widths) is replaced by the documented value of that row, padded to the width, everything else is copied, and the sentinel is printed as the chosen (or default) character; %[w[:W]]T prints min(size, w) characters. Printing a bit vector, an integer vector, a compressed vector, a wavelet structure, a CSA or one of its members (isa, psi, lf, bwt, text) to a stream prints exactly its elements in order (separated by one blank where documented); 128/256-bit integers print all their hexadecimal digits and leave the stream in decimal mode; util::to_string pads to the width. write_structure<JSON_FORMAT> writes one well-formed JSON object whose root size is the number of bytes that serialize writes and in which no children together are larger than their parent.",
  ["inputs"],"all contents and format strings within bounds","no test calls csXprintf or compares printed text.",
  [I+"io.hpp","lib/io.cpp",I+"int_vector.hpp",I+"util.hpp","lib/uint128_t.cpp","lib/uint256_t.cpp","lib/louds_tree.cpp",I+"structure_tree.hpp","lib/structure_tree.cpp.cmake"],[("format interpreter",I+"io.hpp"),("stream operators",I+"io.hpp"),("structure report","lib/structure_tree.cpp.cmake")],["csXprintf","operator<<","util::to_string","write_structure"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
