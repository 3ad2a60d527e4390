#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit the table here, then run it."""
import json, os
H="strtk.hpp"
P=[]
def p(id,title,statement,over,text,why,mech,files=(H,),observe=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":list(files),"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe or ["public function results and output containers"],"hook_needed":None}})

p("T01","Splitting and tokenizing cut text exactly at its delimiters",
  "For every text, delimiter predicate and split option, splitting and iterating a tokenizer yield the same tokens, and exactly those a character-by-character reading gives: N delimiters give N+1 tokens by default, a run of delimiters counts as one under the compressing option, empty text gives none. Under the include-delimiter options each token also carries its trailing delimiter (first, or the whole run), so that concatenating the tokens of the non-compressing modes restores the text. Combining first-delimiter with all-delimiters inclusion is outside the statement. Every delimiter predicate (single, multiple, table-based, user-supplied) decides membership correctly for all 256 character values. A copied or assigned tokenizer or tokenizer iterator yields what its source would.",
  ["inputs","configurations"],"all texts over any byte alphabet incl. empty, leading/trailing/adjacent delimiters x all delimiter predicate types x all option combinations x all range/insert-iterator entry points",
  "strtk_tokenizer_test runs a fixed table of short strings; the guarantee is over every text, predicate and option combination and over agreement of two independently written scanners.",
  [("split overloads","strtk.hpp: split(), details::...; 3270-3560"),("tokenizer","strtk.hpp: std_string::tokenizer / tokenizer::iterator 2307-2586"),("delimiter predicates","strtk.hpp: 1016-1145")])

p("T02","Bounded and structural splitters return the documented pieces",
  "Splitting with a token limit returns exactly the first n tokens of the corresponding unlimited split; fixed-offset splitting returns consecutive pieces of the requested sizes (rotating or not) that never run past the text; regular-expression splitting returns exactly the successive matches. No splitter ever yields a piece outside the given text.",
  ["inputs","configurations"],"all texts, limits 0..beyond token count, offset lists with zero/oversized entries and both rotation modes, expressions and run lengths",
  "Only offset_splitter and one split_n case are exercised on one literal string each.",
  [("split_n","strtk.hpp 3560-3870"),("offset_splitter, offset predicate","strtk.hpp 3872-4010"),("split_regex","strtk.hpp 3700-3870"),("split_on_consecutive","strtk.hpp 15900-16243")])

p("C01","Text-to-integer parsing accepts exactly the representable integers",
  "For every integer type and every text, parsing to that type succeeds if and only if the text is an optional sign (a minus only for signed types) followed by at least one decimal digit and the value is representable, and then yields exactly that value. Malformed, empty and out-of-range text is reported as failure, never as a wrong value.",
  ["inputs"],"all byte strings, in particular values around each type's limits, long leading-zero runs, signs, embedded non-digits, for short/int/long/long long signed and unsigned",
  "Tests convert a few hundred in-range literals; limits, overlong digit strings and malformed texts are sampled by a handful of cases.",
  [("string_to_type_converter for integral types","strtk.hpp 16860-17200"),("numeric<T> limits","strtk.hpp 16700-16860")])

p("C02","Integers survive conversion to text and back",
  "For every value of every integer type the text produced is the canonical decimal representation (minus sign only when negative, no leading zeros), identical to the standard library's, and parsing it returns the original value; truth values, characters and text survive the same way.",
  ["inputs"],"all values of short/int/long long and unsigned variants (16-bit exhaustively, others sampled at digit-count and table boundaries)",
  "Tests format sequential small ranges; table-driven three-digit chunks have boundaries at every power of 1000 and at type minima that need systematic coverage.",
  [("type_to_string","strtk.hpp 17500-18000")])

p("C03","Text-to-real parsing is accurate and rejects malformed numbers",
  "Every text of the form sign, digits, fraction, exponent (of at most 250 digits each side of the point and a four-character exponent), optional float suffix parses to a value within a few units in the last place of the correctly rounded one, including zero, large and tiny magnitudes; infinity and not-a-number spellings parse to those values. Texts with no digits or with trailing or misplaced characters are rejected, and no text makes the parser read outside it.",
  ["inputs"],"all byte strings over the number alphabet and beyond; decimal exponents over the whole range of float and double and outside it",
  "Existing tests try a fixed list of literals; accuracy over all digit/exponent combinations and rejection over all malformed texts cannot be listed.",
  [("string_to_real_converter","strtk.hpp 17000-17260"),("compute_pow10","strtk.hpp 16667-16700")])

p("P01","Typed multi-field parsing assigns every field or reports failure",
  "Parsing a delimited line into a list of typed variables succeeds only if every variable received a field that is valid for its type, and then each variable holds the value of the field at its own position, for every supported number of variables and every mix of types. Missing fields or an invalid field make the call report failure.",
  ["inputs","configurations"],"all lines built from 0..17 fields of mixed types with mutations, 1..16 variables, any single/multi-character delimiter set, string and iterator entry points, program-argument and line-oriented entry points",
  "Tests parse a few fixed records; per-arity code is written out sixteen times, so each arity and type position needs its own inputs.",
  [("parse overloads","strtk.hpp 8020-9500, 9800-10280"),("parse_line","strtk.hpp 10413-10925")])

p("P02","Parsing into containers keeps all values, in order, or reports failure",
  "Parsing delimited text into any supported container delivers exactly the parsed token values, in order for sequences and as the set they form for ordered or heap containers, appended after existing content; a bounded parse delivers exactly the values of the first n tokens. A token that is invalid for the element type is left out and never stored as another value: a bounded parse then reports fewer values, and a parse mixing variables and a container reports failure. The inserters that deliver the values may be copied and assigned: each writes where its source writes, and no destination changes otherwise.",
  ["inputs","configurations"],"all token lists incl. empty tokens, all delimiter runs, containers vector/deque/list/queue/stack/set/multiset/priority queue, element types string/int/real, n from 0 upward",
  "Tests fill containers from a few literals of valid tokens.",
  [("parse into sequences and adapters","strtk.hpp 8800-9500"),("parse_n","strtk.hpp 9495-9800")])

p("P03","Joining and constructing text is the inverse of splitting and parsing",
  "Joining a range of values yields their text forms separated by the delimiter with none before the first or after the last, so splitting or parsing the result on that delimiter returns the original values; filtered joins contain exactly the selected values. Constructing text from a list of typed variables behaves the same for every supported number of variables.",
  ["inputs","configurations"],"all value lists without the delimiter in them, all delimiters (single/multi char, empty), pre/post decorations, 1..12 variables",
  "Tests print a few joins; inverse laws quantify over every list.",
  [("construct","strtk.hpp 10926-11100"),("join, join_if","strtk.hpp 11102-11390"),("build_string, bracketize, replicate","strtk.hpp 11390-11500")])

p("P04","Field adapters transform, constrain or reject the field they wrap",
  "A field parsed through an adapter - hexadecimal or base64 to text or number, fixed-point truncated integer, fixed-decimal integer, trimming, case folding, expected value (exact or case-insensitive), wildcard pattern, value range, ignored token - yields exactly the transformed value and succeeds exactly when the field satisfies the adapter's constraint. A rejected field makes the enclosing parse report failure. A copied or assigned adapter delivers to the same target as its source.",
  ["inputs"],"all field texts (valid, malformed, empty, overlong) for every adapter, alone and among other fields",
  "Tests feed one or two well-formed fields per adapter; rejection and boundary widths are untested.",
  [("sinks","strtk.hpp 14797-15420"),("expect/iexpect/like/inrange/trim/as_lcase/as_ucase","strtk.hpp 16245-16660")])

p("P05","Fixed-width fast conversion yields the exact value of the digits",
  "For every supported width and integer type, converting exactly that many digits gives their decimal value (with sign where a sign is allowed); with digit checking requested, conversion succeeds if and only if all characters are digits (after an optional sign in the signed form).",
  ["inputs","configurations"],"all digit strings of width 0..19 with every type wide enough, single-character corruptions at each position, compile-time and run-time width forms",
  "Each width has its own unrolled code path; tests cover a few widths on in-order digits.",
  [("strtk::fast","strtk.hpp 12845-13712")])

p("E01","Hexadecimal and base64 coding are exact inverses",
  "For every byte sequence, hexadecimal and base64 encodings equal the standard ones (upper-case hex, most significant digit first; RFC 4648 alphabet with padding) and decoding returns the original bytes, through every entry point. Hexadecimal text that is empty or not a whole number of digit pairs is rejected, and no input, however malformed, makes a coder touch anything outside its buffers.",
  ["inputs"],"all byte sequences of length 0..some hundreds incl. all residues mod 3, upper/lower case hex, odd lengths, invalid characters",
  "Tests encode a few texts and never decode malformed input.",
  [("convert_bin_to_hex / convert_hex_to_bin / base64","strtk.hpp 4080-4500")])

p("E02","Bit-level transforms match their definitions and inverses",
  "Byte interleaving, bitwise combination, bit access, population counts, hamming distances and case/printable conversions of character ranges give for every input exactly the value their definition gives, symmetrically where the definition is symmetric, and no conversion touches memory outside its buffers.",
  ["inputs"],"all byte values and sequences of unequal lengths; all 2^16/2^24-ish sampled word values for interleave",
  "Tests print a few results without comparing with a definition.",
  [("bit utilities","strtk.hpp 4500-5190")])

p("S01","Binary serialization round-trips every supported value",
  "Any sequence of values written by the binary writer - integers, reals, booleans, strings in every length-prefixed form, padded text, plain arrays, containers, pairs and user classes - and read back by a reader over the same bytes in the same order yields equal values, with reader and writer positions equal to the total encoded size.",
  ["inputs","histories"],"all typed operation sequences, incl. empty strings/containers, values at type limits, nested user classes, exact-fit buffers, with and without endian marking, rewinds and position save/restore",
  "strtk_serializer_example round-trips ten fixed scenarios in large buffers.",
  [("binary::reader / binary::writer","strtk.hpp 13712-14795")])

p("S02","Truncated or corrupted serialized data fails cleanly",
  "Reading any bytes with any sequence of read operations never reads outside the buffer, never modifies memory outside the destination and reports failure when the data needed is not there; writing never goes past the given capacity and reports failure when the value does not fit. A failed operation leaves the object usable: its position never exceeds its capacity. Filling the reader's buffer from a stream succeeds exactly when all bytes asked for fit and arrive.",
  ["inputs","fault_sequences"],"all truncation points and byte corruptions of valid encodings (length prefixes in particular), arbitrary bytes, all capacities below the required size",
  "No test reads short or corrupted input.",
  [("buffer capacity checks","strtk.hpp 13712-14795")])

p("S03","Byte-order conversion is exact and matches the wire format",
  "Values written or converted in an explicit byte order appear in memory most significant byte first for big-endian and least significant first for little-endian, for every supported integer width and regardless of host order, and converting back returns the original value.",
  ["inputs"],"all values of 16-, 32- and 64-bit signed and unsigned integers, through reader, writer and free conversion functions",
  "Endian entry points are not exercised by any test.",
  [("endian conversion","strtk.hpp 13712-13870, reader/writer *_to_be/*_to_le")])

p("G01","A token grid holds exactly the rows and tokens of its text",
  "For every text and delimiter choice, a loaded grid has one row per non-empty line and, in order, exactly the tokens a reference split of that line gives (quoted tokens kept whole when quote support is on), with consistent row, column and width counts; every accessor (by row, by column, by range, typed or raw, from file or buffer) returns those same tokens, and operations that report an outcome refuse rows, columns and ranges outside the grid instead of reading them. A row delimiter always ends a row, inside quotes too. A file that is missing, empty or not readable to its end is not loaded.",
  ["inputs","configurations"],"all texts over delimiters/newlines/quotes/content characters, several row/column delimiter sets, options, typed access with valid and invalid tokens, buffer and file sources",
  "Token grid tests mostly print; only a few counts are compared.",
  [("token_grid store, row_type, load/parse","strtk.hpp 5195-7600")])

p("G02","Token grid edits and queries follow a plain table model",
  "After any sequence of edits - removing rows or tokens by index or predicate, clearing, reloading, removing empty or short tokens, enforcing column counts - the grid equals a plain list-of-lists table with the same edits applied, and every traversal, range, conditional traversal, aggregation and join over it visits exactly the tokens of that table in order.",
  ["histories","inputs"],"all short edit histories over generated grids with ragged rows, followed by complete observation through all accessors",
  "Edits are tried one at a time on one or two fixed tables, mostly without comparing the result.",
  [("token_grid mutation and traversal","strtk.hpp 5900-7600")])

p("X01","Removal functions delete exactly the selected elements and keep order",
  "Removing by predicate or character set, removing consecutive repeats, duplicates, leading, trailing or both-sided characters, or empty strings leaves exactly the elements its definition keeps, in original order, in place or into an output, for every text and container.",
  ["inputs"],"all byte strings and element sequences incl. empty, all-removed, none-removed, high-bit characters",
  "Tests strip one or two literals.",
  [("remove_* family","strtk.hpp 1147-1660")])

p("X02","Replacement substitutes every non-overlapping occurrence, and only those",
  "Replacing a character or a pattern yields the text in which each left-to-right non-overlapping occurrence is substituted and everything else is unchanged, for shorter, equal, longer and empty replacements; pattern removal equals replacement by nothing.",
  ["inputs"],"all texts/patterns/replacements over small alphabets (self-overlapping patterns), high-bit bytes, longer than text",
  "Tests replace in one literal each.",
  [("replace, replace_pattern, remove_pattern","strtk.hpp 1660-1880")])

p("X03","Wildcard matching agrees with the pattern language definition",
  "A text matches a pattern if and only if it can be cut into pieces where a literal matches itself, the zero-or-more symbol matches any run and the zero-or-one symbol matches at most one character, for the default and for user-chosen symbols, for every pattern and text, without reading outside either; filtering a range on a pattern (or its negation) keeps exactly the matching (or other) texts.",
  ["inputs"],"all pattern/text pairs over small alphabets up to length ~12 (exhaustive for tiny ones) and random longer ones, custom wildcard symbols",
  "No test compares wildcard matching with a definition; backtracking cases are combinatorial.",
  [("match, imatch","strtk.hpp 1882-2100")])

p("X04","Search and comparison of text agree with exhaustive search",
  "Substring search (first, all, case-sensitive or not), prefix and suffix tests, character position lookups, case-insensitive equality, membership tests, size or word filters and condition objects (equal, like, begins with, ends with, within and their negations, also when copied) report exactly what examining every position gives.",
  ["inputs"],"all data/pattern pairs incl. empty and overlong patterns, overlapping occurrences, case variations, all bytes",
  "Only incidental use in examples.",
  [("find_all, ifind, begins_with, ends_with, index_of, imatch","strtk.hpp 1880-2305"),("filters and string conditions","strtk.hpp 7600-8020, 19516-19650")])

p("X05","Run-length searches find exactly the runs that exist",
  "Searching for, matching, counting or splitting on consecutive equal elements reports exactly what a left-to-right reading finds (by value, character type, or predicate), at the correct positions, for every run length n >= 1 and sequence: exactly-n forms report successive non-overlapping windows of n inside runs, at-least-n forms whole maximal runs.",
  ["inputs"],"all sequences over small alphabets with runs at the start, middle and end; n from 1 to beyond the longest run",
  "Two literals are exercised in the examples.",
  [("find/match_n_consecutive, split_on_consecutive","strtk.hpp 15607-16243"),("count_consecutive_duplicates","strtk.hpp 4010-4080")])

p("X06","Text layout and rewriting helpers produce the defined text",
  "Centering, left and right alignment pad to exactly the requested width without losing content; remaining-text, character-class tests, insertion, removal, swapping, canonical rotation, string arithmetic and translation tables give exactly the text their definitions give for every input.",
  ["inputs"],"all texts, widths below/equal/above the length, all positions and counts, all pad characters and translation pairs",
  "Tests print a few aligned lines.",
  [("strtk::text","strtk.hpp 15420-15605"),("ext_string","strtk.hpp 18159-18458"),("translation_table, lexicographically_canonicalize","strtk.hpp")])

p("X07","Sequence helpers equal their element-by-element definitions",
  "Uniqueness extraction, minimum and maximum of sequences, cutting, repetition, interval insertion, arithmetic progressions, copying helpers, reversal, filling, bulk memory comparison and key or value extraction from maps give exactly the elements their definition gives, for every sequence and parameter in range.",
  ["inputs"],"all element sequences incl. empty, all cut/interval positions, all sizes for bulk memory routines (each unrolled remainder)",
  "Each helper is at most printed once in the examples.",
  [("copy/extract/minmax/cut/iota/inserters/memcmp_n/make_*_list","strtk.hpp 800-1015, 4010-4100, 11400-11800, 21336-21980, 23767-24012")])

p("M01","Combination enumeration visits every k-subset exactly once, in order",
  "Stepping, iterating or calling back over the combinations of a sequence yields each k-element subset exactly once in lexicographic order and then reports completion with the sequence back in its first state; the n-th combination computed directly equals the n-th one enumerated, and binomial counts are exact whenever representable.",
  ["inputs","configurations"],"all (n,k) with n<=~12 exhaustively, larger n by direct n-th versus reference unranking; conditional callbacks that stop early",
  "Tests run two fixed (n,k) pairs.",
  [("next_combination, for_each_combination*, nth_combination_sequence, n_choose_k, combination_iterator","strtk.hpp 12240-12845")])

p("M02","Permutation enumeration and indexing are exhaustive and consistent",
  "Visiting the permutations of a sequence yields every ordering exactly once (stopping early exactly when the callback asks), and the n-th permutation computed directly equals the n-th in lexicographic order for every index below n factorial.",
  ["inputs"],"all sizes up to 7 exhaustively; random indices for sizes up to 20",
  "One fixed example is run.",
  [("for_each_permutation*, nth_permutation_sequence","strtk.hpp 12500-12800")])

p("M03","Random generation and selection are reproducible and stay in bounds",
  "Random permutations, combinations, selections, values and byte buffers contain exactly the requested number of elements, drawn from the source without repetition (or within the requested bounds), in the order the function promises, and are a function of the seed alone; no output location beyond the requested length is written.",
  ["inputs","configurations"],"all sizes 0..hundreds, all k<=n, all seeds, integer and real bounds, pre- and post-selection calls with the same seed",
  "Tests shuffle one text and print it.",
  [("generate_random_data / values / random_permutation / random_combination / select_k_randomly","strtk.hpp 11800-12240")])

p("D01","The prefix tree answers lookups exactly like an associative map",
  "After any sequence of insertions, looking up a key finds a value if and only if that exact key was inserted, and returns the value inserted for it; keys that are prefixes, extensions or siblings of other keys never interfere. A copied or assigned tree answers like the original at that moment and is independent of it from then on.",
  ["histories","inputs"],"all insertion/lookup histories over keys with shared prefixes, with overwrites, several key types",
  "The example inserts a fixed word list and looks up the same words.",
  [("trie::prefix","strtk.hpp 19652-19915")])

p("D02","A bloom filter never forgets an inserted element",
  "Every element inserted into a bloom filter is afterwards reported as contained, through any history of further insertions, copies, assignments, unions and compressions; unions and intersections of filters with the same parameters and compressions keep every element of either, respectively every common element, clearing empties the filter, and filters built from equal parameters and insertions are equal. For random elements, up to the projected count, the observed false-positive rate stays near the configured probability.",
  ["histories","configurations"],"all parameter sets (probability, projected count, size limits, seeds) x histories of insert/contains/clear/copy/union/intersect/difference/compress over arbitrary keys",
  "The example checks one parameter set with sequential keys and never copies, combines or reduces to odd sizes.",
  [("bloom::parameters, bloom::filter, compressible_filter","strtk.hpp 19918-20670")])

p("D03","A stored bloom filter loads back identical or is refused",
  "A filter written to a file and read back equals the original and answers every query as it did, and storing reports success exactly when everything was stored. A file that is missing, truncated, not readable to its end, or whose recorded sizes disagree is refused; a refused load of an existing file leaves an empty, usable filter, and no stored bytes make a loaded filter access memory outside its table.",
  ["inputs","fault_sequences"],"all filter states; truncations at each byte",
  "No test stores a filter.",
  [("bloom read/write","strtk.hpp 20300-20420")])

p("K01","Key-value parsing delivers each value to its registered target",
  "For every input built of pair blocks, each registered key's value reaches its target converted to the target's type, unregistered keys and malformed pairs are reported, and the outcome follows the configured failure policy; the delimiters are those configured. Unsigned numeric keys name the number their digits denote (up to nineteen digits); keys of any other type are the value their text converts to.",
  ["inputs","configurations"],"all pair lists with duplicates, missing and malformed pairs, unknown keys, empty values; string keys and numeric keys; both failure policies; target types string/int/real/containers",
  "One fixed message per map type is parsed.",
  [("keyvalue::parser, key_map, uintkey_map","strtk.hpp 24012-24376")])

p("K02","Column selection extracts the chosen columns of each line",
  "Extracting an ascending list of column indexes from delimited text places the token of each chosen column in its matching destination - typed variables, the elements of a container, or a selector fed by a split - for every set of columns and every line; extraction reports failure exactly when a chosen column does not exist or does not convert, and a selector leaves the destinations of absent columns unchanged.",
  ["inputs","configurations"],"all lines of 0..12 columns, all ascending column sets of size 1..12, typed, container and selector destinations, all delimiter sets",
  "One literal with one column list per arity at most.",
  [("column_list, parse_columns, column_selector","strtk.hpp 21990-23760")])

p("F01","File helpers preserve file contents byte for byte",
  "Writing a buffer to a file and loading it back, copying, concatenating and comparing files treat every byte exactly, for every size: a copy is identical, a concatenation is the first file followed by the second, two files are reported identical if and only if their contents are equal, and reported sizes are the real ones. Missing files, sources that cannot be read to their end and devices without room are reported as failure, and no byte is made up.",
  ["inputs"],"all contents incl. NULs and sizes around buffer multiples (0,1,block-1,block,block+1,several blocks), differing positions anywhere",
  "No test compares file contents across block boundaries.",
  [("fileio","strtk.hpp 18459-18700")])

p("F02","Line and plain-data file helpers round-trip their records",
  "Writing a range of lines and loading it back returns the same lines, line iteration visits each line once in order (bounded and conditional forms stop exactly where asked), and plain data written to a stream or memory block is read back equal, at offsets as well; the first failing read is reported, and a file that stops being readable delivers exactly the complete lines and records before that point.",
  ["inputs","histories"],"all line lists without newline characters, all typed record sequences, offsets within and beyond the file, short files",
  "Only incidental use.",
  [("for_each_line*, load_from_text_file, write_to_text_file","strtk.hpp 100-800"),("read_pod/write_pod","strtk.hpp 18700-19515")])

p("H01","The hash of a sequence depends on all its elements and nothing else",
  "Equal element sequences hashed with equal seeds give equal hashes whatever holds them (text, array, pointer, any sequence container) and whatever lies next to them in memory; every element at every position, the order of the elements, their number and the seed take part in the hash, so that families of distinct sequences have (almost) distinct hashes.",
  ["inputs","configurations"],"all sequences of the supported element types, lengths around the block sizes of the hash, all positions of a change, all seeds",
  "The examples print a few hashes; nothing compares them.",
  [("hash, details::compute_block, compute_pod_hash","strtk.hpp 20946-21090")])

p("U01","Timers report the interval between their start and their stop",
  "A stopped timer reports the time between the clock readings of its last start and last stop, in microseconds and seconds alike, for every pair of readings and through reuse and copying; while it runs, or when the clock stepped backwards, it reports the maximum value instead of a wrong interval. A scoped timer delivers the length of its scope at the end of the scope and not before.",
  ["inputs","histories"],"all clock readings (second boundaries, long intervals, backward steps), all start/stop/copy histories of several timers",
  "Timings are only ever printed.",
  [("util::timer, util::scoped_timer","strtk.hpp 24705-24825")])

p("R01","Storage and files are given back exactly once",
  "Every component that owns storage or files - token grids, prefix trees, bloom filters, delimiter sets, blocks read by the binary reader, combination counts, helpers that delete the objects a container points to, key-value parsers, holders, text and file helpers - releases each piece exactly once: after any history of operations, copies, reloads and failing operations included, destroying the objects leaves no more allocated memory and no more open descriptors than before, every deleted object is destroyed exactly once, and buffers supplied by the caller are neither changed nor released (unless the caller asked for it).",
  ["histories","inputs","fault_sequences"],"all operation histories with failing loads, unreadable and truncated files, full devices, copies and assignments; all container kinds",
  "No test observes memory or descriptors.",
  [("token_grid load/clear/destructor","strtk.hpp 6430-6480, 6930, 7355-7420"),("trie, bloom filter storage","strtk.hpp 19900-20110, 20300-20900"),("multiple_delimiter_predicate","strtk.hpp 1035-1110"),("delete_all, delete_if","strtk.hpp 21735-21960")])

p("V01","Type-erased value holders set and report the bound variable faithfully",
  "A holder bound to a variable assigns it exactly when the given text converts to its type, reports its content as that type's text form, and keeps doing so through copies, re-assignment and storage in containers; holders are equal exactly when they are bound to the same variable; scoped restoration always returns the original value, and attribute or action wrappers behave likewise.",
  ["histories","inputs"],"all histories of bind/assign/copy/clear/convert over several types, container growth",
  "One example assigns a few literals.",
  [("util::value, attribute, scoped_restore, semantic_action","strtk.hpp 20803-21330")])

p("R02","Exceptions pass through operations without loss or damage",
  "When an allocation fails, or a callback or predicate supplied by the caller throws, inside any operation, the exception reaches the caller (or the operation reports failure or its usual result); no memory and no descriptor is lost, every object involved can still be used, assigned and destroyed, token grids, prefix trees, bloom filters, parsers, holders and the variables assigned through them hold what they held before or what the operation would have given (a grid or filter being loaded is empty instead), and repeating the operation gives its usual result.",
  ["fault_sequences","inputs","histories"],"every allocation of every operation failing, every call of a callback or predicate throwing, all inputs and histories before and after it",
  "No test makes an allocation fail or throws from a callback.",
  [("operations over containers and text","strtk.hpp"),("prefix_tree, bloom_filter, compressible_bloom_filter","strtk.hpp 19900-21010"),("token_grid load, remove_row_if, remove_token_if, merge","strtk.hpp 5260-7720"),("binary reader, key-value parser, file helpers","strtk.hpp 13850-14960, 18640-19260, 24450-24750")])

p("I01","Independent uses of the library do not interfere",
  "An operation gives the same result when other operations run at the same time in other threads (each on data of its own, or all reading the same objects that nobody changes), when it is the first use of the library in several threads at once, and when it runs inside a callback of another operation, as when it runs alone; no such uses touch the same memory without synchronisation. Combination counts share one table, which initialize_n_choose_k prepares before threads start; objects that a single use changes (parsers, holders being assigned, offset predicates, sinks) belong to one thread at a time.",
  ["schedules","inputs"],"all interleavings of operations in several threads, all nestings of operations in callbacks, all first uses",
  "Every test is single-threaded and no test calls the library from within a callback.",
  [("all headers' operations; function-local statics, e.g. range_to_ptr_type, type_name, n_choose_k","strtk.hpp"),("callbacks: for_each_*, functional_inserter, semantic_action, filters","strtk.hpp 60-260, 3230-3290, 7725-7850, 21230-21400")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
