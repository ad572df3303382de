D = {
'C01': ('hex.hpp: byte_to_hex, hex_to_byte, hex_to_int, to_hexadecimal_string (3), from_hexadecimal_string (3), make_array_from_string helpers',
 'Function against spec function. `hexdig/unhex/ishex` are written from the statement; loops by invariants "output so far = encoding of the input so far" (ghost position = input pointer or counter). Malformed text: witness position j0 of the bad pair, invariant "not beyond j0". The round trip is a lemma over the two contracts.',
 'unbounded; fixed-size variants for sizes 4, 16, 20, 32'),
'C02': ('percent_encoding.hpp: is_unreserved, percent_encode_char, percent_encode (iterator and string forms)',
 'Output of the whole text as recursive spec function L(k) (length of the encoding of the first k characters) and fixed sequence S, unfolded at the loop position; postcondition gives length and each character. Recoverability: lemma that decoding one encoded character gives it back.',
 'unbounded; pointer and back_insert output iterators'),
'C03': ('percent_encoding.hpp: percent_decode (all), hex.hpp hex_to_byte',
 'The decoder is specified as a four-state automaton q(k) with output length O(k); acceptance iff q(n)=0; invariants relate the loop\'s pending-character buffer to q. Separate contracts for well-formed, malformed, truncated, non-hexadecimal text and for memory safety on any text.',
 'unbounded'),
'C04': ('hash_function.hpp: to_string, make_hash_function, is_hash_function_name', 'All 2^32 identifier values and all texts of any length, by comparison with the table of names.', 'unbounded'),
'C05': ('bitmask_operators.hpp operators at 8/16/32/64 bit; general.hpp to_string(file_attributes), make_file_attributes', 'Straight-line equalities for the operators; the parse loop by invariant "result = union of letters so far" over a spec fold; the round trip over all 16 attribute sets.', 'unbounded'),
'C06': ('literals.hpp; utils.hpp div_ceil, log2_floor, log2_ceil', 'Exact results over 128-bit arithmetic, precondition "the exact result fits".', 'unbounded'),
'C07': ('openssl_hasher, hasher/factory.hpp make_hasher, message_digest (openssl.cpp)', 'Ghost EVP context (algorithm, absorbed byte sequence, state); representation invariant of a hasher established by construction, preserved by update and finalize; "digest" is an uninterpreted function of (algorithm, length, bytes). By induction over contracts it holds for every history.', 'unbounded, each of the advertised algorithms'),
'C08': ('message_digest and openssl_hasher, same functions', 'Every EVP call is explored with success and failure; postconditions: failure -> exception, ledger of contexts balanced, out-of-bounds writes are memory obligations.', 'every single and combined fault; unbounded sizes'),
'C09': ('concurrent_queue.hpp, every public function', 'Monitor reasoning (rely/guarantee): lock ownership is ghost state, the protected state is havocked on every acquisition subject to the monitor invariant, every release must re-establish it; condition variables: waiting releases and re-acquires, returns spuriously; wake-up duty: an operation that makes a waiting predicate true must notify (all waiters it enables). Each operation is proved as an atomic transition of an abstract sequence.', 'any number of threads, any capacity; fairness assumed'),
'C10': ('object_pool.hpp: construction, get, recycle via deleter, destruction', 'Ledger of objects (idle, held, created, recycled) as ghost state over the shared_ptr/weak_ptr implementation of libstdc++ (executed, not assumed); the queue is replaced by its contract C09.', 'any capacity; one requester at a time (documented)'),
'C11': ('aligned_allocator.hpp allocate, deallocate, max_size, ==; seven instantiations', 'Allocation functions explored with success and failure; size arithmetic exact.', 'unbounded'),
'C12': ('hash.hpp basic_hash, make_hash_from_hex, comparison, std::hash, hex_string; all 17 digest types', 'Bytewise contracts; loops of fixed trip count unrolled completely.', 'unbounded input lengths, all digest sizes'),
'C13': ('info_hash.hpp', 'Bytewise contracts over all version combinations; total order and consistency as lemmas over the comparison contracts.', 'unbounded'),
'C14': ('checksum.hpp', 'Bytewise contracts; decoding into a vector proved once and used as a callee contract; comparisons by relation of the operands (equal, less, prefix, greater, extends) with an invariant up to the first difference.', 'unbounded names and values'),
'C15': ('merkle_tree.hpp, utils.hpp (log2)', 'The node vector is an array of 256-bit words of symbolic length 2^(h+1)-1, h any height up to 57. update() is verified against a recursive specification T (a leaf is itself, an inner node the digest of its two children; the digest an uninterpreted function): nested loops cut, the candidates say on which index ranges the nodes agree with T, Houdini keeps the inductive ones (probed at h = 3 first, then for all h). Observers, spans, construction, copies by direct symbolic execution. Hard quantifier-free queries are raced between z3, its newer release and cvc5. The ISA-L multi-buffer update() is not compiled here and not covered (reading it: it passes an even index to parent(), which looks wrong).', 'up to 2^57 leaves (more are shown to be refused)'),
'C17': ('file_storage.hpp/.cpp: construction, copies, add_file (3), add_files, remove_file, clear, totals, counts, piece size and count, piece hashes, piece ranges and spans, running sums, element access, file_mode, protocol',
 'A storage is a sequence of abstract entries (size, padding flag, path, v2 flag as functions of the entry) of symbolic length; every contract starts from an arbitrary such storage with arbitrary other members and the reported total equal to the sum, and re-establishes that. Sums, regular sums, counts and flags of prefixes are recursive spec functions unfolded at the position a loop variable denotes (pointer stride or index; libstdc++ algorithms such as transform_reduce and find_if are executed, four-fold unrolling included); candidates relate loop variables and members to them, Houdini keeps the inductive ones. remove_file: first match K as ghost, invariant "none before". Lemmas: what the piece range means byte by byte; the sum without file K. The vectors are abstract arrays through contracts of std::vector. Piece ranges: the final values of the loops are replaced by the sums the invariants give (an obligation each), then one obligation per piece size. file_entry itself (harness/entry.cpp): construction, copies, moves, equality and the flags of an entry without checksums; the optional members of the target of an assignment are all set or all unset.',
 'unbounded number of files (at most 2^50) and sizes (together below 2^62)'),
'C18': ('file_storage.cpp: optimize_alignment, is_piece_aligned, with clear and add_files',
 'The wanted sequence of outputs is a recursive specification (position L(i) of file i, padding T(i) so far); the loop that moves entries into the new vector has the invariants "length = L(i), contents = specification, entries from i on untouched, padding = T(i)"; then clear and add_files run as in C17. That every file starts on a boundary, padding is smaller than a piece and not empty, and the totals add up are lemmas by induction over that specification.',
 'unbounded, as C17; the padded files below 2^62 bytes'),
'C23': ('dht_node.hpp', 'Bytewise contracts over an abstract std::string; printing against decimal digits for all ports.', 'unbounded'),
}
