#!/usr/bin/env python3-vt
"""Generates properties.jsonl and MANIFEST.json (run by hand after editing; the results are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'include/dottorrent/'
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}
PROPS = [
P('C01', 'Hexadecimal text and bytes convert back and forth exactly, bad text is refused',
  'Encoding any byte sequence yields exactly two lower-case hexadecimal digits per byte, and decoding that text (in either letter case) gives the bytes back. Decoding to a fixed number of bytes succeeds exactly when the text has twice that many characters and all are hexadecimal digits; streaming decoding throws on an odd length or any other character. No conversion reads outside its input or writes outside its output.',
  ['inputs'], 'every byte sequence and every text of any length, both letter cases, all 256 character values',
  'the tests convert a handful of digests; they never use an odd length, a non-digit or a byte above 0x7f',
  [H+'hex.hpp'], [('byte to digits and digits to byte tables', H+'hex.hpp byte_to_hex, hex_to_byte, hex_to_int'), ('streaming and fixed-size conversion', H+'hex.hpp to_hexadecimal_string, from_hexadecimal_string')],
  observe=['returned text, returned bytes, thrown exception']),
P('C02', 'Percent-encoding yields only URL-safe text from which the input is recoverable',
  'Percent-encoding copies RFC 3986 unreserved characters and writes every other byte as a percent sign followed by its two upper-case hexadecimal digits, in order and with nothing added or lost. The result therefore contains only unreserved characters and complete escapes, and decoding it gives the input back. It writes exactly the encoded characters to the output it is given, of whatever kind.',
  ['inputs'], 'every string of any length over all 256 byte values', 'the tests encode two URLs',
  [H+'percent_encoding.hpp'], [('character classes', H+'percent_encoding.hpp is_unreserved, is_reserved_character'), ('encoding loop', H+'percent_encoding.hpp percent_encode, percent_encode_char')]),
P('C03', 'Percent-decoding accepts exactly the well-formed texts and decodes them exactly',
  'Percent-decoding succeeds exactly when every percent sign is followed by two hexadecimal digits, and then yields the text with each escape replaced by its byte and all else unchanged. A text that ends inside an escape made of valid digits is reported as incomplete, one with a complete escape containing another character as non-hexadecimal. It never reads past the end of the text.',
  ['inputs'], 'every string of any length over all 256 byte values, escapes at any position', 'the tests decode two well-formed URLs',
  [H+'percent_encoding.hpp', H+'hex.hpp'], [('decoding loop and status', H+'percent_encoding.hpp percent_decode'), ('digit pair value', H+'hex.hpp hex_to_byte')]),
P('C04', 'Hash algorithm names and identifiers correspond one to one',
  'Every supported hash algorithm has exactly one name; looking up that name gives that algorithm back. Every other text is recognised as no algorithm name, and asking for the name of an identifier without one throws instead of returning some text.',
  ['inputs'], 'every identifier value and every text', 'no test enumerates the names or tries a near miss',
  [H+'hash_function.hpp'], [('name table', H+'hash_function.hpp to_string, make_hash_function, is_hash_function_name')]),
P('C05', 'Flag sets combine as sets; file attribute text converts back and forth exactly',
  'Union, intersection, symmetric difference and complement of flag sets act bit by bit and the assigning forms update and return their left operand. The text form of a set of file attributes has exactly one letter (l, x, h, p) per attribute, parsing gives the union of the attributes of the letters so that text form and parsing are inverse, and any other letter is refused with an exception. The hybrid protocol version is exactly the union of version 1 and version 2.',
  ['inputs'], 'all flag values of 8, 16, 32 and 64 bit flag types; all attribute texts of any length', 'the file attribute test needs a library that is absent here and samples single letters',
  [H+'bitmask_operators.hpp', H+'general.hpp'], [('bitwise operators', H+'bitmask_operators.hpp'), ('attribute text', H+'general.hpp to_string, make_file_attributes')]),
P('C06', 'Size units and the rounding helpers compute the exact mathematical value',
  'A size literal is its number times the power of 1000 or 1024 its unit names, and a number of bits is converted to whole bytes. Rounding division gives the least integer not below the exact quotient and the two base-2 logarithms the floor and the ceiling, for every argument in range, including the largest ones.',
  ['inputs'], 'all 64-bit arguments whose exact result fits', 'no test looks at these helpers; piece counts and tree heights derive from them',
  [H+'literals.hpp', H+'utils.hpp'], [('unit factors', H+'literals.hpp'), ('div_ceil, log2_floor, log2_ceil', H+'utils.hpp')]),
P('C07', 'A hasher returns the digest of exactly the bytes given since the last digest',
  'Whatever way the data is cut into update calls (empty ones included), finishing writes the digest, by the algorithm the hasher was created for, of the concatenation of everything given since creation or since the previous finish. After finishing, the hasher is as new and starts from the empty message. Every advertised algorithm is served by that algorithm and no other; an identifier that is not advertised is refused.',
  ['inputs', 'histories'], 'every sequence of updates and finishes, with chunks of any size, for every algorithm', 'the tests hash one short string per algorithm in a single update',
  [H+'hasher/openssl_hasher.hpp', H+'hasher/single_buffer_hasher.hpp', H+'hasher/factory.hpp', 'src/hasher/backends/openssl.cpp'],
  [('forwarding and reset', H+'hasher/openssl_hasher.hpp openssl_hasher::update, finalize_to'), ('algorithm mapping', H+'hasher/openssl_hasher.hpp get_openssl_algorithm; src/hasher/backends/openssl.cpp get_evp_message_digest')],
  state=[('digest context', 'bytes absorbed since the last reset', 'src/hasher/backends/openssl.cpp message_digest::context_')]),
P('C08', 'A failing crypto library is reported, never turned into a wrong digest or a leak',
  'If the crypto library fails at any step (creating, starting, absorbing, finishing, restarting), the call reports it with an exception and never returns normally. An output buffer shorter than the digest is refused before anything is written, and nothing outside the buffer is ever written. Every context that was obtained is released exactly once, on the failure paths as well.',
  ['fault_sequences', 'inputs', 'histories'], 'every point at which a library call can fail, every output size, every algorithm identifier', 'the tests never make a library call fail and always pass buffers of the right size',
  ['src/hasher/backends/openssl.cpp', H+'hasher/backends/openssl.hpp', H+'hasher/openssl_hasher.hpp'], [('status checks and ownership', 'src/hasher/backends/openssl.cpp message_digest')]),
P('C09', 'The bounded queue is FIFO, keeps its capacity and never strands a waiter',
  'Under every interleaving, elements leave the queue in the order they entered, each exactly once, and no push makes the queue longer than its capacity at that moment. The non-blocking forms succeed exactly when there is room or an element; the blocking forms return only after having done their work. Whenever an operation creates room or an element, or changes the capacity, the threads waiting for that are woken, and shared state is only touched under the lock, which is always released.',
  ['schedules', 'histories', 'inputs'], 'every number of threads, every interleaving, every capacity (also when it is changed while threads wait)', 'no test runs the queue at all, let alone from several threads',
  [H+'concurrent_queue.hpp'], [('mutex and condition variables', H+'concurrent_queue.hpp push, try_push, pop, try_pop, set_capacity')], state=[('queue_', 'elements in order', H+'concurrent_queue.hpp'), ('capacity_', 'upper bound for pushes', H+'concurrent_queue.hpp')]),
P('C10', 'The object pool never exceeds its capacity and reuses returned objects safely',
  'A pool never has more objects in existence than its capacity; a request takes an idle object if there is one, creates one if the limit allows, and otherwise waits for a return. An object is in the hands of at most one holder, goes back to the pool when its last handle goes away after having been recycled exactly once, and its handle stays usable and is released properly if the pool is destroyed first.',
  ['histories', 'inputs', 'schedules'], 'every history of requests and releases, every capacity and initial size', 'no test uses the pool',
  [H+'object_pool.hpp', H+'concurrent_queue.hpp'], [('idle queue, creation budget and custom deleter', H+'object_pool.hpp object_pool::impl::get, recycle, deleter')], state=[('resources_left_', 'objects that may still be created', H+'object_pool.hpp')]),
P('C11', 'Aligned storage is aligned, large enough, or refused with an exception',
  'Storage requested for n elements is aligned as the allocator promises and has room for all n; a request for nothing gives no storage. A request whose byte size does not fit the address arithmetic is refused with a length error, and memory exhaustion with a bad-allocation error: it never returns null or too little. Storage obtained is released by the matching release, and the reported maximum is the exact limit.',
  ['inputs', 'fault_sequences'], 'every element count, several element sizes and alignments, and failure of the underlying allocation', 'no test allocates through it directly',
  [H+'aligned_allocator.hpp', H+'data_chunk.hpp'], [('overflow check and failure check', H+'aligned_allocator.hpp allocate, max_size, deallocate')]),
P('C12', 'Hash values are fixed-size, compare as byte strings and print and parse exactly',
  'A hash value of each algorithm has exactly the digest size of that algorithm and holds exactly the bytes it was made from; making one from data or text of any other length, or from text that is not hexadecimal, throws. Two are equal exactly when all their bytes are, ordering is the lexicographic order of the bytes as unsigned numbers, equal values hash equally, and the printed form is the hexadecimal form of the bytes which parses back to the same value.',
  ['inputs'], 'all values of all digest sizes; all texts and byte sequences of any length', 'the tests that touch these types need a library that is absent here and use one digest',
  [H+'hash.hpp', H+'hex.hpp', H+'literals.hpp'], [('basic_hash', H+'hash.hpp'), ('make_hash_from_hex', H+'hash.hpp')]),
P('C13', 'An info-hash keeps its identity: version, bytes, equality, order and hash agree',
  'An info-hash reports the protocol version it was made for and gives back exactly the binary and hexadecimal hash of each version it was made from; input of a wrong length is refused. Two are equal exactly when version and all hash bytes agree, the order is total and consistent with equality, and equal ones have equal hash codes. The truncated form of a version 2 hash is its first 20 bytes.',
  ['inputs'], 'all pairs of version 1, version 2 and hybrid info-hashes', 'the info-hash test needs a library that is absent here and compares fixed digests',
  [H+'info_hash.hpp'], [('info_hash constructors, comparison and std::hash', H+'info_hash.hpp')]),
P('C14', 'Checksums keep algorithm and bytes, and compare only within an algorithm',
  'Creating a checksum by name or identifier gives one of that algorithm holding exactly the given bytes (or zero bytes), of that algorithm\'s size; unknown names give a checksum under that name with exactly the given bytes. Wrong sizes and malformed text are refused. Two checksums are equal exactly when name and bytes agree, ordering is lexicographic within one name, and different names are unordered.',
  ['inputs'], 'all names, all identifiers, all values of any length', 'the checksum test needs a library that is absent here and uses a few keys',
  [H+'checksum.hpp'], [('make_checksum and comparison', H+'checksum.hpp')]),
P('C15', 'A merkle tree stores its leaves and computes every inner node from its children',
  'A tree for n leaves has the least power of two not below n as leaf count (two for none) and one node less than twice that. Storing a leaf changes that node and no other, reading gives it back, and after an update every inner node is the digest of its two children, up to the root. No operation touches memory outside the tree, for any leaf count and index in range.',
  ['inputs', 'histories'], 'every leaf count and index, every content', 'the merkle test needs a library that is absent here and uses one small tree',
  [H+'merkle_tree.hpp', H+'utils.hpp'], [('index arithmetic', H+'merkle_tree.hpp nodes_in_layer, get_flat_index, total_node_count_for_height'), ('update', H+'merkle_tree.hpp update')]),
P('C16', 'The announce list stays sorted, gapless in tiers, and finds what it holds',
  'After any history of insertions and removals the list is ordered by tier and by URL within a tier, tiers are numbered without gaps and nothing else was added or lost. Lookup and membership agree with the contents, and the returned position is that of the inserted element.',
  ['histories', 'inputs'], 'every history of insert, emplace, erase and clear', 'the announce list test needs a library that is absent here and builds two fixed lists',
  [H+'announce_url_list.hpp', 'src/announce_url_list.cpp'], [('ordered insertion, tier renumbering', H+'announce_url_list.hpp insert, emplace, erase, find, contains')]),
P('C17', 'File storage totals, piece counts and piece ranges agree with the files listed',
  'After any history of additions and removals the total size is the sum of the file sizes and the regular total that of the non-padding files; the piece count is the rounded-up quotient of the total and the piece size, and the piece range of a file covers exactly the pieces that contain its bytes. Running sums of file sizes are exact, copies carry everything, and no directory index survives a change of the files.',
  ['histories', 'inputs'], 'every history of additions and removals, all sizes', 'the file storage test needs a library that is absent here and uses one directory',
  [H+'file_storage.hpp', 'src/file_storage.cpp'], [('running totals', 'src/file_storage.cpp add_file, remove_file, piece_count, get_pieces_offsets')]),
P('C18', 'Alignment padding puts every file on a piece boundary and changes nothing else',
  'After aligning a storage, every regular file starts on a piece boundary, the regular files are the same and in the same order, only padding files smaller than a piece were added, and none after the last file. A storage is reported aligned exactly when every regular file starts on a boundary.',
  ['inputs'], 'every list of file sizes and every piece size', 'no test aligns a storage',
  ['src/file_storage.cpp'], [('optimize_alignment, is_piece_aligned', 'src/file_storage.cpp')]),
P('C19', 'Magnet links round-trip: parsing an encoded link gives the same link',
  'Encoding a magnet link and parsing the result yields the same topics, name, sizes, trackers and keywords; values are percent-encoded so that no character of a value is taken for a separator. Malformed links are refused with an exception and parsing always ends.',
  ['inputs'], 'every magnet link value; every text', 'the magnet test needs a library that is absent here and checks a prefix of one link',
  [H+'magnet_uri.hpp', 'src/magnet_uri.cpp'], [('encode and parse', H+'magnet_uri.hpp, src/magnet_uri.cpp')]),
P('C20', 'Metafiles round-trip: writing a metafile and reading it back loses nothing',
  'Writing a metafile and reading the result yields an equal metafile for every version, and reading then writing an existing torrent keeps its info-hash. Malformed metafiles are refused with an exception and never crash.',
  ['inputs'], 'every metafile and every byte string', 'the tests read a few sample torrents and need a library that is absent here',
  ['src/metafile_parsing.cpp', 'src/metafile_serialization.cpp', 'src/metafile.cpp'], [('parse_* and write functions', 'src/metafile_parsing.cpp, src/metafile_serialization.cpp')]),
P('C21', 'Hashing a storage yields the piece hashes of its bytes whatever the threading',
  'Whatever the number of threads and their timing, hashing a storage produces for every version the hashes of its pieces as the specification defines them, and the same each time; it ends, also when cancelled.',
  ['schedules', 'inputs', 'configurations'], 'every thread count, schedule, storage and piece size', 'the tests hash two small directories and need a library that is absent here',
  ['src/storage_hasher.cpp', 'src/v1_chunk_hasher_sb.cpp', 'src/v2_chunk_hasher_sb.cpp', 'src/v1_piece_writer.cpp', 'src/v2_piece_writer.cpp'], [('pipeline', 'src/storage_hasher.cpp, src/chunk_processor_base.cpp')]),
P('C22', 'Verifying a storage marks exactly the pieces whose data matches',
  'Verification reports a piece as valid exactly when the bytes on disk hash to the recorded value; changed, truncated and missing files invalidate exactly the pieces they touch.',
  ['inputs', 'fault_sequences', 'schedules'], 'every storage, every modification of the files on disk', 'the tests verify one unmodified directory and need a library that is absent here',
  ['src/storage_verifier.cpp', 'src/v1_piece_verifier.cpp', 'src/v2_piece_verifier.cpp'], [('piece comparison', 'src/v1_piece_verifier.cpp, src/v2_piece_verifier.cpp')]),
P('C23', 'DHT nodes print as host and port and compare by host, then port',
  'A DHT node holds exactly the host text and port it was made from and prints as host, colon and decimal port. Two are equal exactly when both agree, and ordering is that of the host text and then of the port.',
  ['inputs'], 'every host text and port', 'no test uses the type',
  [H+'dht_node.hpp'], [('dht_node', H+'dht_node.hpp')]),
P('C24', 'Reading a storage yields every byte of its files once and in order',
  'The reader delivers the bytes of all files in storage order, each once, cut at piece and file boundaries as the protocol version requires, with missing files replaced as documented.',
  ['inputs', 'fault_sequences', 'schedules'], 'every storage, chunk size and file on disk', 'no test reads with a chunk size that does not divide the files',
  ['src/chunk_reader.cpp', 'src/v1_chunk_reader.cpp', 'src/v2_chunk_reader.cpp'], [('read loops', 'src/v1_chunk_reader.cpp, src/v2_chunk_reader.cpp')]),
]
NA = {
 'C20': 'the decoder and serialiser sit on the bencode library, which is not installed: the functions cannot be compiled here, and a stand-in for that library would be a model of the larger half of the property',
 'C21': 'a property of whole runs of a multi-threaded pipeline over real files; contracts on single functions with the back ends available here express neither the schedules nor the file contents, and the sources need the absent bencode library',
 'C22': 'depends on the contents of files on disk and on the threads of C21; the sources need the absent bencode library',
 'C16': 'insert and erase shift a vector of elements that own strings and find their place with heterogeneous comparisons of URLs; contracts for ordered insertion over such sequences were not completed, and the template members for returned positions do not compile for all their uses, so only parts could be stated',
 'C19': 'the encoder and parser work through formatted output, regular-expression-like splitting and string maps of libraries that are absent here; a round trip needs a specification of the whole grammar over unbounded strings, which no contract within reach of the back ends decides',
 'C24': 'the loops are over stream reads of real files and hand the data to other threads; no contract on the stream library within reach ties the bytes delivered to file contents, and the sources need the absent bencode library',
}
NOTBUILT = 'not decided yet by the machinery in this tree'
TECH = 'contract-based deductive verification: VC generation from the LLVM IR of the real sources, discharged by z3 and cvc5'
NOTE = {}
NOTE_DEFAULT = ('Every function listed in the evidence is verified against its contract for all inputs within the stated preconditions, on the code compiled from the current tree. '
                'Trusted: the clang front end, the VC generator in /verif/vc, z3 and cvc5, and the assumed contracts of library functions listed in the evidence.')
CLAIMED = [p['id'] for p in PROPS if os.path.exists(f"{V}/props/{p['id'].lower()}.py")]
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in PROPS: f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && python3-vt -m compileall -q vc props', 'checks': [], 'not_applicable': [],
         'notes': 'No hooks were added to /repo. Repairs of defects are the "fix:" commits listed in known_findings.txt.'}
    for p in PROPS:
        i = p['id']
        if i in CLAIMED:
            m['checks'].append({'property': i, 'quick_cmd': f'python3-vt /verif/check.py --property {i} --tier quick', 'thorough_cmd': f'python3-vt /verif/check.py --property {i} --tier thorough',
                                'evidence_file': f'evidence/{i}.json', 'technique': TECH, 'level': 'proof', 'level_note': NOTE.get(i, NOTE_DEFAULT)})
        else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, NOTBUILT)})
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
main()
