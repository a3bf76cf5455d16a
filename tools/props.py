"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []


def p(id, title, st, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


NOTEST = 'The suite never calls this code; even if it did, it could only sample '
p('C01', 'base64 and web64 encoders emit exactly the standard text, in exact space',
  'For every byte string, the base64 and web64 encoders write exactly the RFC 4648 text of that string (web64: with - and _ and padded with dots) and a NUL if there is room, and touch no byte outside the output space the caller declared. When the declared space is too small they write exactly the part of the text that fits. The allocating variants return a heap block holding the text and the NUL together with its length, or report the failure as documented, and never a wrong block.',
  ['inputs'], 'all input byte strings, all lengths (including 0), all declared output sizes, allocation failing or not',
  NOTEST + 'a few strings; exactness of every table entry, of the tail handling for every length mod 3 and of the bounds needs all of them.',
  ['coda/base64.c', 'coda/web64.c'], [('group encoder', 'coda_base64_encode / coda_web64_encode'), ('allocating wrapper', 'coda_base64_encode_alloc')])
p('C02', 'base64 and web64 decoding inverts encoding and rejects foreign bytes safely',
  'For every byte string x, decoding the encoded text of x gives back exactly x and its length. For every text, the decoder accepts exactly the texts made of alphabet characters with admissible padding, reports exactly the number of bytes produced, and never reads outside the input or writes outside the output the caller declared.',
  ['inputs'], 'all texts over all 256 byte values, all lengths, all declared output sizes',
  NOTEST + 'a few texts; the decoding table has 256 entries and malformed inputs are the interesting ones.',
  ['coda/base64.c', 'coda/web64.c'], [('group decoder', 'coda_base64_decode / coda_web64_decode'), ('membership test', 'coda_isbase64')])
p('C03', 'base58 encoding gives the exact base-58 text of the number, within bounds',
  'For every byte string of up to 2^30 bytes, coda_base58_encode writes one 1 per leading zero byte followed by the base-58 digits (Bitcoin alphabet, no leading zero digit) of the number the remaining bytes denote, then a NUL, all of it cut to the declared output space and touching nothing beyond it. coda_base58_encode_alloc returns a block holding exactly that text with its NUL and returns the length of the text; when memory runs out it returns the size it needed and a NULL block. The scratch memory always suffices and is always released.',
  ['inputs'], 'all byte strings up to 2^30 bytes, all declared output sizes, each allocation failing or not',
  'The suite encodes a dozen fixed strings. Exactness of the digits, sufficiency of the scratch length (log 256 / log 58 rounded) and bounds concern every string and length.',
  ['coda/base58.c'], [('digit conversion', 'coda_base58_encode'), ('allocating wrapper', 'coda_base58_encode_alloc')])
p('C04', 'base58 decoding inverts encoding and reports the first invalid character',
  'For every byte string x of up to 2^30 bytes, decoding the base58 text of x gives back exactly x. For every text, coda_base58_decode returns -(position+1) of its first character outside the alphabet, or else writes one zero byte per leading 1 followed by the bytes of the number the rest denotes (no leading zero byte) and returns their count; it writes nothing past them. coda_base58_decode_alloc does the same into a block of its own and frees it and yields NULL with a negative result on any failure. No scratch memory is lost. coda_isbase58 accepts exactly the 58 alphabet characters.',
  ['inputs'], 'all texts over all byte values up to 2^30 bytes, each allocation failing or not',
  'The suite decodes a dozen texts it has just encoded and never an invalid one. Inverse-ness, the room for the bytes and the error position concern every text.',
  ['coda/base58.c'], [('digit conversion', 'coda_base58_decode'), ('allocating wrapper', 'coda_base58_decode_alloc'), ('membership', 'coda_isbase58')])
p('C05', 'URL encoding produces exactly the escaped text within its space bound',
  'For every byte string, coda_urlenc (buffer, pointer+length and std::string forms) and coda_urlenc_noplus produce exactly the encoding: unreserved characters (letters, digits, - . _ ~) are kept, a space becomes + (noplus: %20), every other byte becomes % and its two upper-case hex digits. The buffer form writes at most 3*n+1 bytes, ends its text with NUL, returns its length, and touches nothing after the NUL; the input is read only inside the given length.',
  ['inputs'], 'all byte strings (embedded NULs included) of all lengths',
  NOTEST + 'a few strings; the claim covers each of the 256 byte values at every position and the exact bound of the destination.',
  ['coda/url.cpp'], [('encoders', 'coda_urlenc coda_urlenc_noplus')])
p('C06', 'URL decoding inverts URL encoding and is total on malformed text',
  'For every byte string x, coda_urldec of the urlenc or urlenc_noplus encoding of x is exactly x. For every text, well-formed or not, every coda_urldec form decodes item by item: + to a space, %HH with two hex digits (a non-digit counts as 0) to that byte, a % with fewer than two following bytes and any other byte to itself. It never reads past the given length (truncated escapes at the end included), never produces more bytes than the input has, and the buffer form writes only its result and the NUL.',
  ['inputs'], 'all texts over all byte values and all lengths, escapes cut anywhere',
  NOTEST + 'some texts; out-of-range reads at a truncated escape and inverse-ness need every text.',
  ['coda/url.cpp'], [('decoders', 'coda_urldec')])
p('C07', 'Bounded URL escape/unescape never overrun the destination and stop cleanly',
  'For every NUL-terminated text and every destination size, coda_url_escape, coda_url_unescape and coda_url_preunescape stay inside the destination. They convert item by item for as long as text remains and at least 4 (escape), 3 (unescape), 6 (preunescape) bytes of the destination are free, never leave half an item, and NUL-terminate when the size is not 0. Escape writes + for space, %HH for reserved bytes; unescape handles %HH, \\xHH, %uHHHH (as UTF-8 below U+0800, nothing above) and +; preunescape decodes only escapes of bytes below 0x80 and copies the others as they are.',
  ['inputs'], 'all texts, all destination sizes from 0 up, escapes cut anywhere',
  NOTEST + 'a few sizes; overruns appear only at particular combinations of text and remaining room.',
  ['coda/url.cpp'], [('conversion loops', 'coda_url_escape coda_url_unescape coda_url_preunescape')])
p('C08', 'character and substring searches return the first or last match, or nothing',
  'Each sized or NUL-terminated search (forward, backward, case-insensitive, character or substring) returns a pointer or position exactly at the first (for the reverse searches: last) match in the searched range, and reports no match only when there is none. It reads only the bytes of the given range and the terminator of NUL-terminated arguments.',
  ['inputs'], 'all haystacks, lengths, needles (including empty ones) and characters, all byte values',
  NOTEST + 'some haystacks; first-match minimality and bounds quantify over all positions.',
  ['coda/string.c'], [('character searches', 'coda_strnchr coda_strxchr coda_revnchr coda_revxchr coda_strnchp coda_strxchp'), ('substring searches', 'coda_stristr coda_strnstr coda_strxstr')])
p('C09', 'span functions return the exact longest qualifying prefix or suffix',
  'Each span function (forward or reverse, case-sensitive or not, accepting or rejecting an alphabet) returns exactly the length of the longest prefix (reverse: suffix) of the given range whose bytes all belong (complement variants: do not belong) to the alphabet. It reads only the given range and the alphabet string.',
  ['inputs'], 'all ranges, lengths and alphabets over all byte values',
  NOTEST + 'some strings; maximality quantifies over every byte of every range.',
  ['coda/string.c'], [('span loops', 'coda_strispn coda_strnspn coda_strxspn coda_revnspn coda_revxspn coda_strispc coda_strnspc coda_strxspc coda_revnspc coda_revxspc')])

p('C10', 'decimal and dotted-quad parsers give the exact value and reject malformed text',
  'When the given range consists of decimal digits only (atoi: after one optional minus sign), coda_atou and coda_atoi return exactly the number it denotes, modulo 2^64 (an empty run is 0); with any other byte anywhere in the range they return 0. coda_inet_addr returns the address in network byte order for exactly the texts made of four runs of decimal digits separated by three dots, each run denoting at most 255 at every step (an empty run counts as 0), and INADDR_NONE for every other text. None of them reads outside the given range.',
  ['inputs'], 'all byte strings of all lengths (up to 2^63 - 1)',
  NOTEST + 'a few numbers; overflow, empty octets, too many octets and reads past the range need every text.',
  ['coda/string.h', 'coda/string.c', 'coda/socket.h'], [('decimal parsers', 'coda_atou coda_atoi'), ('address parser', 'coda_inet_addr')])
p('C11', 'coda_gmtime computes the exact civil date of every representable second',
  'For every time from 0 to the last second of the year 2147483647, coda_gmtime fills in exactly the proleptic Gregorian UTC date and time: seconds, minutes, hours, day of the month, month counted from 1, full year, day of the week; no other field is touched.',
  ['inputs'], 'all seconds from 0 to the end of the year 2147483647',
  NOTEST + 'a few dates; the century and 400-year rules and the day arithmetic concern every day of every year.',
  ['coda/gmtime.h'], [('division-free date arithmetic', 'coda_gmtime')])
p('C12', 'shm::hash_map behaves as a bounded map for every history of operations',
  'After any history of insert, erase, clear and attach, a shm::hash_map read returns exactly the last value inserted for the key and not erased since, or reports absence. insert fails exactly when the key is new and every node is in use, and then changes nothing; erase reports whether the key was there and removes only it; size is the number of stored keys; iteration from begin() to end() visits each stored pair exactly once. attach lays the map out inside the segment without overlap, initialises a fresh segment to the empty map, keeps an existing one as it is, and refuses one with another geometry untouched.',
  ['inputs', 'histories'], 'all keys, values and reachable map states (any chain shapes, any order of freed cells), hence all histories; verified for hash_map<uint64_t, 24, 11>',
  'The suite has no test of the shared-memory containers. Chain surgery goes wrong only for particular positions, collisions and fill levels.',
  ['coda/shm_hash_map.tcc', 'coda/shm_hash_map.hpp'], [('chains', 'unprotected_insert unprotected_erase unprotected_read'), ('iteration', 'const_iterator begin end'), ('layout', 'attach required_space')])
p('C13', 'shm::pool never hands out a cell in use and never loses one',
  'After any history of allocate, free (of a cell in use) and clear, shm::pool::allocate returns a cell in range that is not in use, and fails exactly when all the cells are in use. free makes exactly its cell available again and cannot fail; clear makes all cells available; allocated_objects is the number of cells in use.',
  ['histories'], 'all reachable pool states (any number of cells in use, freed in any order), hence all histories; verified for pool<uint64_t, 24>',
  'The suite has no test of the pool. A cell handed out twice shows only after particular orders of frees.',
  ['coda/shm_pool.tcc', 'coda/shm_stack.tcc'], [('free-cell stack', 'shm::stack'), ('bump counter', 'shm::pool')])
p('C14', 'shm::hash_map holds the right lock around every access and always releases it',
  'The locked operations of shm::hash_map (read, insert, erase, clear, size) touch the shared memory only while they hold the lock: shared for those that only read, exclusive for those that write. On every return and every exception the lock is given back, unless the releasing semop itself failed. The semaphore operations used admit at most one writer and no reader next to it, and are undone when the holder dies. connect either yields an attached map with its ids, or throws coda_error, detaches the segment and forgets the ids; disconnect and the destructor detach the segment.',
  ['schedules', 'fault_sequences'], 'all interleavings of any number of processes (through the lock invariant), every semop, ftok, shmget, semget, semctl and shmat failing or not',
  'No test of the shared-memory containers exists; a missing lock needs a particular interleaving, and the error paths need failing system calls.',
  ['coda/shm_hash_map.tcc'], [('semaphore pair', 'lock_read_rw unlock_read_rw lock_write_rw unlock_write_rw'), ('connection', 'connect connect_shm connect_sem disconnect')])

p('C15', 'file helpers report every failure, lose no descriptor, keep files intact',
  'Whatever fails, coda_fdmove, coda_fdopen, coda_mmap, coda_mkpath, coda_mkpidf, log_create and coda_random_init return success exactly when every step they document succeeded, and otherwise -1; every descriptor they open is closed exactly once or handed to the caller, and no other is closed. coda_mkpidf writes the pid and a newline only into an empty file and only while it holds the exclusive lock it took without waiting. coda_mmap imposes a given size on the file and otherwise takes the size of the file. coda_mkpath creates every parent directory in order, accepts those that exist, and gives the path back unchanged. log_create opens for appending, makes standard error the log, and sets the level only on success. coda_random_init seeds the generator once, from four bytes it really read.',
  ['fault_sequences', 'inputs'], 'all arguments; every system call failing or not, with any errno, and reads and writes that are short',
  'The suite calls none of them; each error path needs a particular system call to fail, and a lost descriptor shows nowhere in a result.',
  ['coda/system.c', 'coda/logger.c', 'coda/random.c'], [('descriptor ownership', 'coda_fdmove coda_fdopen coda_mmap coda_random_init'), ('pid file', 'coda_mkpidf'), ('parents', 'coda_mkpath'), ('log', 'log_create')])
p('C16', 'socket helpers set up exactly what was asked, or fail without a leak',
  'coda_listen and coda_connect make one TCP socket for the given address and port, coda_accept takes one connection; non-blocking mode is set as asked before use, the address may be reused before it is bound, and the backlog is the one given. The result is the socket exactly when every step succeeded (for connect also when it is in progress), and then it is open; otherwise -1, and the socket was closed exactly once. coda_accept stores the peer address exactly on success. The option setters set exactly the option and value given. coda_unix_recv repeats after interruptions only and returns the count the call gave or -1; coda_unix_send asks for no SIGPIPE.',
  ['fault_sequences', 'inputs'], 'all arguments; every system call failing or not, with any errno; any number of interruptions',
  'The suite calls none of them; each error path needs a particular system call to fail.',
  ['coda/socket.h'], [('set-up', 'coda_listen coda_connect coda_accept'), ('options', 'coda_set_nonblk coda_set_sckopt'), ('transfer', 'coda_unix_recv coda_unix_send')])
p('C17', 'signals raise exactly their flags, and a daemon detaches in order or fails',
  'coda_signal_init installs one handler for each of the listed signals, and that handler sets exactly the flag of its signal (terminate for INT and TERM, changecfg for HUP, rotatelog for USR1, changebin for USR2) and no other; coda_signal_init_norestart does the same and turns SA_RESTART off. coda_daemon_fork forks once, only the parent of a successful fork exits (with status 0), and only the child goes on: its own session, umask cleared, standard input and output replaced and nothing else, no descriptor lost. coda_daemon_load installs the signals, then forks if asked, then writes the pid file asked for, and does nothing after a failure; coda_daemon_stop removes exactly that file. Success is reported exactly when every step succeeded.',
  ['fault_sequences', 'inputs'], 'all signals and flag values, all options; every system call failing or not',
  'The suite calls none of them; the order matters only when a step in the middle fails.',
  ['coda/daemon.c'], [('signals', 'coda_signal_handle coda_signal_init coda_signal_init_norestart'), ('detaching', 'coda_daemon_fork'), ('life cycle', 'coda_daemon_load coda_daemon_stop')])

p('C18', 'synque hands every element over once, oldest first, under its mutex',
  'Under any interleaving of threads, coda::synque behaves as one FIFO queue: add puts the element in as the newest and wakes a waiting thread; get hands out the oldest element, or in its bulk form the oldest max_count (all if that is not positive or too many) in order, and removes exactly those; size is the number of elements at one moment. get fails with -1 exactly when the queue is empty: at once if it may not wait, and otherwise after one wait that ended with the queue still empty. The deque is used only while the mutex is held, and no call returns or throws with the mutex held; when copying an element throws, nothing is lost or handed out twice.',
  ['schedules', 'fault_sequences'], 'all interleavings of any number of threads (the content is arbitrary whenever the mutex is obtained), all counts and flags, every copy of an element throwing or not',
  'The suite has no test of synque; a race or a lost element needs a particular interleaving, a leaked lock needs a copy that throws.',
  ['coda/synque.hpp'], [('hand-over', 'coda::synque::add coda::synque::get'), ('lock', 'pthread_mutex_lock pthread_cond_wait')])

p('C19', 'formatting into std::string never truncates, overruns or half-applies',
  'For every format and arguments whose text is at most 2^31 - 1 bytes: coda_strprintf returns exactly that text; coda_strappend appends it to the string; coda_strnappend appends, and coda_strnprintf inserts at the given position, its first num bytes (all if it is shorter). The integer result is the number of bytes added; the rest of the string keeps its content and place. If the text cannot be produced, or the position lies beyond the end of the string, the result is -1 (an empty string from coda_strprintf) and the string is unchanged. This holds for texts and limits on either side of the internal buffer size; no buffer is overrun, no memory leaks, and the variable arguments are read only through a fresh list.',
  ['inputs', 'fault_sequences'], 'all texts, limits, positions and string contents; conversion failing or not',
  'The suite does not call these functions; the second pass is needed only for texts of 32767 bytes and more, and failures only for arguments that cannot be converted.',
  ['coda/string.cpp'], [('two-pass formatting', 'coda_strprintf coda_strappend'), ('limited formatting', 'coda_strnappend coda_strnprintf')])
p('C20', 'splitting reports every field, in order and unchanged; sets hold every field',
  'coda_split_string returns exactly the maximal delimiter-free parts of its source, in order and byte for byte: all of them (one more than there are delimiters) or, with ignore_empty, those that are not empty. The sized form also accepts zero bytes in the source, which count as delimiters. coda_get_stringset inserts exactly the comma-separated fields of a non-empty string and nothing for an empty or null one; coda_get_uint64set inserts exactly the numbers that the fields which start with one denote and nothing for the others. coda_random_string returns exactly the given number of bytes, each from the given alphabet. None reads outside its source.',
  ['inputs'], 'all sources, delimiter lists, flags and sizes',
  'The suite does not call these functions; a wrong last field, an empty field between delimiters or a field without a number needs particular input.',
  ['coda/string.cpp'], [('splitting', 'coda_split_string coda_get_stringset'), ('numbers', 'coda_get_uint64set'), ('random strings', 'coda_random_string')])

p('C21', 'request parameters and headers: every pair stored, in order, unchanged',
  'coda_get_params and coda_get_params_buf store, in order, exactly one pair for each item between ampersands that has an equals sign: the key is what comes before its first equals sign and the value all that follows it in the item, both byte for byte. coda_get_header and coda_get_header_buf do the same for the lines ended by CR LF or the end of the text and the first colon, and stop at the first empty line. A later pair replaces the value of an earlier one with the same key, and keys that do not occur keep their values. A null source gives -1 and changes nothing; everything else gives 0. Nothing outside the source is read.',
  ['inputs'], 'all sources and lengths',
  'The suite does not call these functions; empty keys and values, items without separator, separators inside values and lone CR or LF need particular input.',
  ['coda/url.cpp'], [('parameters', 'coda_get_params coda_get_params_buf'), ('headers', 'coda_get_header coda_get_header_buf')])

p('C22', 'removing tones maps each Vietnamese letter to its base and keeps the rest',
  'coda_remove_tones_utf8 takes its input apart into UTF-8 characters by their first bytes. In the result, in order: each Vietnamese letter (every vowel with any quality and tone marks in composed form, and the letters D with stroke and Eth, in either case) is replaced by its base Latin letter in the same case; combining diacritical marks (U+0300 to U+036F) are dropped; every other character is kept byte for byte. When the last character is cut by the end of the input, what is there of it is kept; after a character that denotes zero the remaining bytes are copied as they are. The result is never longer than the input, and nothing outside the input is read.',
  ['inputs'], 'all byte strings of all lengths, well-formed UTF-8 or not',
  'The suite does not call this function; each of the letters, the limits of the marks and a character cut at the end needs its own input.',
  ['coda/vietnam.cpp'], [('character loop and table', 'coda_remove_tones_utf8')])

p('C23', 'coda_cache: newest set survives, limits kept, list and map never part',
  'After any history of set, get and erase calls a coda_cache holds exactly one element for each key that was set and neither erased, expired nor dropped since, with the value last set, ordered from the oldest set to the newest. set makes its key the newest with the given value (the time is that of the first set, or of the last one that asked for it), and then drops exactly as many of the oldest elements as are needed for the total of the estimated capacities to be within the limit; a string or vector counts with its own size plus capacity times element size, a number or pointer with its size. get gives the value stored, unless the key is absent or its element is older than the (non-zero) time limit; in that case it removes that element and gives nothing. erase reports whether the key was present and removes only it. All other elements keep value, time and order; the recorded size is always the total; no element is used after its removal.',
  ['inputs', 'histories'], 'all reachable and unreachable caches that satisfy the invariant, of any number of elements, all keys, values, sizes, limits and clock values',
  'The suite runs one history with large limits; dropping and expiry at the ends and in the middle of the list, and setting a key again while the limit is near, need particular histories.',
  ['coda/cache.tcc', 'coda/cache.hpp', 'coda/estimate_capacity.hpp'], [('store and drop', 'coda_cache::set coda_cache::drop_last_unused'), ('look up and expire', 'coda_cache::get'), ('removal', 'coda_cache::erase'), ('capacity', 'estimate_capacity')])

if __name__ == '__main__':
    P.sort(key=lambda d: d['id'])
    with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
        for d in P: f.write(json.dumps(d) + '\n')
    print(len(P))
