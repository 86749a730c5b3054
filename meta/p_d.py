prop("C10", "Hash tables are maps",
     "A table returns for every key exactly the datum last set for it and not deleted since, whatever the hash values, the number of buckets and the flags it was made with: setting a key that is there is refused (or, when the table allows duplicate keys, shadows the older entry until it is deleted), deleting removes that key and no other and returns its datum (NULL when it is not there), for_each visits every entry exactly once and stops at the first non-zero answer of its callback which it returns, copy gives a table with the same entries, and destroy releases everything. The supplied key functions (string, string without case, buffer with length, integer) call two keys equal exactly when they are, and equal keys hash equally.",
     ["histories", "inputs"], "every history of operations, all keys, every hash function and table size", "The tests set and get a fixed list of keys with a good hash: deletion behind colliding keys, sizes at which hash bits are folded and hash values wider than 32 bits never occur.",
     ["src/libzt/zt_table.c", "src/libzt/zt_table.h", "src/libzt/zt_hash.c"], [("zt_table_set/get/del/copy/for_each/destroy", "src/libzt/zt_table.c"), ("zt_table_hash_*, zt_table_compare_*", "src/libzt/zt_table.c")],
     "A ghost map is kept by the contracts; after each operation all keys of the universe are looked up and the entries are counted by for_each. The hash function is the harness's: patterns of colliding, adjacent and larger-than-32-bit values. Key comparison and hashing are specified against independent definitions for all keys (integers) or all keys up to a length.",
     [("buckets, num_buckets, filler", "the chains of the table", "struct zt_table")])
prop("C11", "Sets obey set algebra",
     "A zt_set holds exactly the elements inserted and not removed, where an element is the pointer value inserted (sets hash and compare what was inserted, as the tests' integer elements do): insert of an element that is there changes nothing, remove removes that element and no other, size is the number of elements. union, intersection and difference put exactly the mathematical result's elements into the result set, is_subset and is_equal answer exactly the mathematical relation, for_each visits each element once, and destroy releases everything.",
     ["inputs", "histories"], "every pair of sets and every history", "The test builds two sets and checks the sizes of three results; duplicates between operands, removal and results that already hold elements are not covered.",
     ["src/libzt/zt_set.c", "src/libzt/zt_set.h"], [("zt_set_insert/remove/is_member", "src/libzt/zt_set.c"), ("zt_set_union/intersection/difference/is_subset/is_equal", "src/libzt/zt_set.c")],
     "Every pair of subsets of a 4-element universe is built and combined; the result is compared element by element with the bitmask result; histories are enumerated against a bitmask.",
     [("tbl, size", "elements and their number", "struct zt_set")])
prop("C12", "Pointer arrays keep what was added",
     "A pointer array holds the non-NULL pointers added, in order: adding appends exactly one element (growing as needed, adding NULL does nothing), get_idx returns the element at an index, the last for -1 and NULL for anything else outside, resize and copy_data change no element, move copies one element over another and fails outside the array, cat appends the other array's elements in order (also of the array itself). del removes every occurrence of a pointer and no other element, calls the free callback once per occurrence and says whether there was one; free calls it once per element exactly when asked to and releases the array.",
     ["inputs", "histories"], "every array size, count and contents; every index; every history", "There is no test of the pointer array at all.",
     ["src/libzt/zt_ptr_array.c", "src/libzt/zt_ptr_array.h"], [("all functions", "src/libzt/zt_ptr_array.c")],
     "resize, copy, add, get and move are proved from an arbitrary representation state (any size, count and 64-bit contents; the copy loop by induction). del, cat and free are checked against a model for every small array over three distinct pointers.",
     [("size, count, array", "room, number of elements, elements", "zt_ptr_array")])
prop("C13", "Memory pools hand out distinct memory and account for it",
     "Every element a pool hands out is aligned memory of at least the element size, overlapping no other element in use and keeping its contents until released; a released element can be handed out again. A page whose elements are all free is freed exactly when the release test says so (by default always, with POOL_NEVER_FREE never) or when release_free_pages is called. The statistics are right: pages = allocations - frees of pages, free pages are the pages without an element in use. A pool with elements in use is not destroyed and stays usable; destroying any other releases everything and it can no longer be found by name. A pool group serves a request from the first pool whose elements are large enough. A heap has room for the size asked for.",
     ["histories", "inputs"], "every history of allocations and releases, element size, page capacity and release policy", "The tests allocate and release in one order with one size; interleaved releases, multi-page pools and the statistics after frees are not covered.",
     ["src/libzt/zt_mem.c", "src/libzt/zt_mem.h"], [("zt_mem_pool_*, zt_mem_page_*", "src/libzt/zt_mem.c"), ("zt_mem_pool_group_*", "src/libzt/zt_mem.c"), ("zt_mem_heap_*", "src/libzt/zt_mem.c")],
     "Elements are marked when handed out and all marks are read back after every operation; memory safety obligations on every access, counts of live allocations and the statistics are postconditions of each operation.",
     [("npages, nfree_pages, page_allocs, page_frees, num_free_elts", "accounting of pages", "struct zt_mem_pool, struct zt_mem_page")])
prop("C14", "Hierarchical pools own what was put into them",
     "Memory allocated from a zt_ez_mempool is zeroed, has the size asked for and keeps its contents while the pool lives; strdup gives a copy of the string owned by the pool, add_buffer takes ownership of the buffer. Destroying a pool frees each of its chunks exactly once, through its callback if it has one, and destroys every pool below it; it leaves its parent, its siblings and everything in them intact and still owned: destroying the parent later frees exactly what is left, and nothing leaks.",
     ["histories"], "every tree of pools, every order of allocation and destruction", "The test builds one fixed tree and destroys the root; destroying a subpool first is never followed by using its siblings.",
     ["src/libzt/zt_ez_mempool.c", "src/libzt/zt_ez_mempool.h"], [("zt_ez_mempool_destroy, pool_append, free_chunks", "src/libzt/zt_ez_mempool.c")],
     "All trees of up to four pools are enumerated, then every sequence of operations; ghost ownership decides how often each chunk's callback must have been called, and the count of live allocations must return to where it was.",
     [("chunks, subpools, next, parent", "ownership tree", "struct zt_ez_mempool")])
prop("C15", "Checked integer arithmetic is exact or refused",
     "For every pair of operands, the checked add, sub, mul and div of signed and unsigned char, short and int (and add and sub of long) return the exact mathematical result whenever the type can represent it, and in a build with assertions they report an assertion failure exactly when it cannot (overflow in either direction, a negative unsigned difference, a zero divisor, the one quotient that does not fit) and for no other operands.",
     ["inputs"], "every pair of operands of every type", "The tests try a handful of operands per type; boundaries such as equal operands, two negative operands or INT_MIN are not among them.",
     ["src/libzt/zt_int.h", "src/libzt/zt_int.c"], [("ZT_INT_*_ADD/SUB/MUL/DIV", "src/libzt/zt_int.h")],
     "Every generated function is a proof unit of its own, over all operand pairs, against the result computed in a wider type; both builds (with and without assertions) are verified.",
     [])
prop("C16", "Hashing is FNV-1a",
     "zt_hash32_buff, zt_hash32_cstr, zt_hash64_buff and zt_hash64_cstr return the 32 and 64 bit FNV-1a hash of exactly the octets of the buffer or of the string up to its NUL, as unsigned octets, starting from the value given or the standard offset for 0; so a hash continued from the (non-zero) hash of a prefix is the hash of the whole, and strings hash like buffers of the same octets. The masking macros fold a hash to the width asked for by xor, and the result fits the width.",
     ["inputs"], "every buffer and string of every length, every start value, every width", "The tests hash one alphabet string and count collisions.",
     ["src/libzt/zt_hash.c", "src/libzt/zt_hash.h"], [("zt_hash32/64_buff/cstr", "src/libzt/zt_hash.c"), ("ZT_HASH*_MASK", "src/libzt/zt_hash.h")],
     "A ghost sequence is defined by the FNV-1a step; the loops are proved to compute its k-th element after k octets by induction, so the result is its last element for every length. Folding is proved for every value and width.",
     [])

prop("C17", "A SHA-1 digest is the standard's, however the message is cut",
     "zt_sha1_data, and zt_sha1_init followed by zt_sha1_update on any cut of the message into chunks (empty ones included) and zt_sha1_finalize, give the SHA-1 digest of FIPS 180-4 of the message, for every message length below 2^61 octets; the message is only read, and the context holds nothing of it afterwards. zt_sha1_tostr writes the 40 lower case hex digits of the digest and a NUL, and zt_str_tosha1 reads the digest back from them.",
     ["inputs", "histories"], "every message, every cut into chunks, every position in a message, every digest", "The tests hash three fixed texts and read back their digests.",
     ["src/libzt/zt_sha1.c", "src/libzt/zt_sha1.h"], [("_sha1_transform", "src/libzt/zt_sha1.c"), ("zt_sha1_update", "src/libzt/zt_sha1.c"), ("zt_sha1_finalize", "src/libzt/zt_sha1.c")],
     "The compression function is proved equal to the standard's for every state and block (the two 80 round computations are shown equal by sweeping: values that agree on random inputs are proved equal one by one, each from the ones before it). With that function replaced by its contract, update is proved from any position of the message and for data of any length: exactly the whole blocks are transformed, each once, in order, with any octet of the message at its place; the octets left over are kept and the length counted. Finalize is proved for every number of left over octets and every length. A message's digest follows by composition; unit data also runs the composition.",
     [])

prop("C20", "The random numbers are the Mersenne Twister's",
     "After zt_random_srandom with a seed, or zt_random_initstate with an array of keys, zt_random_uint32 gives the numbers MT19937 (Matsumoto and Nishimura, initialisation of 2002) gives for that seed or those keys, one after the other for ever; the keys are not changed. A state that was never seeded (its mark is missing) is seeded once, from the clock, by the first number asked for.",
     ["inputs", "histories"], "every seed, key values, states, positions in the sequence", "The test compares the first thousand numbers of one array of keys.",
     ["src/libzt/zt_random.c", "src/libzt/zt_random.h"], [("zt_random_uint32", "src/libzt/zt_random.c"), ("zt_random_srandom", "src/libzt/zt_random.c"), ("zt_random_initstate", "src/libzt/zt_random.c")],
     "Against the recurrence as published, over an unbounded sequence: seeding gives its first 624 values for every seed; from any 624 consecutive values, generating gives the next 624 and the number returned is the tempered next; at any position the number is the tempered value there and the position moves by one. By induction every number of every sequence is right. Key arrays are decided per length, for all key values.",
     [])

prop("C22", "Times add, subtract and compare exactly",
     "For times of day with 0 to 999999 microseconds, zt_add_time, zt_sub_time and zt_diff_time give the exact sum, first less second, and second less first, again with 0 to 999999 microseconds, also when the result is written over an operand; zt_cmp_time is negative, zero or positive as the first is earlier, the same or later. zt_time calls the function exactly as often as asked (not at all for 0), each time with the data, between its two readings of the clock, returns the last result (NULL if none), and reports the user and system time between the readings less what zt_time_calibrate last measured for calling nothing.",
     ["inputs"], "every pair of tidy times (seconds up to 2^60 either way), every number of calls, every clock reading", "The test adds and subtracts a handful of fixed times.",
     ["src/libzt/zt_time.c", "src/libzt/zt_time.h"], [("zt_add_time, zt_sub_time, zt_diff_time, zt_cmp_time", "src/libzt/zt_time.c"), ("zt_time, zt_time_calibrate", "src/libzt/zt_time.c")],
     "Postconditions without division: the seconds and microseconds of the result are those of the exact sum carried once. The calls of zt_time are counted by the function timed and the loop is proved by induction for any number of calls, with getrusage replaced by arbitrary readings.",
     [])

prop("C18", "UUIDs and their texts correspond one to one",
     "zt_uuid_tostr and zt_uuid_fillstr give a UUID's text in each format: standard (32 lower case hex digits, dashes after 8, 12, 16 and 20), short (the digits alone), base 62 (each 64 bit half, most significant octet first, as 11 digits of 0-9a-zA-Z) and hashable base 62 (the first half's digits reversed), terminated, with its length returned. With a buffer too small, or no UUID or buffer, fillstr reports the size needed and writes nothing; it never writes behind the text. zt_uuid_fromstr reads back exactly that UUID, and refuses every text that is not of the format (wrong length, characters or dashes, base 62 halves past 64 bits); upper case hex digits are read too. zt_uuid_isvalid accepts exactly the texts of the format's length and characters.",
     ["inputs"], "every UUID, every text, every format, every buffer size", "The tests convert a hundred fixed UUIDs and never read malformed text.",
     ["src/libzt/zt_uuid.c", "src/libzt/zt_uuid.h"], [("zt_uuid_tostr, zt_uuid_fillstr", "src/libzt/zt_uuid.c"), ("zt_uuid_fromstr", "src/libzt/zt_uuid.c"), ("zt_uuid_isvalid", "src/libzt/zt_uuid.c")],
     "Each format's text is computed by its definition and compared octet by octet with what the code writes, for all 2^128 UUIDs in the hexadecimal formats (hex conversion by the contract proved in C02 when reading back). Any text of the format's length is accepted exactly when its characters are right. Base 62 is decided on chosen values of the halves with the verifier and searched on the compiled code for the rest.",
     [])

prop("C19", "Made UUIDs carry the right bits",
     "zt_uuid5 of a namespace (DNS, URL, OID, X500) and a name of any length is the first 16 octets of the SHA-1 digest of the RFC 4122 namespace UUID followed by the name, with the version set to 5 and the variant to 10; any other namespace is refused. zt_uuid4 is four successive numbers of the calling thread's own random generator, with the version set to 4 and the variant to 10; the generator is seeded before the first UUID and not again.",
     ["inputs", "histories"], "every name and namespace, every sequence of random numbers", "The tests check three names and the version of a hundred UUIDs.",
     ["src/libzt/zt_uuid.c"], [("zt_uuid5", "src/libzt/zt_uuid.c"), ("zt_uuid4, zt_uuid4_get_ctx", "src/libzt/zt_uuid.c")],
     "With SHA-1 replaced by its contract (C17), any octet of what is hashed is compared with namespace and name, for names of any length, and the result with the digest. With the generator replaced by its contract (C20), the bits of two successive UUIDs are compared with the numbers taken. Seeding of a second thread's generator is the generator's own (C20).",
     [])

prop("C31", "The collector releases what is unreachable, and nothing else",
     "Between collections the program may protect and unprotect values it can reach, unregister them, drop references, and store references to values it can reach while telling zt_gc_mark; values are registered and referred to before the next is. Then zt_gc_collect never releases a value that is protected or can be reached from protected ones through the references the mark callback reports, nor one registered since the last cycle; after two full collections every other value has been released, through the release callback, exactly once; an unregistered value is neither marked nor released. While collecting is disabled nothing is marked or released. A partial collection marks at most marks_per_scan values. zt_gc_destroy releases every value left exactly once. The callbacks get the collector and the program's data.",
     ["histories"], "every shape of references, every point of a scan at which the program acts", "The tests follow one list of integers from one root and count.",
     ["src/libzt/zt_gc.c", "src/libzt/zt_gc.h"], [("zt_gc_collect, zt_gc_switch, zt_gc_free_white", "src/libzt/zt_gc.c"), ("zt_gc_protect, zt_gc_unprotect, zt_gc_unregister, zt_gc_mark", "src/libzt/zt_gc.c")],
     "Bounded: the verifier goes through every reference shape of 3 values with one reference each (4 for some, thorough for all), every protected subset, every number of scan steps before any one operation, executing the real collector with callbacks that check every mark and release against the set reachable at that moment. A proof for any number of values would need the mark graph as a recursive predicate over three linked lists, which the verifier's language does not have. The search runs six values with any references and up to seven operations.",
     [])
prop("C33", "What zt_atexit was given is called at exit, once each, last first",
     "Every zt_atexit(fn, data) with a function makes fn(data) be called exactly once when the program exits normally, after the callbacks asked for later and before those asked for earlier; callbacks asked for by a callback while the program is exiting are called too, next. Nothing is called before the exit.",
     ["histories"], "every sequence of registrations, also during the exit", "Only one callback at a real exit is tried by the tests, with nothing to observe the order.",
     ["src/libzt/zt_atexit.c", "src/libzt/zt_list.h"], [("zt_atexit, _atexit_call", "src/libzt/zt_atexit.c")],
     "The source is included with atexit() replaced by a list of handlers that the contract runs as the C library does. Proved for a stack of any height (the part below the top opaque): a registration puts the callback on top and registers with the C library exactly when the stack was empty; one turn of the exit loop takes the top off, then calls it with its data, the rest being untouched. The loop keeps no other state, so histories of any length follow. Histories of up to three callbacks with registrations during the exit are executed whole.",
     [("atexit", "model", "the C library calls its handlers last first, each once, including those registered meanwhile")])
prop("C21", "An IPv4 table finds a network exactly when one that contains it was added",
     "zt_ipv4_tbl_search_from_str finds something if and only if a network added to the table contains the network looked for, and what it finds is a network that was added and contains it; searching changes nothing. An added network has the length given (32 without one) and the first and last address of its range. Once a network of length 0 was added, every later addition and search gives it. A table is not affected by other tables being made, filled or destroyed, and zt_ipv4_tbl_destroy releases all its memory. zt_ipv4_str2net reads only the string, refuses an address text over 15 characters and a negative length, and takes lengths over 32 for 32.",
     ["inputs", "histories"], "every set of networks, every network looked for, every table size", "The tests look for sixteen networks in one table of seven.",
     ["src/libzt/zt_ipv4_tbl.c", "src/libzt/zt_ipv4_tbl.h"], [("zt_ipv4_tbl_add_node, zt_ipv4_tbl_search_node, ipv4_tbl_addr_cmp", "src/libzt/zt_ipv4_tbl.c"), ("zt_ipv4_str2net, zt_ipv4_tbl_destroy", "src/libzt/zt_ipv4_tbl.c")],
     "The containment test is proved for every pair of networks. Tables are executed whole on the real code and the real memory pools with arbitrary addresses: one network of any length, two and three of listed lengths, one of all 32 lengths; the answer is compared with the definition, and memory is accounted for. Bounded in the number of networks: a proof for any number needs the hash chains as a recursive predicate.",
     [("inet_addr", "model", "the C library's reader of dotted addresses gives the address that the test associates with the text")])
prop("C30", "A configuration gives back what was last set or read",
     "After zt_cfg_set of an integer, or of a string, zt_cfg_get of that block and variable gives it back: an integer (or text that is one in C's notation) as an integer, yes, true, no and false in any case as a truth value, other text as a string, less the quotes around it. Text block.variable naming a variable that exists makes a reference: get then gives what that variable holds at the time; a reference that would lead back to itself is a string. Get of what is not there or is of another type gives -1 and stores nothing; setting one variable changes no other (but through references). zt_cfg_ini reads `name = value` lines under [block] headings the same way: blanks around the value and comments from ; or # are dropped, a line without a value or longer than 1023 characters is refused (NULL), with or without a line end at the end of the file. zt_cfg_close and a refused file release everything.",
     ["inputs", "histories"], "every sequence of settings, every file", "The tests read one file of ten lines.",
     ["src/libzt/zt_cfg/cfg_private.c", "src/libzt/zt_cfg/cfg_ini.c", "src/libzt/zt_cfg.c"], [("zt_cfg_priv_set, zt_cfg_priv_get, cfg_insert_bvv, get_type", "src/libzt/zt_cfg/cfg_private.c"), ("parse_file, parse_line, parse_block", "src/libzt/zt_cfg/cfg_ini.c")],
     "Bounded: the real sources are executed by the verifier with the standard I/O functions replaced by a text in memory, against a model of what each variable means: settings of every listed text, pairs of settings, reference circles, every value text of a few characters from a set that makes all kinds of values, over-long lines and names. Fractions are left out (the verifier has no strtod), and zt_cfg_bool settings: zt_cfg_set takes a word for them but looks at it as an integer first.",
     [("strtod", "assumed", "in the verifier no text is a fraction (none of the texts used is)")])

prop("C29", "Command line options are taken apart as they were defined",
     "zt_opt_process_args calls, for every option on the command line in turn and exactly once each, the callback of the definition whose short letter or whose whole long name it is, with the argument's index and the definition's; --name=value and --name value, -xvalue, -x=value and -x value all hand exactly that value to zt_opt_get_value, also when -x comes behind other letters in one argument; text that is a value is never taken for options, and the argument used as a value is skipped. An option nobody defined is reported with EINVAL and processing goes on with the next argument; a missing value is reported and ends processing with an error. Processing stops at the first argument that does not begin with '-', whose index is stored in *argc. The stock callbacks store the number, truth value, copy of the string, added string and count that was given. zt_opt_validate_default reports every definition that has no name, no help or a bad letter, and every pair with the same one.",
     ["inputs"], "every command line", "The tests run one command line.",
     ["src/libzt/zt_opts.c", "src/libzt/zt_opts.h"], [("zt_opt_process_args, zt_opt_get_value", "src/libzt/zt_opts.c"), ("zt_opt_long, zt_opt_bool_int, zt_opt_string, zt_opt_string_array, zt_opt_flag_int, zt_opt_validate_default", "src/libzt/zt_opts.c")],
     "Bounded: the real parser is executed by the verifier on every command line of up to two arguments of any characters (lengths stated) against an independent reading of what it means, event by event; the stock callbacks on all numbers of two digits, a list of words and any strings of two characters. Help output and the texts of messages are not specified; what the callbacks store when the caller's error handler returns after a bad number is left open.",
     [("strtol", "assumed", "the verifier's C definition of it, decimal, octal and hexadecimal")])
