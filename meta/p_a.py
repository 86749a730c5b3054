T = "unit tests fix a handful of literal inputs"
prop("C01", "Base-N encoding is exact and decoding inverts it",
     "For every codec definition (base64, base64 without padding, base64 URL, base32, base32hex, base16) and every input of every size, encoding yields exactly the RFC 4648 text: each character is the alphabet's character for the corresponding bits of the input, followed by exactly the padding the definition calls for. Decoding that text gives back exactly the input bytes and their count.",
     ["inputs"], "every byte string of every length, for each of the six codec definitions", "The tests encode the RFC vectors and a few fixed strings; partial final groups of every content, all bytes and all sizes are never covered.",
     ["src/libzt/zt_base.c", "src/libzt/zt_base.h"], [("_encode64/_encode32/_encode16 group loops", "src/libzt/zt_base.c"), ("_decode64/_decode32/_decode16 and their reverse tables", "src/libzt/zt_base.c")],
     "Unit encode_all_sizes executes the real encoders with a symbolic input size; the group loop is cut by an invariant (text before position k correct) that ztv checks inductively, and the character at an arbitrary position is compared with a bit-level RFC 4648 spec function. Unit roundtrip runs the real decoder on the real encoder's output for every content of every size up to two groups and a partial one.")
prop("C02", "Base-N size negotiation never lies and never overruns",
     "Asked for a size only, encoding reports exactly the number of bytes the encoding of an input of that size takes; given a buffer that is too small, encoding and decoding refuse and write nothing outside the buffer; given no buffer they allocate one of the size they report. Decoding arbitrary text, valid or not, never reads outside the text, never writes outside the output buffer, and reports no more bytes than it wrote.",
     ["inputs"], "every input size, every text including malformed, every buffer size", "Tests pass well-formed text with generous buffers.",
     ["src/libzt/zt_base.c"], [("size computation before the conversion loops", "src/libzt/zt_base.c")],
     "Size formulas are proved for every 64-bit size that does not overflow (unit enc_size); buffers are objects of exactly the size given, so every access of the real code carries a bounds obligation; decode_any takes arbitrary text (bounded length).")
prop("C03", "Hex conversion and hex dumps are exact and stay inside their buffers",
     "Converting bytes to hex writes two lower-case digits per byte, high digit first, for as many whole bytes as the given room holds, and nothing else; converting hex (either case) to bytes yields exactly the bytes denoted, or refuses with EINVAL when a character is not a hex digit, and never writes beyond the room given. A hex dump shows every byte exactly once, 16 per line, with consecutive addresses, the last short line included.",
     ["inputs"], "every byte string, every text, every size of the output buffer", T + " with even room and lines of one length.",
     ["src/libzt/zt_cstr.c"], [("zt_binary_to_hex, zt_hex_to_binary, zt_hexdump", "src/libzt/zt_cstr.c")],
     "Contracts compare every output byte with a digit-level spec function; output objects have exactly the stated size and a fill pattern proves the frame (nothing else written).")
prop("C06", "A byte buffer is a FIFO queue whatever its history",
     "A byte buffer always holds exactly the bytes added and not yet removed or drained, in the order they were added; its length is their number and its contents pointer is NULL exactly when it is empty. Removing copies out and drops the oldest bytes, as many as asked for or all there are; draining drops them; reserving makes at least the space asked for available without changing the contents; adding another buffer moves its bytes and empties it. No operation reads or writes outside the buffer's memory.",
     ["histories", "inputs"], "every sequence of operations, every size and content", "The test does a few adds and drains; growth after a drain and the interplay of drained space and capacity are not exercised.",
     ["src/libzt/zt_buf.c", "src/libzt/zt_buf.h"], [("drained space in front of the data, capacity from the data to the end of the allocation", "src/libzt/zt_buf.c")],
     "Data-structure invariant proof: every operation is executed from an arbitrary state that satisfies the representation invariant (allocation of any size, any drained prefix, any length), and its postcondition over the whole contents plus the invariant are discharged. By induction over histories the property holds after any sequence. The vector-add loop is cut by an invariant over zt_buf_add's contract.",
     [("top", "start of the allocation", "zt_buf_t"), ("buf", "first undrained byte", "zt_buf_t"), ("max/len", "capacity behind buf / bytes held", "zt_buf_t")])
prop("C25", "String slicing operations produce exactly the slice they name",
     "For every string and every pair of positive or negative (from the end) indices, the substring, reverse, duplicate, concatenation, copy, mapping and comparison operations act on exactly the characters between the two resolved positions, inclusive, and on nothing else. Mapping replaces exactly the listed characters, for every character value; comparison is the lexical order of the two slices; the results are new strings and inputs are unchanged.",
     ["inputs"], "every string, every index pair in range, every character value", T + "; last characters, high characters and empty slices are not compared.",
     ["src/libzt/zt_cstr.c", "src/libzt/zt_cstr.h"], [("index conversion IDX/CONVERT, the zt_cstr_* slice functions", "src/libzt/zt_cstr.c")],
     "Each real function is executed with fully symbolic characters and index pairs against a spec function that resolves indices; lengths are enumerated by unit variants (bounded), contents and indices are not.")
prop("C26", "String searches and trimming find exactly what is there",
     "Searching a slice of a string for a character, for any member of a character set, or for a pattern, from the left or from the right, returns the position in the string of the first (respectively last) occurrence that lies inside the slice, or the not-found value when there is none. Trimming removes exactly the white space at both ends (keeping one trailing newline if there was one), chomp exactly one final newline, and counting trailing members of a set counts exactly those; nothing outside the string is read or written.",
     ["inputs"], "every string, slice, set and pattern", T + "; slices that do not start at 0, patterns at the very end and empty strings are missing.",
     ["src/libzt/zt_cstr.c"], [("zt_cstr_chr/rchr/upto/rupto/any/rany/find/rfind/rspn/rcspn/strip/chomp", "src/libzt/zt_cstr.c")],
     "As C25: spec functions give the first/last position by definition, the real code is executed symbolically, objects are exactly as long as the string so that any stray access fails an obligation.")
prop("C27", "Integers convert to decimal text exactly within the room given",
     "The display length of an int is the number of characters its decimal form takes, sign included. Converting an int into a buffer at an offset writes exactly that decimal form and a terminator there and returns the position of the terminator, for every int including the smallest; when text and terminator do not fit it refuses and writes nothing.",
     ["inputs"], "every int, every buffer size and offset", "Tests convert a few small numbers into a big buffer.",
     ["src/libzt/zt_cstr.c"], [("zt_cstr_itoa, zt_cstr_int_display_len", "src/libzt/zt_cstr.c")],
     "Proof over all 2^32 ints: split by digit count and sign, the digit loop unwinds completely for each class (operand width bounds it).")
prop("C28", "Path splitting and joining are exact and terminated",
     "The directory part of a path is everything before the last separator of its last component ('/' for entries of the root, '.' when there is no separator) and the base name is the part after the last separator, less the given suffix exactly when the name ends in it. Both write a terminated result of at most the given size and nothing outside it; appending two paths puts exactly one separator between them, and a path is absolute when it starts with '/' or './'.",
     ["inputs"], "every path, suffix and buffer size", T + " with ample buffers.",
     ["src/libzt/zt_cstr.c"], [("zt_cstr_basename, zt_cstr_dirname, zt_cstr_path_append, zt_cstr_abspath", "src/libzt/zt_cstr.c")],
     "Character-exact postconditions against the definition of last separator and suffix, with result objects of exactly the room given.")
prop("C32", "Splitting and tokenising lose nothing and invent nothing",
     "Splitting a string on a set of delimiters yields exactly its maximal runs of non-delimiter characters, in order, and leaves the string unchanged. Cutting at a character yields, for each occurrence that has text after it, the rest of the string from there; tokenising yields the whole string without a trailing delimiter followed by each prefix that ends before a delimiter, longest first.",
     ["inputs"], "every string and delimiter set", T + ".",
     ["src/libzt/zt_cstr.c", "src/libzt/zt_ptr_array.c"], [("zt_cstr_split, zt_cstr_cut, zt_cstr_tok", "src/libzt/zt_cstr.c")],
     "The elements of the real result array are compared with the runs a spec loop finds, for every content up to a stated length.")
