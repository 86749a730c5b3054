prop("C04", "A byte stream reads back what was written, in its byte order",
     "Writing a value of any supported type (byte, 8 to 64 bit unsigned, float, double, or a run of bytes) at the stream's position stores exactly its bytes there, reversed when the stream's byte order is flipped, moves the position past them, grows the stream as needed and changes no other byte; reading at a position yields the value whose bytes are there and moves the position. A clone has the same contents, position and byte order and is independent of the original; a truncated stream is empty, at position 0 and usable.",
     ["histories", "inputs"], "every stream content, position, byte order, value and type", "The test writes one value of each type in sequence to one growing stream.",
     ["src/libzt/zt_bstream.c", "src/libzt/zt_array.c"], [("_array_put, _array_get, growth in zt_bstream_write", "src/libzt/zt_bstream.c")],
     "Step proofs from an arbitrary valid stream (allocation, length, position symbolic) with the values symbolic; the byte loops are unrolled for the typed functions (at most 8) and proved by induction for runs of any length.",
     [("offt", "read/write position", "struct zt_bstream"), ("flipendian", "byte order", "struct zt_bstream")])
prop("C05", "Arrays hold exactly what was put, through resizing and copying",
     "A new array of any length and element size is all zero; an element put at an index is what get and copy-out return for that index, and no other element changes. Resizing keeps the elements that fit and fills new ones with zero, a copy holds the elements that fit and is independent, and an array made from existing data holds that data, copied exactly when a copy was asked for.",
     ["histories", "inputs"], "every length, element size, index and content", "The test uses one array of a few elements.",
     ["src/libzt/zt_array.c", "src/libzt/zt_array.h"], [("zt_array_put/get/resize/copy", "src/libzt/zt_array.c")],
     "Proofs with symbolic lengths, indices and contents (SMT arrays), element size enumerated by variants; the byte at an arbitrary position stands for all of them.")
prop("C07", "Intrusive lists, stacks and queues keep exactly their elements in order",
     "After any history of adding at the front or the back, removing any element, popping, dequeuing and joining, walking an intrusive list forward gives exactly the elements in it in order, and walking it backward gives the same reversed; joining puts the other list's elements, in order, in front of this list's. A stack pops the most recently pushed element, a queue dequeues the element enqueued first, and both give NULL when empty.",
     ["histories"], "every history of operations on lists of any length", "The tests push and pop one fixed sequence.",
     ["src/libzt/zt_list.h", "src/libzt/zt_stack.h", "src/libzt/zt_queue.h"], [("zt_elist_add2, zt_elist_remove2, zt_elist_join", "src/libzt/zt_list.h")],
     "The operations are proved on an arbitrary list seen through the links around its head (five shapes; the middle is opaque and any access to it fails an obligation), which covers every length by locality; a history unit drives all public operations against a sequence model.",
     [("prev/next", "doubly linked ring through the head", "struct zt_elist")])
prop("C08", "Cons lists: reversing, splitting, merging and sorting lose nothing",
     "Pushing, popping and indexing a cons list behave as a stack of its items; reversing yields the same items backwards (the copying form leaves its argument alone), splitting a list of at least two items yields two non-empty parts that concatenate to it, merging two lists ordered by a comparison ('first comes after second') yields an ordered list with the items of both. Sorting yields a list ordered by the comparison that holds exactly the same items, each as often.",
     ["inputs"], "every list and every item, every comparison outcome", "The test reverses a list of two items; splitting, merging and sorting are not tested at all.",
     ["src/libzt/zt_llist.h"], [("zt_llist_* inline functions", "src/libzt/zt_llist.h")],
     "Items are symbolic 64-bit words, so every order and every pattern of equal items is covered; list lengths are enumerated (bounded).")
