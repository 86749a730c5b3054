prop("C09", "Red-black trees are ordered sets and stay balanced",
     "After any history of insertions and removals a red-black tree holds exactly the elements inserted and not removed, iteration visits them in the order of the comparison, and inserting an element equal to one that is there changes nothing and returns that one. Finding returns the equal element or none, the nearest-find the first element that is not less, min and max the ends; the tree stays balanced: a black root, no red node with a red child, the same number of black nodes on every path, consistent parent links.",
     ["histories", "inputs"], "every history, every tree shape and colouring, every order of keys", "The test inserts a fixed sequence of values and removes some of them; most rebalancing cases of removal are never reached.",
     ["src/libzt/zt_tree.c", "src/libzt/zt_tree.h"], [("zt_rbt_insert_colour, zt_rbt_remove_colour, rotations", "src/libzt/zt_tree.c")],
     "Each operation is verified from every red-black tree up to a stated size (not only from those some test history reaches), with the whole invariant and the in-order sequence as postcondition; histories start from the empty tree.",
     [("colour, left, right, parent", "tree structure and balance", "struct zt_rbt")])
