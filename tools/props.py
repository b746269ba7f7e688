"""The properties, their texts, and how each is claimed. tools/gen.py writes properties.jsonl and MANIFEST.json."""

S = "oxyroot/src/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level="other", note="", na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, na=na, state=state))


prop("C01", "Reader and writer of each stored class agree on its bytes",
     "For every kind of stored object the library can both write and read (keys, directories, free-segment records, "
     "trees, branches, leaves, baskets, lists, streamer descriptions, attributes), whatever one side writes the other "
     "side reads back completely: same sequence of values, same widths, same optional parts, same repetition counts, no "
     "bytes left over and none missing. Each stored value comes back under the attribute it was written for.",
     ["inputs", "programs"],
     "every value of every field, every optional part present or absent, every array length, small and big file layouts",
     "the tests write a few trees with fixed shapes: only one combination of optional parts, versions and lengths is exercised",
     [S + "riofs/key.rs", S + "riofs/dir.rs", S + "riofs/blocks.rs", S + "rtree/branch/tbranch.rs",
      S + "rtree/branch/tbranch_element.rs", S + "rtree/leaf.rs", S + "rtree/tree/writer.rs", S + "rtree/tree/reader.rs",
      S + "rtree/wbasket.rs", S + "rtree/basket.rs", S + "rcont/list.rs", S + "rcont/objarray.rs", S + "rdict/mod.rs",
      S + "rdict/streamers/streamer_types.rs", S + "rbase"],
     [("Marshaler / Unmarshaler implementations of each class", S + "rbytes/mod.rs")],
     technique="abstract interpretation of MIR into wire trees (tokens, alternatives, counted loops) of each marshaller and "
               "unmarshaller, aligned along every path with the reader's conditions decided by the writer's values; field "
               "provenance of what comes back",
     note="all classes with both directions; byte layout, repetition counts and field identity are decided for every path; the "
          "numeric content of computed values (for example enum conversions) is not")

prop("C02", "Every stored record is laid out as the embedded description says",
     "Every record the library writes is laid out exactly as the class description embedded in the file says: same class "
     "version, base classes as nested records first, then each member in order with the width of its described type, array "
     "members after their one-byte flag, pointers as object slots; containers, keys, baskets, directories, free-segment records "
     "and I/O features follow ROOT's own hand-written layouts. No member is written from the value of another member.",
     ["inputs", "programs"], "every record of every class on every path of its writer",
     "tests that read back with the same library cannot see a layout both sides share but ROOT does not",
     [S + "riofs/key.rs", S + "riofs/dir.rs", S + "riofs/blocks.rs", S + "rtree/branch/tbranch.rs",
      S + "rtree/branch/tbranch_element.rs", S + "rtree/leaf.rs", S + "rtree/tree/writer.rs", S + "rtree/wbasket.rs",
      S + "rcont/list.rs", S + "rcont/objarray.rs", S + "rdict/mod.rs", S + "rdict/streamers/streamer_types.rs", S + "rbase",
      S + "rvers.rs"],
     [("Marshaler implementations", S + "rbytes/mod.rs"), ("built-in descriptions", S + "rdict/streamers/streamers_db_generated.rs")],
     technique="abstract interpretation of MIR into wire trees, matched along every path against a grammar built from the "
               "built-in class descriptions (constant propagation) and ROOT's hand-written streamers",
     note="layout decided for all values; the values themselves are not")

prop("C05", "Records of a newer class version are refused, not misread",
     "The reader of every versioned class refuses, with an error and before interpreting the contents, a record whose version "
     "is newer than the newest version of the class the library describes or writes, and accepts that newest version. The tree "
     "and list readers also refuse the old layouts they do not implement.",
     ["inputs"], "every class with a version, every version above the newest",
     "test files only contain current versions",
     [S + "rbytes/mod.rs", S + "rvers.rs", S + "rbase", S + "rcont", S + "rtree", S + "rdict"],
     [("ensure_maximum_supported_version", S + "rbytes/mod.rs")],
     technique="abstract interpretation of each reader's MIR with the header version fixed to newest, newest+1 and beyond; the "
               "outcome and the reads on every path are inspected",
     note="decided for every versioned class with a reader; keys, directories and free segments use the version as a layout "
          "marker and have no gate")

prop("C03", "Every primitive is stored as the big-endian bytes of its own type",
     "Each buffer primitive (integers, floats, booleans, length-prefixed and nul-terminated strings, arrays and the numeric, "
     "string and container types branches are made of) writes exactly the big-endian bytes of its type, reads exactly those "
     "bytes back as the same type, moves the cursor by exactly that many bytes and reports that many bytes written. Strings "
     "shorter than 255 bytes use a one-byte length, longer ones the 255 marker followed by a 32-bit length, on both sides.",
     ["inputs"], "every value, every string and array length, every buffer position",
     "tests write a handful of small values; the long-string form, extreme values and unusual types are not reached",
     [S + "rbytes/rbuffer.rs", S + "rbytes/wbuffer.rs", S + "rbytes/mod.rs", S + "rusty/containers.rs"],
     [("read_* / write_* primitives", S + "rbytes/rbuffer.rs"), ("Marshaler / Unmarshaler of primitives", S + "rbytes/mod.rs")],
     technique="abstract interpretation of MIR with symbolic buffers: the bytes taken or appended and the cursor movement are "
               "compared as terms for all values and positions",
     note="decided as term equality, for all values; numeric identity of to_be_bytes/from_be_bytes is trusted")

prop("C04", "A versioned record announces its length and both sides frame it alike",
     "A record header reserves its place, and closing the record patches in the number of bytes that follow the count word "
     "together with the byte-count mark, then the version. The reader recovers the same version and end position, tells "
     "records with and without a byte count apart, and every record a writer opens is closed exactly once, innermost first, "
     "on every path that succeeds.",
     ["inputs", "programs"], "every record of every class, every nesting, every length",
     "tests never compare the announced byte count with the bytes written",
     [S + "rbytes/rbuffer.rs", S + "rbytes/wbuffer.rs", S + "rbytes/mod.rs", S + "rtree", S + "rcont", S + "rbase"],
     [("write_header / set_header / read_header", S + "rbytes")],
     technique="abstract interpretation of MIR: header terms compared symbolically; bracket discipline of headers over the wire "
               "tree of every marshaller",
     note="framing terms and bracketing decided for all inputs; records of 1 GiB and more are outside the format")

prop("C06", "Every record in a file declares its own place and lengths truthfully",
     "Each record put in a file begins with a key header whose declared position is where the record really starts, whose declared "
     "key length is the number of bytes the header takes, and whose declared size is the header plus the payload that follows "
     "immediately (directory records may reserve a few bytes more). Because payloads are stored uncompressed, the declared object "
     "length equals the payload length, so that a reader never mistakes it for compressed data. Back references inside an "
     "object count from the start of its record.",
     ["inputs", "histories"], "every record of every file, below and beyond the 2 GB limit",
     "tests write small files and read them back with the same library, which follows only some of these declarations",
     [S + "riofs/key.rs", S + "riofs/file.rs", S + "riofs/dir.rs", S + "riofs/blocks.rs", S + "rtree/branch/wbranch.rs",
      S + "rtree/wbasket.rs"],
     [("RootFile::create / put / close, basket flushing", S + "riofs/file.rs"), ("Key constructors", S + "riofs/key.rs")],
     technique="abstract interpretation of every function that writes to the file into its positioned writes; key header tokens "
               "compared with the position and length terms, in every consistent case of their conditions",
     note="integer equality for all values (linear terms over lengths and positions), records shorter than 2 GB")

prop("C07", "Records are only appended; headers are rewritten within their own room",
     "Each new record (object, basket, key list, streamer information, free list) is placed exactly at the end of the file as "
     "recorded so far, and the end mark then moves exactly past it, so records never overlap and never leave earlier data "
     "overwritten. Bytes already written are rewritten in place only for the file header, which starts at 0 and stays below the "
     "first record, and for the directory header, at the place and inside the room its record was given when the file was "
     "created. Nothing else moves the end mark or the places of these headers.",
     ["histories", "inputs"], "every sequence of trees, branches and baskets written, of any size",
     "an overlap shows only for particular lengths and sequences; tests write a few fixed ones",
     [S + "riofs/file.rs", S + "riofs/dir.rs", S + "riofs/key.rs", S + "riofs/blocks.rs", S + "rtree/wbasket.rs",
      S + "rtree/branch/wbranch.rs"],
     [("RootFile::set_end / write_at", S + "riofs/file.rs"), ("TDirectoryFile header rewrite", S + "riofs/dir.rs")],
     technique="abstract interpretation of every function that writes to the file into positioned writes; interval chaining and "
               "in-place room as linear terms, in every consistent case; effect analysis of the fields the places depend on",
     note="decided for all lengths and positions; records shorter than 2 GB")

prop("C08", "A successful close leaves a complete and consistent index on disk",
     "When close succeeds, the key list, the streamer information and the free-segment list have been written once each; the file "
     "header, written last at position 0 in ROOT's layout, stores the final end of file, the place and size of the streamer "
     "information and of the free list, the number of free segments, the begin and the name length; the directory header stores "
     "the place and size of the key list; the key list counts and holds every key of the directory. No stored place is "
     "truncated: the 32-bit layouts are used only when everything fits, and the version announces which one. All "
     "bytes have been flushed to the file before success is reported.",
     ["histories", "inputs"], "every file, below and beyond the 2 GB limit",
     "tests close small files only, and read back with a reader that ignores several of these fields",
     [S + "riofs/file.rs", S + "riofs/dir.rs", S + "riofs/key.rs", S + "riofs/blocks.rs"],
     [("RootFile::close", S + "riofs/file.rs"), ("TDirectoryFile::close", S + "riofs/dir.rs")],
     technique="abstract interpretation of RootFile::close into its positioned writes; header tokens compared with the records "
               "written and the end mark as linear terms in every consistent case; constant fields by effect analysis",
     note="decided for all lengths and positions; that the operating system keeps what was flushed is not")

prop("C13", "The built-in streamer descriptions are ROOT's own, complete and closed",
     "The library embeds, in every file it writes, descriptions of the classes it stores. Each description has the class "
     "version, checksum, members, member types, sizes, base versions and counters ROOT itself gives to that class; there is one "
     "description per class and version; a counter a description names exists; base versions agree with the base described.",
     ["configurations"], "every class and every member described",
     "tests look up a couple of classes; the other thousand lines of tables are never compared with anything",
     [S + "rdict/streamers/streamers_db_generated.rs", S + "rdict/streamers/streamers_db_gen_helpers.rs",
      S + "rdict/streamers/db.rs", S + "rdict/streamers/dump_from_root.txt"],
     [("populate_db", S + "rdict/streamers/streamers_db_generated.rs")],
     technique="constant propagation over the MIR of populate_db and its constructors; every resulting description compared "
               "with ROOT's own dump of the class",
     note="all described classes and members; the oracle is the dump shipped with the sources")

prop("C14", "A branch's tables and counts describe exactly the baskets and entries written",
     "Every basket a branch writes adds exactly one element to fBasketBytes, equal to the size the basket's key declares, one to "
     "fBasketSeek, equal to the place of the record in the file, and one to fBasketEntry, equal to the number of entries of the "
     "branch so far; fWriteBasket counts the baskets, fTotBytes grows by the uncompressed size of basket and key, fZipBytes by "
     "the declared size. Every item taken from the branch's iterator adds one to fEntries, to fEntryNumber and to fNevBuf of the "
     "basket that holds it; the basket that follows a written one starts empty. Nothing is written once the iterator is "
     "exhausted. A new branch has no baskets and no entries and its fBasketEntry holds the single element 0. The tables are "
     "written to the file from their first element, up to the number of baskets (one more for fBasketEntry).",
     ["histories", "inputs"], "every sequence of items, any entry size, any number of baskets",
     "readers of this library use only part of the tables, so a wrong count or place shows only with particular basket "
     "boundaries or in ROOT",
     [S + "rtree/branch/wbranch.rs", S + "rtree/branch/tbranch.rs", S + "rtree/wbasket.rs", S + "rtree/basket.rs"],
     [("WBranch::write / flush", S + "rtree/branch/wbranch.rs"), ("TBranch::marshal", S + "rtree/branch/tbranch.rs")],
     technique="fields of branch and basket located by matching their marshallers with ROOT's class descriptions; abstract "
               "interpretation of every function that writes baskets; state on return compared with state on entry, term by term, "
               "on every path",
     note="one call of the write and flush functions is decided exactly for every state; induction over calls is immediate")

prop("C27", "A basket of varying-size entries records where every entry starts",
     "In a basket with entry offsets, each entry added sets exactly one element of the offset table, the one whose index is the "
     "number of entries added before, to the key length plus the length of the data before the entry, and leaves the earlier ones "
     "alone; the table always has an element for the next entry, whatever the size of the entries. When the basket is written its "
     "data is followed by the number of entries plus one, the position of every entry and a 0, as 4-byte integers; the positions "
     "move by exactly the growth of the key header when the file passes 2 GB. Without entry offsets nothing follows the data. "
     "fLast is the key length plus the length of the data without the table. Branches of strings and vectors have entry offsets; "
     "branches of numbers, booleans and arrays of numbers have none; a new basket has a table exactly when its branch says so.",
     ["histories", "inputs"], "every sequence of entries of any size, any number of baskets, both pointer widths of the file",
     "tests write few, short entries to small files; the table grows, and the key header changes its length, only with many "
     "entries, long entries or files beyond 2 GB",
     [S + "rtree/wbasket.rs", S + "rtree/basket.rs", S + "rtree/branch/wbranch.rs", S + "rtree/tree/writer.rs"],
     [("WBranch::write / flush", S + "rtree/branch/wbranch.rs"), ("WBasket", S + "rtree/wbasket.rs")],
     technique="abstract interpretation of every function that fills or writes baskets; table, data and fLast compared term by "
               "term on every path; the size of the table as an inductive invariant",
     note="one call decided for every state of the basket that satisfies the invariant; the invariant holds at creation and is "
          "kept on every path")

prop("C09", "Reading changes no file; only RootFile::create makes one",
     "The only file the library ever makes, empties or opens for writing is the one at the path given to RootFile::create, inside "
     "that call; it starts empty. RootFile::open and everything done with an opened file open for reading only, and only the path "
     "given to RootFile::open. oxyroot-ls and oxyroot-dump open files for reading only. None of them deletes, renames, resizes, "
     "links or re-permissions a file, starts a process, opens a socket or changes the environment.",
     ["inputs", "histories"], "every use of the library and the programs",
     "a side effect on other files is not looked for by any test",
     [S, "oxyroot-ls/src", "oxyroot-dump/src"],
     [("RootFileReader::new / RootFileWriter::new", S + "riofs/file.rs"), ("main", "oxyroot-ls/src/main.rs"),
      ("main", "oxyroot-dump/src/main.rs")],
     technique="effect analysis: every call leaving the three crates classified, callers closed over the call graph, and the path "
               "argument traced back to its origin over all assignments",
     note="all calls of all functions; dependencies are assumed to have no effect on files")

prop("C10", "No failure is dropped on the way to the caller",
     "Every failure of an I/O, decoding, decompression, text-conversion or library operation inside the library, oxyroot-ls and "
     "oxyroot-dump reaches the caller as an error (as None from a function that returns an Option) or stops the program; it is "
     "never ignored, replaced by a default value or turned into success. Excepted: a downcast used as a test of the type, and a "
     "numeric code without a name, which is looked up as a plain number.",
     ["inputs", "fault points"], "every operation that can fail, failing at any moment",
     "tests open well-formed files on a working disk; almost no failure path is ever taken",
     [S, "oxyroot-ls/src", "oxyroot-dump/src"],
     [("RootFileReader / RootFileWriter", S + "riofs/file.rs"), ("RBuffer", S + "rbytes/rbuffer.rs"),
      ("decompress", S + "rcompress.rs"), ("Unmarshaler implementations", S + "rtree")],
     technique="dataflow of every Result value through the control-flow graphs of the MIR of the three crates and of the derived "
               "code: each failure edge must lead to an error return or to no return",
     note="all functions, all calls with a fallible result")

prop("C24", "Reading past the end of a buffer is an error, and only that",
     "Every primitive that reads numbers, booleans, strings or arrays of known length from a buffer returns an error, and does not "
     "panic, when the buffer ends before the last byte it needs; it never returns a value made of fewer bytes. It refuses no value "
     "whose bytes are all there.",
     ["inputs"], "every buffer, every position in it, every announced length",
     "tests read complete buffers; a truncated one is only met with damaged files",
     [S + "rbytes/rbuffer.rs"], [("read_* primitives", S + "rbytes/rbuffer.rs")],
     technique="abstract interpretation of MIR: each range sliced from the buffer against the conditions under which an error is "
               "returned, as linear inequalities",
     note="cstrings are outside (they end at a nul byte or at the limit given); seeking is outside")

prop("C28", "Opening a file reads everything from where ROOT's format puts it",
     "RootFile::open decodes every field of the file header, the directory header and the record headers (keys) at the offset and "
     "with the width ROOT gives it in a small file, a file beyond 2 GB with small records and one with records beyond 2 GB. It "
     "reads exactly the stretches of the file these headers name: the header, the directory record, the free list, the streamer "
     "information and the key list, each from its own pointer and with its own length, and payloads from behind the key. An object "
     "is decoded from the first byte of its payload, with positions counted from the start of the record. Every key that the key "
     "list counts is kept and handed out by RootFile::keys. A file is not refused for the length of its name (10 to 10000 bytes).",
     ["inputs"], "every well-formed file of version 4 or later, of any size, with any number of keys",
     "the test files are all small, so no 8-byte pointer is ever decoded; their keys have few sizes",
     [S + "riofs/file.rs", S + "riofs/dir.rs", S + "riofs/key.rs"],
     [("RootFile::open", S + "riofs/file.rs"), ("TDirectoryFile::read_keys", S + "riofs/dir.rs"), ("Key::load / object", S + "riofs/key.rs")],
     technique="abstract interpretation of RootFile::open over the bytes of the file as symbols; every decoded place and every "
               "stretch read compared with ROOT's layout as linear forms, case by case of the header versions",
     note="every decode, seek and read on every path of open, helpers included; three cases of file and record size")

prop("C17", "Reading a branch hands out exactly the data of its baskets",
     "as_iter over a branch of a well-formed file hands out the baskets one after the other: those on disk in the order of "
     "fBasketSeek, none left out, then the one kept in the record of the tree. The data of a basket is the fObjlen bytes behind "
     "its key, or the blocks marked ZL, XZ or L4 there, all of them, each decompressed with the decoder its mark names, from the "
     "bytes its header announces into the place where the last one ended. From a basket without a table of offsets fNevBuf "
     "entries are decoded one after the other, from its first byte on; from one with a table each entry is decoded from the "
     "bytes between its offset and the next, the last one up to fLast; strings of a TBranch may also be decoded one after the other.",
     ["inputs"], "every branch with one leaf: both kinds of branch, every kind of leaf, compressed or not in any number of blocks, any number "
     "and size of baskets and entries, with and without a table of offsets, with and without a kept basket",
     "the test files hold small baskets: none has blocks of more than 16 MB, few have a kept basket next to baskets on disk, or "
     "entries of varying size whose number matches the size of the data",
     [S + "rtree/branch/mod.rs", S + "rtree/branch/tbranch.rs", S + "rtree/branch/tbranch_element.rs", S + "rtree/basket.rs",
      S + "riofs/key.rs", S + "rcompress.rs"],
     [("Branch::as_iter / get_basket", S + "rtree/branch/mod.rs"), ("TBranch::get_baskets_buffer", S + "rtree/branch/tbranch.rs"),
      ("TBranchElement::get_baskets_buffer", S + "rtree/branch/tbranch_element.rs"), ("Basket::raw_data", S + "rtree/basket.rs"),
      ("Key::bytes", S + "riofs/key.rs"), ("decompress", S + "rcompress.rs")],
     technique="abstract interpretation of as_iter over a symbolic branch and basket, one step of its iterator; every read, "
               "decompression and decoding compared with ROOT's layout of a basket as linear forms over the numbers of its record",
     note="places, lengths and loops decided for every value of the numbers in the record; branching on the marks of blocks and "
          "on their sizes decided at the marks and at the boundary sizes")

prop("C16", "A branch is announced, named and read as the type it holds",
     "new_branch announces a branch as the type of its items. For the eleven number types and arrays of them: leaf class (TLeafB, S, I, "
     "L, F, D, O), element size (fLenType), element count (fLen), sign (fIsUnsigned), leaf title (name, or name[N] for arrays) and "
     "ROOT's letter (B b S s I i L l F D O) after the slash of the branch title. Strings get TLeafC. Strings and vectors, and no "
     "others, get a table of offsets (fEntryOffsetLen above 0); vectors, and no others, the class vector<...>. item_type_name returns "
     "the C++ name of the numbers a leaf holds: by leaf class and sign, or for the member of a split class by ROOT's type code (1-5, 8, "
     "11-18, plus 20 or 40), followed by [N] or [] when the leaf title gives one fixed or variable dimension. as_iter::<T> reads a "
     "branch exactly when that name is the C++ type of T: same width, sign, kind and dimension; what new_branch wrote as T it reads.",
     ["inputs"], "every number type, String, fixed arrays, Vec, Vec of Vec, HashSet and Slice of them, against every C++ name of another "
     "of these types; every type code of a number with no, a fixed and a variable dimension",
     "the tests read each branch with the one type it has, and no member of type Bool_t, Long64_t or ULong64_t of a split class",
     [S + "rtree/leaf.rs", S + "rtree/branch/", S + "rtree/tree/writer.rs", S + "rbytes/mod.rs", S + "rtree/streamer_type.rs", S + "rusty/containers.rs"],
     [("WriterTree::new_branch", S + "rtree/tree/writer.rs"), ("Branch::item_type_name / as_iter", S + "rtree/branch/mod.rs"),
      ("Unmarshaler::class_name", S + "rbytes/mod.rs")],
     technique="abstract interpretation of new_branch, item_type_name and as_iter for every type of a witness program; the record "
               "announced, the names and the refusals are compared with ROOT's tables",
     note="20 types written, 24 types read against 29 names, 14 type codes in three dimensions")

prop("C18", "A derived reader takes each field from the field's own branch",
     "For a struct deriving ReadFromTree, from_tree asks the tree for one branch per leaf field: its name is the field's name or its "
     "`rename`, behind the struct's `branch_prefix` or the field's own; for a field that is itself a derived struct the names of its "
     "fields are behind the field's name and a dot; `absolute_name` replaces all of that. The branch is read as the type of the field. "
     "In every entry each field holds the element of its own branch, and every branch iterator is advanced exactly once. A field with "
     "`slicable` holds one element per element of the slices of its branches, element i made of element i of each slice, from the "
     "first on. When one of the branches is not in the tree, from_tree answers with an error.",
     ["inputs"], "every attribute, alone, combined and nested, for the fields of the structs of a witness program; every entry",
     "the tests derive a few flat structs, nested ones only from files of ROOT with one level",
     ["oxyroot_derive/src/lib.rs", S + "rtree/tree/traits.rs", S + "rtree/tree/branch_name.rs"],
     [("derive(ReadFromTree)", "oxyroot_derive/src/lib.rs"), ("BranchName", S + "rtree/tree/branch_name.rs"),
      ("ReadFromTree for UnmarshalerInto", S + "rtree/tree/traits.rs")],
     technique="abstract interpretation of the expanded derive code of witness structs: names, types and iterators as concrete terms, one "
               "step of the iterator as the term of the struct it builds",
     note="7 structs, 37 leaf fields")
prop("C19", "A derived writer gives each field to the field's own branch",
     "For a struct deriving WriteToTree, to_tree adds one branch per leaf field, of the field's type, named like the field, with the "
     "names of the enclosing fields and dots in front when the struct is nested: the names the derived reader asks for. In the k-th "
     "entry each of these branches gets the value its field has in the k-th struct of the iterator, at every depth of nesting, and "
     "nothing after the last struct. For that, WriterTree::write calls every callback with StateCallBack::Before, in the order "
     "they were added, before it writes the branches of an entry.",
     ["inputs", "histories"], "every struct of a witness program, nested up to two levels; two entries and the end, which is every entry "
     "as the generated code keeps nothing else between entries", "the tests of nested structs are commented out",
     ["oxyroot_derive/src/lib.rs", S + "rtree/tree/traits.rs", S + "rtree/tree/writer.rs"],
     [("derive(WriteToTree)", "oxyroot_derive/src/lib.rs"), ("WriterTree::write, add_callback", S + "rtree/tree/writer.rs")],
     technique="abstract interpretation of the expanded derive code of witness structs, entries played symbolically through the callbacks "
               "and cells it creates; event order of WriterTree::write",
     note="3 structs, 18 leaf fields")

prop("C20", "A branch is found by its name, wherever it is in the tree",
     "branch(name) of a tree or of a branch answers the first branch of exactly that name among those inside it, at every depth, "
     "in the order of the tree (a branch before those inside it, and those before the next one), and None if there is none. "
     "branches() lists the branches directly inside, branches_r() those at every depth, each once and in that order. This is the "
     "same for plain branches and for branches of objects.",
     ["inputs"], "every name that occurs and several that nearly do, asked of the tree and of every branch in four trees with both kinds of "
     "branches, repeated names and up to four levels", "test files have few levels, and unique names",
     [S + "rtree/tree/reader.rs", S + "rtree/branch/mod.rs", S + "rtree/branch/tbranch.rs"],
     [("ReaderTree::branch, branches, branches_r", S + "rtree/tree/reader.rs"), ("Branch::branch, branches, branches_r", S + "rtree/branch/mod.rs")],
     technique="abstract interpretation of the searches on trees of terms with known names and kinds, all else unknown",
     note="4 trees")

prop("C26", "Objects are kept and found under their names",
     "RootFile::get_tree(name) reads the object of the key of exactly that name with the highest cycle, and with 'name;n' that of cycle n; "
     "where there is no such key, and where the object is no tree, it answers an error instead of ending the program. keys and "
     "keys_name give every key in the order of the file. Writing a tree refuses a name with a slash and one under which an object of another "
     "class is kept; otherwise it leaves the keys there are and adds one with the tree's name and class and the cycle after "
     "the highest there is of that name, the same in the list and in the header that is written.",
     ["inputs", "histories"], "lists of keys with unsorted cycles, names that are prefixes of others or differ in case, other classes; every name "
     "and name;cycle in them and several that are not", "tests write one tree per file, ask for existing names, and never for a cycle",
     [S + "riofs/file.rs", S + "riofs/dir.rs", S + "riofs/utils.rs"],
     [("RootFile::get_tree, keys, keys_name, put", S + "riofs/file.rs"), ("TDirectoryFile::get_object", S + "riofs/dir.rs")],
     technique="abstract interpretation on known key lists: the place of the file that is read, the list and header left behind",
     note="4 key lists; cycles beyond 16 bits left out")

prop("C90", "Any value written to a tree is read back equal",
     "For every sequence of values written to a branch of a supported type, reopening the file and iterating the branch "
     "yields the same sequence.",
     ["inputs", "histories"], "all value sequences, basket boundaries and compression outcomes",
     "tests use short fixed sequences",
     [S + "rtree/branch/wbranch.rs", S + "rtree/branch/mod.rs"], [("write path and iterator", S + "rtree")],
     na="quantifies over runtime values through basket flushing, compression and iterator state; its structural clauses are "
        "claimed separately (layout agreement, primitive codecs, lengths, bookkeeping), the end-to-end equality itself is not "
        "decidable by a static argument in reach")
prop("C91", "Malformed files never crash the reader",
     "Opening and reading any byte string as a file returns an error instead of panicking, looping or exhausting memory.",
     ["inputs"], "every byte string", "tests only open well-formed files",
     [S + "riofs", S + "rbytes"], [("bounds checks in the buffer reader", S + "rbytes/rbuffer.rs")],
     na="needs runtime bounds on lengths and offsets taken from the file through dozens of array allocations and recursive "
        "structures; no sound static argument in reach discharges them (the primitive-level clause is claimed separately)")
prop("C92", "Column iterators deliver the same chunking for every basket layout",
     "Zipped iteration over branches with different basket boundaries yields entries aligned by entry number.",
     ["inputs"], "every basket layout of every branch", "test files have a handful of layouts",
     [S + "rtree/branch/mod.rs", S + "rtree/tree/reader.rs"], [("entry numbering of baskets", S + "rtree/branch/tbranch.rs")],
     na="depends on runtime basket entry numbers; alignment of histories is not a property of the shape of the code")
