CB = "src/cell/builder.rs"
CS = "src/cell/slice.rs"

prop("C01", "Appending to a cell builder writes exactly the requested bits",
     "Appending a bit, a run of zero bits, an integer of any fixed or requested width, a 256-bit value or raw bytes to a cell builder in any state "
     "succeeds exactly when the new size stays within 1023 bits, keeps every earlier bit, appends exactly the requested bits in big-endian order "
     "(values narrower than the requested width are left-padded with zeros, wider ones keep their low bits) and leaves the bits after the new end zero. "
     "When there is not enough room, for any requested width at all, the append is refused with an overflow error and the builder is left exactly as it was.",
     "every builder content and length, every value, every requested width (raw byte sources: up to 5 bytes in the quick tier)",
     "The tests append a few values at a few bit offsets; a wrong mask or shift shows only for particular combinations of offset, width and value.",
     [CB],
     [("store_uint, store_small_uint, store_uN", CB), ("store_raw shifting copy", CB), ("capacity check", CB)],
     "store_raw is checked with a bound on its source length.")

prop("C03", "Reading from a cell slice returns exactly the bits of the window",
     "Reading a bit, an integer of any fixed or requested width, a 256-bit value or raw bytes from any window of any cell, at an offset or from the front, "
     "succeeds exactly when the requested range lies inside the window and the requested width fits the result type, and yields exactly those bits in big-endian order. "
     "Reading from the front advances the window by exactly the bits read, and a read that does not fit is refused with an underflow error and leaves the slice as it was.",
     "every cell content, bit length and window, every offset and width (raw reads: up to 9 bytes in the quick tier)",
     "The tests read a few values at a few offsets; reads that cross byte boundaries in unusual ways, large offsets and reads near the end of a window are not reached.",
     [CS],
     [("get_/load_ bit, u8..u256, uint, small_uint, raw", CS), ("window bound checks", CS)],
     "Raw reads are checked with a bound on their length.")

prop("C04", "Slice windows: skipping, cutting and splitting never leave the window",
     "Every operation that narrows, advances or splits the window of a cell slice (skip, only-first, only-last, prefix, split, range subtraction and the like, for data bits and references) "
     "yields exactly the requested sub-window when it fits inside the current one, and otherwise reports an underflow or clamps as documented. "
     "The resulting window never extends beyond the original one and sizes always equal the number of bits and references left.",
     "every window and every requested number of bits and references",
     "The tests use small in-range arguments; arguments near the integer limits and combinations of bits and references are not sampled.",
     [CS],
     [("CellSliceRange and CellSlice window operations", CS)])

prop("C05", "Slice comparisons agree with the bit strings they denote",
     "Equality, prefix and suffix tests, longest common prefix, lexicographic comparison, prefix/suffix stripping, uniform-bit tests and counting of leading or trailing equal bits of cell slices "
     "all agree with the mathematical operation on the bit strings in the windows. They do not depend on how the windows are aligned within their cells or on data outside the windows.",
     "every pair of windows within the stated byte bounds, at every pair of bit alignments",
     "The tests compare a handful of strings; errors in the word-at-a-time comparison show only for particular pairs of alignments and lengths.",
     [CS],
     [("lex_cmp, contents_eq, is_data_prefix_of, is_data_suffix_of, longest_common_data_prefix, strip_data_prefix/suffix, test_uniform, count_leading/trailing", CS)],
     "Bounded by the number of data bytes per slice (stated per harness).")

prop("C06", "Cell descriptors and level masks encode and decode the same facts",
     "Computing a cell descriptor from reference count, exotic flag, stored-hash flag, level mask and bit length and reading those facts back gives the same facts, for all legal combinations, "
     "and the byte length derived from a descriptor matches the bit length it was made from. "
     "Level masks combine, shift for virtualization and Merkle cells, map a level to its hash index and count hashes exactly as the set of significant levels they denote.",
     "every descriptor byte pair and every level mask and level from 0 to 3",
     "Only the combinations that occur in the sample cells are tested.",
     ["src/cell/mod.rs", "src/cell/cell_impl.rs"],
     [("CellDescriptor", "src/cell/mod.rs"), ("LevelMask", "src/cell/mod.rs")])

prop("C11", "Blockchain integers: exact checked arithmetic and canonical encoding",
     "For the 9, 12 and 15 bit fixed integers and the 24, 56, 120 and 248 bit variable-length integers, checked addition and subtraction (and, except for 248 bits, multiplication and division) return the exact result or report overflow exactly when it is out of range, "
     "saturating operations clamp to the nearest bound, failed in-place operations keep the old value, ordering is numeric, and 248-bit addition, subtraction and shifts are exact. "
     "Encoding a valid value writes the minimal number of bytes behind its length prefix (fixed-width for small integers), occupying exactly the advertised number of bits, encoding an invalid value or one that does not fit in the builder is refused without touching it, and decoding any bits returns exactly the value they denote, always in range; "
     "split depths are accepted exactly in 1..=30.",
     "every value, every pair of operands, every builder fill and every cell content and window",
     "Tests use powers of two and a few constants; carries between words, boundary values and length prefixes at byte boundaries need specific inputs.",
     ["src/num/mod.rs", "src/num/varuint248.rs"],
     [("impl_var_uints, impl_small_uints, store_u128, load_u128, SplitDepth", "src/num/mod.rs"), ("VarUint248", "src/num/varuint248.rs")])

AD = "src/models/message/address.rs"
prop("C12", "Shard identifiers: exact validity, prefix algebra and codec",
     "A shard identifier is accepted exactly when its prefix has one tag bit at a depth of at most 60 (and the workchain constraints of the masterchain hold). "
     "Ancestor, parent, child, sibling and intersection tests agree with the prefix relation on bit strings; splitting yields exactly the two children, merging undoes it, and the opposite of a shard is its sibling. "
     "Containing an address or a prefix means having the shard prefix as its first bits. Encoding a shard identifier and decoding it gives it back, at its advertised size. "
     "Short block ids saturate instead of wrapping.",
     "every 64-bit prefix, every pair of prefixes and workchains, every 256-bit address, every cell window",
     "Tests use a handful of shards; wrong masks show only for particular depth pairs and bit patterns.",
     ["src/models/block/block_id.rs", "src/models/block/shard_hashes.rs"],
     [("ShardIdent", "src/models/block/block_id.rs"), ("BlockIdShort", "src/models/block/block_id.rs")])

prop("C13", "Message addresses encode and decode exactly",
     "Encoding a standard or variable-length internal address writes exactly its tag, optional anycast info, length, workchain and address bits, occupying the advertised number of bits; "
     "an address that does not fit in the builder is refused and the builder left unchanged. Decoding accepts exactly well-formed data (known tag, anycast depth 1 to 30, enough bits), consumes exactly its bits and yields exactly the address they denote. "
     "Standard addresses used as dictionary keys round-trip through their 267-bit key, and any other key is refused.",
     "every address, anycast prefix and builder fill; every cell content and length",
     "Tests encode a handful of addresses at bit offset zero; wrong shifts and anycast depths at unusual values are not sampled.",
     [AD],
     [("StdAddr, VarAddr, IntAddr, Anycast: Store/Load", AD), ("StdAddr dictionary key", AD)],
     "Variable addresses are checked up to 32 address bits.")

CC = "src/cell/cell_context.rs"
prop("C07", "Cell hashes, depths and levels follow the hashing rule",
     "For every cell type the hash at each significant level is the SHA-256 of exactly the descriptor bytes, the data with its end tag (or the previous level's hash), the depths and the hashes of the children at the matching level "
     "(one higher inside Merkle cells), in that order; the depth is one more than the deepest child and the number of hashes is that of the level mask. "
     "Cells are refused exactly when they violate the rules of their type (length, level mask, number of children, embedded hashes and depths of Merkle cells) or are deeper than 65535. "
     "Building passes on exactly the stored bits, references and flags, and the made cell answers with exactly these hashes and depths at every level; pruned branches answer with their stored ones, virtual cells with those of level zero.",
     "every cell content, level mask and child, up to four children with arbitrary hashes, depths and level masks",
     "Tests check the hashes of sample cells; rare level masks, Merkle cells nested in pruned branches and forged embedded hashes are hardly sampled.",
     [CC, CB, "src/cell/cell_impl/mod.rs"],
     [("CellParts::compute_hashes", CC), ("CellBuilder::build_ext", CB), ("OrdinaryCell, PrunedBranch, VirtualCellWrapper: CellImpl", "src/cell/cell_impl/mod.rs")],
     "SHA-256 itself (crate sha2) is trusted and replaced by a recorder. Virtual cells are checked for level masks 0 and 1.")

prop("C02", "Builder operations on whole contents copy exactly and respect capacity",
     "Removing bits from the end, clearing, prepending bits, and appending the data of a cell, of a slice or of another builder (with its references, in order) to a builder "
     "yield exactly the concatenation of the bit strings and reference lists involved, succeed exactly when it fits in 1023 bits and four references, and otherwise leave the builder as it was. "
     "The reported size and spare capacity are exact, and a capacity query is true exactly when an append of that size would fit.",
     "every builder content and fill, every number of bits to remove or to ask for; appended contents up to 5 bytes, prepended ones up to 2",
     "Tests join a few contents at a few bit offsets.",
     [CB],
     [("rewind_bits, clear_bits, prepend_raw, store_cell_data, store_slice_data, store_builder, capacity queries", CB)],
     "Bounded by the size of the copied contents.")

PP = "src/models/config/params.rs"
prop("C18", "Fees and currency amounts are computed exactly",
     "Gas, storage and forwarding fees are the fixed part plus the price times amount, divided by 65536 and rounded up, saturating instead of wrapping; masterchain prices apply exactly on the masterchain; "
     "the first and next parts of a forwarding fee are the given 65536ths, rounded down and never more than the whole; burned fees are the given fraction rounded down, refused exactly for fractions above one. "
     "Adding and subtracting currency collections is exact or refused exactly when out of range, a refused in-place operation keeps the old value, and clamping takes the smaller amount. Cell statistics add up with saturation.",
     "every price and amount for forwarding fees, token amounts and statistics; bounded factors for gas, storage and burned fees",
     "Tests compute a few fees from one configuration; rounding and saturation show only for particular remainders and large values.",
     [PP, "src/models/currency.rs", "src/cell/mod.rs"],
     [("compute_gas_fee, compute_storage_fee, compute_fwd_fee, get_first_part, get_next_part, compute_burned_fees", PP), ("CurrencyCollection", "src/models/currency.rs"), ("CellTreeStats", "src/cell/mod.rs")],
     "Products of two wide symbolic factors are bounded. Extra currencies (dictionaries) are not covered.")

CODEC = ("is stored as exactly its TL-B layout (tags, widths, order, reserved bits) and read back as the same value, consuming exactly its bits; "
         "a truncated encoding or another tag is refused, and values that break the type's own rules are not stored")
CW = "Tests store a sample value or two per type; a swapped pair of fields of equal width, a wrong width, tag or flag goes unnoticed when both directions agree or the sample has zeros there."
CN = "Read and append operations are replaced by their C01/C03 contracts, variable-length integers by their C11 contracts."
prop("C19", "Configuration parameters have their exact wire format and round-trip",
     "Every configuration parameter of fixed layout (prices, limits, timings, validator description and counts, catchain and consensus settings, workchain description and format, size limits, burning, version) " + CODEC + ". "
     "A workchain accepts an address length exactly when it is the minimum, the maximum or aligned to the step in between.",
     "every value of every listed type, every truncation point, every other tag", CW, [PP, "src/models/global_version.rs"],
     [("Store and Load of the configuration parameters", PP), ("derive(Store, Load)", "proc/src")], CN)
AC, TX = "src/models/account/mod.rs", "src/models/transaction/phases.rs"
prop("C20", "Parts of accounts and transactions have their exact wire format and round-trip",
     "Every part of an account or transaction of fixed layout (storage statistics and extra, account status, special flags, storage, skipped compute, action and bounce phases, status changes, hash updates) " + CODEC + ".",
     "every value of every listed type, every truncation point, every other tag", CW, [AC, TX, "src/models/transaction/mod.rs"],
     [("Store and Load of the account parts", AC), ("Store and Load of the phases", TX)], CN)
prop("C21", "Parts of blocks and messages have their exact wire format and round-trip",
     "Every part of a block, shard state or message of fixed layout (block references and signatures, intermediate addresses, queue entries, validator info, key block references, creator statistics, split and merge schedules, action flags, message types) " + CODEC + ".",
     "every value of every listed type, every truncation point, every other tag", CW,
     ["src/models/block/block_extra.rs", "src/models/message/envelope.rs", "src/models/shard/shard_extra.rs", "src/models/vm/out_actions.rs", "src/models/message/mod.rs"],
     [("Store and Load of block parts", "src/models/block/block_extra.rs"), ("Store and Load of message parts", "src/models/message/envelope.rs"), ("Store and Load of state parts", "src/models/shard/shard_extra.rs")], CN)

BD, BS = "src/boc/de.rs", "src/boc/ser.rs"
prop("C09", "Decoding a bag of cells accepts exactly well-formed bytes, and is safe",
     "Reading the header and the cells of a bag of cells never reads outside the input, never panics, and accepts exactly the inputs that follow the layout: a known tag and flags, "
     "sizes of references and offsets in range, as many roots and cells as announced, consistent totals, a checksum where one is announced, cells with valid descriptors whose data, stored hashes and references lie inside the input. "
     "A raw cell is split into exactly its descriptor, data (without the padding tag), stored hashes and reference indices; references point to later cells only.",
     "every input of up to 18-24 bytes for headers, every bytes of a cell for cells",
     "Tests decode valid bags and a few corrupted ones; a missing bounds check, or one which is too strict, shows only for particular sizes.",
     [BD, "src/cell/mod.rs"],
     [("BocHeader::decode", BD), ("read_raw_cell", BD), ("CellParts, ProcessedCells", BD)],
     "Bounded by the size of the input; building the decoded cells is C07.")
prop("C10", "Encoding a bag of cells writes every cell once, in order, with exact sizes",
     "Encoding trees of cells produces the generic layout: the tag, flags, sizes of references and offsets, numbers of cells and roots, the total size, the roots, then every distinct cell exactly once, parents before children, "
     "with its descriptor, stored hashes and depths (unless they are left out), data and the indices of its children, and the checksum of everything before it when one is asked for. The announced sizes are exact, "
     "equal cells are stored once, the traversal for deep trees gives the same kind of order, and writing to a writer produces the same bytes.",
     "every number of cells, references and bytes for the sizes; trees of up to three cells for the contents",
     "Tests encode and decode the same bags; sizes that cross a byte boundary, shared cells, deep trees, several roots and stored hashes are rarely hit.",
     [BS],
     [("compute_stats", BS), ("encode, encode_header, encode_cells_chunk, encode_crc, encode_to_writer", BS), ("fill_recursive, fill_deep", BS)],
     "Contents are bounded to trees of up to three cells of concrete sizes.")
prop("C14", "Dictionary labels are written in their only valid form and read back",
     "The label of a dictionary node is written in the shortest of the three forms for its bits and the remaining key length (the repeated form when strictly shorter than the short one, the long form when shorter than the short one), "
     "as the block scheme demands, followed by the value; reading any label yields its bits and leaves exactly what follows it, and truncated labels are refused.",
     "every key of up to 256 bits",
     "Tests build a few dictionaries with 32-bit keys; the choice between forms at equal lengths, long runs and unusual key lengths are not reached.",
     ["src/dict/mod.rs", "src/dict/ops/insert.rs"],
     [("write_label, read_label, make_leaf", "src/dict/mod.rs"), ("dict_insert", "src/dict/ops/insert.rs")],
     "Bit-level operations of builders and slices are replaced by their C01-C05 contracts.")
