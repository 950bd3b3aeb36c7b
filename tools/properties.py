BC = "src/bool_coder.rs"
VG = ("Decided for every input of the stated domain by comparing normal forms of the value graph of the resolved MIR with the "
      "definition; an obligation whose forms do not meet is reported only with a concrete distinguishing assignment, otherwise it is "
      "listed as undecided. Trusts rustc's MIR, the models of the standard library in analysis/models.py and the value-graph engine.")

prop("C01", "Every bitstream descriptor writes the exact wire form and decodes back",
     "Every fixed and variable length field written to the bitstream (plain bits of a given width, exponential Golomb, little-endian "
     "bytes, LEB128, signed, non-symmetric) is exactly the bit sequence the AV1 specification gives for that value, appended after what "
     "was already written. Reading any such sequence back yields the same value and consumes exactly its bits.",
     ["inputs"], "all values and widths the descriptor can carry",
     "The tests read back a handful of values; the wire form itself (bit order, length, extreme values) is only fixed by universally quantified equality.",
     [BC], [("descriptor writers and readers", BC + ": push_bits*, encode_/decode_ uvlc, le, leb128, su, ns, literal")],
     note=VG + " Widths and byte counts are enumerated over their whole domain, values stay symbolic.")

prop("C02", "Encoder and decoder split and renormalise the coding interval identically",
     "For every symbol, probability table and coder state, encoding a symbol narrows the interval to that symbol's share and emits "
     "exactly the bits (including carries and pending runs) that the arithmetic coder definition prescribes. Decoding splits the "
     "interval at the same points, picks the symbol whose share holds the code value and renormalises by the same amount; single bits of a given probability use the same table on both sides.",
     ["inputs", "histories"], "all interval states reachable between symbols, all symbols, all monotone probability tables",
     "Round-trip tests sample a few symbol sequences; a wrong bound shows only for particular probabilities, ranges or carry runs.",
     [BC], [("interval step", BC + ": encode_symbol, decode_symbol, encode_bool, decode_bool")],
     state=[("coder state", "low end, range, pending run, value read", BC)],
     note=VG + " Alphabet sizes 2..16; the number of renormalisation shifts and the pending-run length are enumerated up to a bound (evidence lists them).")

prop("C03", "Probability adaptation is the defined update and the same on both sides",
     "After each coded symbol the probability table used for it is moved towards that symbol by exactly the AV1 adaptation rule, for "
     "every alphabet size, symbol and adaptation count. Encoder and decoder apply the same update, so their tables never diverge.",
     ["inputs", "histories"], "all alphabet sizes 2..16, all symbols, all table contents and counters",
     "A divergence for one alphabet size or counter value only shows after particular symbol histories; the tests use few symbols.",
     [BC], [("table adaptation", BC + ": encode_symbol, decode_symbol")], note=VG)

prop("C04", "Entropy-coded segments start from a clean state and end byte aligned",
     "Starting a segment puts the coder in the defined initial state whatever was coded before, and the coder's count of produced bits "
     "always equals the bits it really produced. Finishing a segment emits the remaining bits, the end marker and zero padding to a whole byte, and "
     "the reader that is told the segment's size consumes exactly that many bytes.",
     ["inputs", "histories"], "all previous coder states and all segment sizes",
     "The tests code one segment from a fresh coder; reuse after an earlier segment and unusual remaining-bit counts are not reached.",
     [BC], [("segment start and end", BC + ": init_encoder, exit_encoder, init_decoder, exit_decoder")],
     state=[("bit count", "bits produced in this segment", BC)], note=VG)

prop("C05", "Reading past the end of the input always stops",
     "A descriptor reader that runs out of input never loops for ever and never returns a value made up from bits that are not there. "
     "It stops with a panic at the missing bit.",
     ["inputs", "fault_sequences"], "all inputs truncated at every position inside a field",
     "Tests only feed complete inputs; every truncation point of every field has to be considered.",
     [BC], [("field readers", BC + ": decode_* and read_* functions")], note=VG + " Loops are decided by reaching a repeated abstract state.")

prop("C06", "Bit-position helpers compute the floor of the base-2 logarithm",
     "For every nonzero value, the most-significant-bit helpers of all word sizes return the index of the highest set bit. Field widths "
     "derived from them are therefore the minimal widths that hold the value.",
     ["inputs"], "all nonzero 16, 32 and 64 bit values", "The domain is too large to sample; an error in one branch hits one range of values only.",
     ["src/util.rs"], [("msb helpers", "src/util.rs: msb16, msb32, msb64")], note=VG)

OE, SH, FR, EN = "src/obu_encoder.rs", "src/sequence_header.rs", "src/frame.rs", "src/encoder.rs"
LAY = (" Field values stay symbolic over their whole coded range; groups of parameters that do not interact are taken one group at a time, "
       "list lengths and frame sizes up to the bounds in the evidence.")

prop("C13", "Sequence headers carry every sequence setting in the defined layout",
     "For every valid sequence configuration, the sequence header contains exactly the syntax elements the layout prescribes, in order, with the prescribed "
     "widths, values and presence conditions. After it is coded, every sequence setting that later headers depend on has the value a decoder derives from those bits. "
     "Coding the same sequence header again yields the same bits.",
     ["configurations", "histories"], "all valid sequence configurations",
     "The presence conditions interact (profile, bit depth, monochrome, reduced header, timing, decoder model), and no test codes a header at all.",
     [OE, SH, EN], [("sequence header", OE + ": encode_obu_payload, OBU_SEQUENCE_HEADER")], note=VG + LAY)

prop("C14", "Frame headers carry the frame's identity, size and references correctly",
     "For every valid frame configuration, the part of the frame header that describes frame type, display, error resilience, frame identifiers, order hints, "
     "buffer refresh, frame, superres and render size, and reference selection is exactly the sequence of syntax elements the AV1 layout prescribes, with their "
     "widths, values and presence conditions.",
     ["configurations"], "all valid combinations of frame type, flags, sizes and reference state",
     "Presence of each element depends on many earlier ones; there are far too many combinations to sample and no test codes a frame header.",
     [OE, FR, EN], [("frame header", OE + ": encode_obu_payload, OBU_FRAME_HEADER")], note=VG + LAY)

prop("C15", "Frame headers carry tile and coding-tool parameters correctly",
     "For every valid frame configuration, the tile layout, quantization, segmentation, delta quantizer and loop filter, loop filter, CDEF, loop restoration, "
     "transform mode, reference mode, skip mode, global motion and film grain parts of the frame header are exactly the syntax elements the AV1 layout prescribes, "
     "with their widths, values and presence conditions.",
     ["configurations"], "all valid tool parameters, including every segment, reference, plane and film grain point",
     "Each parameter has its own width, sign and condition; an error in one index or condition corrupts everything after it and only for some configurations.",
     [OE, FR, EN], [("frame header parameter groups", OE + ": encode_obu_payload, OBU_FRAME_HEADER")], note=VG + LAY)

prop("C16", "After a frame header the encoder's settings are those a decoder derives",
     "For every valid frame configuration, once the frame header is coded every setting that the coding of the frame's tiles and of later headers reads (frame and superblock "
     "geometry, tile boundaries, order hints and sign biases, lossless flags, segment features, filter and restoration parameters, skip mode, global motion) has exactly "
     "the value a decoder derives from the coded header.",
     ["configurations", "histories"], "all valid frame configurations and earlier encoder states",
     "A setting that silently keeps a stale or default value makes the tile data undecodable although every header bit is right; no test looks at the state.",
     [OE, FR, EN], [("derived settings", OE + ": encode_obu_payload, OBU_FRAME_HEADER")],
     state=[("encoder context", "settings shared by headers and tiles", EN + ": EncoderContext")], note=VG + LAY)

prop("C17", "Every unit is framed with its type, exact byte sizes and trailing bits",
     "Whatever the payload, a unit is coded as a header byte with its type, the payload, a trailing one bit where the format has one and zero bits up to the byte boundary. "
     "A temporal unit is written as nested sizes, each counting exactly the bytes that follow it, and everything is handed to the output in that order.",
     ["inputs"], "all unit kinds and all payload contents and lengths",
     "Sizes cross length thresholds of their own coding and payload lengths are arbitrary; no test writes a unit.",
     [OE, "src/obu.rs"], [("unit framing", OE + ": encode_obu_header, encode_obu, encode_temporal_unit")], note=VG + " Payload lengths are enumerated around the size thresholds, payload bits stay symbolic.")

prop("C18", "Metadata, padding and delimiter units carry exactly what they were given",
     "Every metadata unit is its type code followed by all its fields in the defined order and width, for every field value, list length and combination of optional "
     "parts. Padding units are as many zero bytes as requested, and a temporal delimiter is empty and makes the next frame header a full one.",
     ["inputs"], "all metadata kinds, field values and list lengths",
     "Fields can be dropped or narrowed without any failure in the encoder itself; nothing in the tests codes metadata.",
     [OE, "src/obu.rs"], [("metadata, padding, delimiter", OE + ": encode_obu_payload")], note=VG + " List lengths are enumerated up to the bounds in the evidence.")

prop("C19", "The byte writer outputs every bit exactly once, in order, or fails loudly",
     "Whatever the split of the bits over calls, the bytes handed to the output are the bits in order, first bit highest, each exactly once, and alignment appends only zero bits up to "
     "the next byte boundary. A byte the output does not take at once is offered again, and an output error stops the program instead of dropping data.",
     ["inputs", "fault_sequences"], "all bit sequences, all writer states and all short writes and errors of the output",
     "Short writes and errors occur only on real devices under load; tests never use the writer.",
     ["src/binary_writer.rs"], [("byte writer", "src/binary_writer.rs: write_bit, write_bits, byte_align, write")],
     state=[("partial byte", "bits waiting for a full byte", "src/binary_writer.rs: BinaryWriter")], note=VG)

prop("C11", "Each block syntax element is one symbol, with its own table and context",
     "Every block-level element (modes, references, skip and segment flags, partition, transform size and type, palette, motion vector parts, restoration flags and so on) is coded as "
     "exactly one symbol holding its value, with the probability table the format assigns to it. The context that selects within that table is the one the format defines, for every "
     "state and availability of the neighbouring blocks.",
     ["inputs", "configurations"], "all element values, block and transform sizes, neighbour contents and neighbour availabilities",
     "A wrong context or table produces a stream that looks fine to the encoder and desynchronises every decoder; contexts depend on neighbour state no test sets up.",
     [BC, "src/common.rs", "src/frame.rs"], [("element coders", BC + ": encode_intra_frame_y_mode .. encode_restoration_type"), ("context helpers", "src/common.rs")],
     note=VG + " Block positions are enumerated relative to the frame edge (no, one or both neighbours inside the frame; availability itself stays symbolic), neighbour records are symbolic.")

prop("C12", "Each coefficient element is one symbol, in the context its block defines",
     "Every element of a transform block's coefficient data (all-zero flag, end-of-block position, base levels, level ranges, DC sign) is coded as exactly one symbol holding its value, "
     "with its own table and the context the format derives from transform size, type, position and neighbouring levels. The transform type that selects scans and contexts is derived from "
     "the stored type, the prediction mode and the transform set exactly as a decoder derives it.",
     ["inputs", "configurations"], "all element values, transform sizes, classes, planes, subsamplings and coefficient neighbourhoods",
     "Contexts depend on position and on combinations of neighbouring levels; one wrong entry desynchronises the decoder for rare blocks only, and no test codes a coefficient.",
     [BC, "src/common.rs", "src/constants.rs"], [("coefficient coders", BC + ": encode_all_zero .. encode_coeff_br"), ("type and context derivation", "src/common.rs")],
     note=VG + " Positions are enumerated at the corners, edges and middle of each transform size; levels are symbolic, two at a time, the rest pinned to varying values. "
     "The leading quantizer-class index of the tables is left out of the comparison, and neighbouring units along one edge are taken to belong to one block.")

CT = "src/constants.rs"
KT = ("Static analysis of compile-time values: the compiler evaluates every constant of the current tree, the check compares the evaluated values with the definition")
prop("C07", "Initial probability tables are the format's defaults and valid distributions",
     "Every initial probability distribution gives each symbol a nonzero share, accumulates to exactly the full scale and starts with no adaptation history. Every entry equals the "
     "default the format prescribes, since a decoder starts from the same numbers without being told them.",
     ["inputs"], "all tables, contexts and symbols",
     "There are thousands of distributions; a wrong entry only shows for streams that use that context, and no test reads a table.",
     ["src/cdf.rs"], [("default tables", "src/cdf.rs: default_cdf")], tech=KT,
     note="Validity is checked by law on every row. Equality is against a reference copy of the reviewed tree (analysis/ref/cdf.json), since the format document is not available offline.")
prop("C08", "Quantizer, filter and mask tables hold the format's values",
     "Step sizes per bit depth and index, quantizer matrices, interpolation, warp and upscaling filters, blending masks, restoration and directional filter parameters are the ones the format "
     "defines. In particular every filter has unit gain and mirrored phases, step sizes never shrink as the index grows, and reciprocal and cosine tables are the correctly rounded functions.",
     ["inputs"], "all entries of all tables",
     "Over a hundred thousand numbers, each of which affects only particular blocks; the tests touch none.",
     [CT, "src/quantizer.rs"], [("tables", CT + ": filters and masks; src/quantizer.rs: step sizes and matrices")], tech=KT,
     note="Laws are checked on every row; remaining values against a reference copy of the reviewed tree (analysis/ref/tables.json).")
prop("C09", "Block, transform and partition geometry is consistent with the sizes' names",
     "Widths, heights, logarithms, counts of 4x4 units, chroma sizes, partition results, square and clamped transform sizes, split depths and size groups are exactly what the named block and "
     "transform sizes imply. The tables that map modes, transform sets, positions and features to codes and contexts are the ones the format defines.",
     ["inputs"], "all block sizes, transform sizes, partitions, subsamplings and modes",
     "Every combination of size, partition and subsampling has its own entry, and a wrong one shows only in streams that use that combination.",
     [CT], [("geometry tables", CT)], tech=KT,
     note="Geometry is computed from the names (width x height); mapping tables are compared with their definitions.")
prop("C10", "Coded identifiers and limits have the values the format assigns",
     "Every enumerated value that is written to or selects something in the stream (frame types, references, prediction modes, partitions, transform sizes and types, filters, colour description, "
     "scalability modes and so on) has the numeric code the format assigns. Every named limit and field width has the format's value.",
     ["inputs"], "all enumerated values and named limits",
     "A changed code still compiles and is self-consistent inside the encoder; only a decoder would notice.",
     [CT, "src/obu.rs"], [("enumerations and limits", CT + "; src/obu.rs: ScalabilityModeIdc")], tech=KT,
     note="Compared with analysis/ref/codes.json and scalars.json, reviewed against the AV1 specification's constants.")

prop("C20", "Every command-line option takes effect as documented, and nothing else does",
     "Each option, in its long or short form and at any position, sets exactly its own setting from the one argument that follows it; a later occurrence wins, all remaining arguments are still "
     "processed, and unset options have their documented defaults. Anything malformed (unknown options, missing, non-numeric, out-of-range or ill-formed values) is rejected with an error and never "
     "crashes. A configuration is accepted exactly when input, output, frame count, a size from 1x1 to 8191x8191 and a positive frame rate are present.",
     ["inputs"], "all option orders, forms and numeric values",
     "The combinations of options, orders and malformed values are unbounded; no test runs the parser.",
     ["src/option.rs"], [("option table and parser", "src/option.rs: OPTIONS, CommandOption::parse, init_config, validate_config")],
     note=VG + " Argument vectors are enumerated by shape (each option, each pair in order, malformed shapes); the numbers and paths in them are symbolic.")
prop("C21", "Frames are read whole, sample by sample, at the configured size",
     "Every frame takes exactly one plane of width by height bytes and two planes of half width by half height, rounded up, from the input, in that order, and every byte ends up at its own position "
     "however the input splits its data. Reading stops at the frame limit or at the end of the input, and a buffer that could not be filled is reported and never used. The per-block records cover "
     "the whole frame.",
     ["inputs", "fault_sequences"], "all frame sizes, frame limits, piecewise deliveries, ends and failures of the input",
     "Odd sizes, short reads from pipes and truncated files do not occur in tests; the tests never read a frame.",
     ["src/binary_reader.rs", FR, "src/main.rs"], [("reader", "src/binary_reader.rs: read_to_vec"), ("buffers", FR + ": Frame::new"), ("frame loop", "src/main.rs: main")],
     note=VG + " The program is followed from its arguments to its end with the outcome of every outside operation left open; the frame limit is symbolic up to the bound in the evidence.")
prop("C22", "The program delivers its complete output or reports failure",
     "The exit status is zero exactly when the command line was valid, every file could be opened and every read and write succeeded; otherwise a message goes to standard error. A successful run has written out "
     "everything, namely one sequence header with the configured size once a whole frame has been read and nothing for an empty input, to the named output only, which then holds nothing else, and standard output carries nothing but the "
     "stream. Files are opened only when the command line is valid.",
     ["inputs", "fault_sequences"], "all sources and destinations, failures of any outside operation and points where the input ends",
     "Failures of files and pipes at particular moments cannot be sampled by unit tests, and no test runs the program.",
     ["src/main.rs", "src/binary_reader.rs", "src/binary_writer.rs"], [("program", "src/main.rs: main")],
     note=VG + " Every path through the program is followed with the outcome of every outside operation left open and checked by a monitor. The encoding of the unit itself is C13 and C17.")
prop("C23", "Tiles are divided into blocks that a decoder visits in the same order",
     "Every tile codes exactly the superblocks inside its bounds, once each, in raster order and from reset deltas and filter references; every block is divided only in ways its size allows, into "
     "blocks at the positions and in the order the decoder derives from the coded partition, none starting outside the frame. Trying a partition leaves no trace on the next: output, tables and coder state "
     "afterwards are those of the partition chosen. Chroma presence and the availability of neighbours follow from tile bounds and subsampling.",
     ["inputs", "histories"], "all tile positions, block sizes, partitions, frame edges, subsamplings and neighbouring block sizes",
     "Only frames whose size is no multiple of the superblock size, or particular partitions, show a misplaced block; no test codes a tile.",
     ["src/tile_encoder.rs", "src/block.rs", FR], [("superblock walk", "src/tile_encoder.rs: encode_tile"), ("partition search", "src/tile_encoder.rs: encode_partition"), ("block flags", "src/tile_encoder.rs: encode_block")],
     state=[("coder and table state", "saved and restored around each trial", "src/tile_encoder.rs")],
     note=VG + " Frame and tile layouts are concrete samples around the edges; trial costs, neighbour sizes and coded values stay symbolic. What a block itself codes is C24 and C11, C12.")
prop("C24", "The mode information of a block is exactly what a decoder reads for it",
     "For every block the elements coded (segment, skip flag, CDEF index once per 64x64 area, quantizer and loop filter deltas, inter flag, reference frames, mode and list index) are those the decoder "
     "reads, in its order, and decode to the block's values. What later elements depend on (segment, quantizer index and filter deltas with their coded rounding and limits, CDEF indices, references, mode) "
     "is afterwards what the decoder has. Values that a segment feature or a skipped block implies are not coded but derived as the decoder derives them.",
     ["inputs", "histories"], "all block values, segment settings, neighbours, delta resolutions and reference pairs",
     "Each element depends on many settings; a wrong condition shows only in streams with that combination, and no test codes a block.",
     ["src/tile_encoder.rs"], [("mode information", "src/tile_encoder.rs: encode_mode_info, encode_segment_id")],
     state=[("deltas, CDEF map, segment", "what later blocks are coded against", "src/tile_encoder.rs, src/encoder.rs, src/frame.rs")],
     note=VG + " The element coders themselves are C11; the list of motion vector predictions is left open, and the mode information of inter frames and of intra blocks is not written yet in this code base. "
     "Block sizes, positions, segment counts and delta resolutions are enumerated, everything else is symbolic.")
prop("C25", "Motion vectors decode to exactly the block's vectors",
     "For every block the prediction of each vector follows from the block's mode: an entry of the prediction list, the global vector, or for block copies the list or the position-dependent default. A new vector is coded "
     "as joint type, signs, classes and bits from which the decoder recovers exactly the block's vector from that prediction, at the frame's precision and with the tables of its kind. A vector that is not new "
     "equals its prediction and is not coded.",
     ["inputs"], "all modes, vectors, predictions, precisions and block positions",
     "Classes, fractions and precision interact; a wrong bit shows only for certain magnitudes, and no test codes a vector.",
     ["src/tile_encoder.rs", BC], [("vectors of a block", "src/tile_encoder.rs: encode_assign_mv, encode_mv"), ("components", "src/tile_encoder.rs: encode_mv_component")],
     state=[("prediction and vectors of the block", "what later elements and blocks are predicted from", "src/tile_encoder.rs, src/block.rs")],
     note=VG + " One component at a time is symbolic over its whole range, predictions are enumerated, and the list of predictions itself is left open. The symbols themselves are C11.")
prop("C26", "Loop restoration units are coded where and how a decoder expects them",
     "Every superblock codes exactly the restoration units that start in it, in order and for every plane that uses restoration, whatever the subsampling, upscaling and frame edges. Each unit's type and filter "
     "coefficients decode to its values relative to the plane's previous filter of that kind, and become the next reference. Nothing is coded for frames with block copies or planes without restoration.",
     ["inputs", "histories"], "all frame layouts, unit sizes, plane subsamplings, upscaling ratios, filter kinds and coefficients",
     "Unit positions depend on rounding at frame edges and coefficients on the previous unit; no test codes a unit.",
     ["src/tile_encoder.rs"], [("units of a superblock", "src/tile_encoder.rs: encode_lr"), ("one unit", "src/tile_encoder.rs: encode_lr_unit and coefficient coding")],
     state=[("reference filters per plane", "what the next unit is coded against", "src/encoder.rs")],
     note=VG + " Frame layouts are concrete samples around the edges; coefficients are symbolic against every value of their reference.")
prop("C27", "Tile groups delimit their tiles so that a decoder finds each one",
     "A tile group announces its first and last tile whenever it does not stand for the whole frame, in as many bits as the tile counts need, and is byte aligned before the first tile. It holds the data of exactly these "
     "tiles in order, each but the last preceded by its size in the announced number of bytes. The frame counts as complete exactly after its last tile.",
     ["inputs", "histories"], "all tile layouts, groups, tile sizes and size widths",
     "Only frames with several tiles show a wrong size or position; no test codes a tile group.",
     [OE, "src/tile_encoder.rs"], [("tile group", OE + ": encode_obu_payload")],
     note=VG + " Tile layouts, groups, size widths and tile lengths are enumerated; the data of the tiles stays symbolic. What a tile holds is C23 to C26.")
prop("C35", "A neighbour enters the list of vector predictions as the decoder enters it",
     "A neighbour that uses the block's reference (or both of them for compound prediction) contributes its vector, or the block's global vector where it moves with it, at the precision of the frame. "
     "The vector adds its weight to the equal entry of the list, or becomes a new entry while there is room for one; nothing else changes in the list. "
     "That a neighbour matched and how many of them carry a new vector is counted.",
     ["inputs", "histories"], "all neighbours, lists, vectors, modes, reference pairs and precisions",
     "Two lists that differ in one weight or one low bit code different predictions; no test builds a list.",
     ["src/tile_encoder.rs"], [("one neighbour", "src/tile_encoder.rs: add_ref_mv_candidate")],
     state=[("list of predictions", "what vectors of the block are coded against", "src/tile_encoder.rs")],
     note=VG + " With short lists everything about the neighbour is symbolic; with long ones the vectors are, one component at a time for compound prediction. References are a sample of all pairs.")
prop("C36", "Global vectors follow the frame's global motion",
     "The global vector of a block is zero for a reference without global motion, the shift for a translation, and for a warp the motion of the block's centre, rounded as the format defines. "
     "It is brought to the precision of the frame. Compound blocks have one for each reference.",
     ["inputs"], "all motion parameters, precisions, block sizes, positions and references",
     "Rounding of negative values and blocks that are not square are where it goes wrong; no test computes one.",
     ["src/tile_encoder.rs"], [("global vectors", "src/tile_encoder.rs: find_mv_stack")],
     note=VG + " Motion parameters are symbolic over their coded range; block sizes, positions and references are samples.")
prop("C37", "The neighbours vectors are predicted from are those a decoder visits",
     "For every block the row above, the column to the left and the block above right are visited in this order, each neighbouring block once, weighted by twice the length it shares with the block, in steps of at least 16 samples for large blocks, "
     "and only where it lies in the tile and is already coded. Entries found there rank above all later ones, and the sides with a match are counted. "
     "The context of the zero vector flag follows from whether motion of earlier frames is used.",
     ["inputs", "histories"], "all block sizes, positions, tile and frame edges and neighbourhoods",
     "Edges and unusual block shapes decide which neighbours count; no test has neighbours.",
     ["src/tile_encoder.rs"], [("scan of the neighbourhood", "src/tile_encoder.rs: find_mv_stack")],
     state=[("records of coded blocks", "the neighbours", "src/frame.rs")],
     note=VG + " Block sizes, positions, edges and neighbourhoods are samples; which neighbours match is symbolic. What a neighbour adds is C35.")
prop("C38", "Motion of earlier frames enters the list of predictions as the decoder enters it",
     "In frames that use the motion of earlier frames, the vectors passing through the sampled places of a block inside the tile (every 8 samples, every 16 along a side of 64 or more, and at most 64 samples of it) "
     "are added in order, at the precision of the frame. Each adds 2 to the weight of the equal entry or becomes a new entry of weight 2 while there is room; places that no vector (or for compound prediction not both) passes add nothing. "
     "The first place decides the context of the zero vector flag by its distance from the global vector.",
     ["inputs", "histories"], "all block sizes, positions, tile edges, motion fields, precisions and lists so far",
     "It needs several frames with motion and unusual block shapes; no test has either.",
     ["src/tile_encoder.rs"], [("motion of earlier frames", "src/tile_encoder.rs: find_mv_stack")],
     state=[("motion field", "projected vectors of earlier frames", "src/encoder.rs"), ("list of predictions", "what vectors of the block are coded against", "src/tile_encoder.rs")],
     note=VG + " Block sizes, edges and motion fields are samples in which every place shows; one vector is symbolic against lists of every length. The places below and right of the block that the format also samples are not written yet in this code base.")
EF = "static analysis: interprocedural dataflow from hidden inputs over MIR and call graph"
prop("C28", "The same command line and input always give the same output",
     "Stream, exit status and every result of the coding functions depend only on the command line, the input and what was done before with the same coder. Clock, environment variables, random numbers, "
     "process, thread, terminal, memory addresses, hash table order and state kept from other uses in the same process have no influence on them.",
     ["inputs", "histories"], "all inputs, environments, moments and earlier uses",
     "A dependence on time, environment or earlier calls stays invisible in any one test run.",
     ["src/main.rs", BC, "src/util.rs", OE, "src/tile_encoder.rs"], [("whole program and library", "src/: all functions")],
     note="Decided by a flow-insensitive, field-sensitive forward dataflow over the MIR of all functions; sources and sinks are listed in analysis/rules_effects.py. Messages on standard error are not part of the "
     "statement. Threads, other programs, other files and unknown crates make it undecided.", tech=EF)
prop("C29", "Every memory access is checked; a wrong position stops the program",
     "No access of the encoder or the library reads or writes memory outside the value it names or memory that was never initialised, whatever the input: an index, slice or value out of range ends the program with a "
     "panic. Nothing in the code base opts out of these checks.",
     ["inputs"], "all inputs and all accesses",
     "An unchecked access works in every test whose position happens to be in range.",
     ["src/main.rs", BC, "src/util.rs", OE, "src/tile_encoder.rs"], [("whole program and library", "src/: all functions")],
     note="Decided on the compiler's syntax tree after macro expansion: any unsafe block, unsafe function, foreign function or assembly in the crate is reported. Trusts the standard library and the dependencies.",
     tech="static analysis: query over the compiler's expanded syntax tree for operations exempt from the language's checks")
NOSRC = "not decidable by this family here: "
prop("C30", "A whole coded symbol sequence decodes to the same sequence",
     "For every sequence of symbols and tables, decoding the bits that encoding produced, from start to end of the segment, yields the same symbols.",
     ["inputs", "histories"], "all symbol sequences of any length", "Tests code a few sequences.",
     [BC], [("arithmetic coder", BC + ": encode_symbol, decode_symbol, init and exit")],
     na=NOSRC + "the statement is an induction over unbounded sequences relating an unbounded output to the decoder's window; value graphs decide the step (C02, C03) and both ends (C04) but not the invariant that joins them")
prop("C31", "The produced stream is accepted by any conforming decoder",
     "Every stream the program writes for any input video is a valid AV1 bitstream that a conforming decoder decodes to the end.",
     ["inputs"], "all input videos and settings", "Tests never produce a stream.",
     ["src/main.rs", OE], [("program", "src/main.rs: main")],
     na="the program writes only the sequence header so far; frames and tiles are not connected to it, so there is no stream to decide about. The parts that exist are C13 to C18 and C23 to C27")
prop("C32", "Partition choices minimise the coding cost",
     "Among the partitions tried for a block, the one with the lowest cost of rate and distortion is chosen, and the stream is no larger than with any other choice tried.",
     ["inputs"], "all blocks", "Tests never choose a partition.",
     ["src/tile_encoder.rs"], [("partition search", "src/tile_encoder.rs: encode_partition")],
     na="the cost function of a block is a placeholder in this code base; that the cheapest trial's output is kept is part of C23")
prop("C33", "The list of motion vector predictions is the decoder's",
     "For every block the ordered list of predicted vectors with their weights and contexts equals the list a decoder derives from the same neighbours and earlier frames.",
     ["inputs", "histories"], "all neighbourhoods and motion fields", "Tests never code an inter block.",
     ["src/tile_encoder.rs"], [("prediction list", "src/tile_encoder.rs: find_mv_stack and helpers")],
     na="the derivation is unfinished (farther scans, samples of earlier motion outside the block, the extra search, sorting and the contexts are missing, as is the projection of earlier motion); there is no whole list to hold it to yet. The finished parts are C35 to C38, and C25 leaves the list open")
prop("C34", "Encoding time and memory grow linearly with the input",
     "Time per frame is bounded by the number of its samples and memory by a constant number of frames.",
     ["inputs"], "all frame sizes and frame counts", "Tests run on tiny data.",
     ["src/main.rs"], [("frame loop", "src/main.rs: main")],
     na=NOSRC + "time and peak memory are quantities of a run; no static bound in reach is tight enough to be useful")
