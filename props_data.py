NOTES = ("rustc's MIR (nightly) of the source in /repo is the program that is built; "
         "library routines listed in driver/src/natives.rs behave as modelled; "
         "stable tests, build files and dependencies are not analysed")

SYM = ["src/decode/qr/blocks.rs", "src/decode/qr/decoder.rs", "src/decode/qr/mod.rs"]

prop("C12", "Block structure matches the standard for every version and level",
     "For every version 1 to 40 and every error correction level, a symbol is split into exactly the blocks of ISO/IEC 18004 (number of blocks, total and data codewords of each): precisely the standard's data codewords reach the payload, and an intact symbol is accepted. The parity checks a block has to meet are syndromes of that block as the standard defines it, never of any other set of codewords.",
     ["inputs", "configurations"], "all 160 combinations of version and level, all module values",
     "The image tests use a handful of versions and levels; a wrong entry in the other combinations of the table is not executed by any test.",
     SYM + ["src/decode/qr/correct.rs"],
     [("table of block structures", "block_info in src/decode/qr/mod.rs"), ("collection of codewords into blocks", "Codewords in src/decode/qr/blocks.rs"), ("syndromes", "calculate_syndromes in src/decode/qr/correct.rs")],
     "abstract interpretation of the decoder's MIR with every module a symbolic bit; GF(256)-linear forms of the syndromes compared with the standard's table", "other",
     AI + "Decides the claim for all module values of each of the 160 combinations on the path where every compared syndrome is zero; the standard's tables are restated independently in driver/src/iso.rs.")

prop("C13", "Every payload byte is read from the standard's module positions",
     "For every version, each codeword handed to the payload consists of exactly the eight modules that the zigzag placement of the standard assigns to it, most significant bit first. Modules of function patterns, format and version information are never read as data.",
     ["inputs", "configurations"], "all versions 1 to 40, all module values",
     "Tests run a few versions end to end; an error in the placement for other versions, or one that error correction repairs, stays invisible.",
     ["src/decode/qr/blocks.rs"],
     [("zigzag walk", "blocks in src/decode/qr/blocks.rs"), ("function pattern exclusion", "is_data and alignment_location in src/decode/qr/blocks.rs")],
     "abstract interpretation of the decoder's MIR: provenance of every payload bit compared with the standard's placement", "other",
     AI + "Every version is analysed with all modules symbolic, so the provenance of each bit is exact.")

prop("C14", "Each of the eight data masks is undone exactly",
     "A data module reaches the payload inverted exactly where the mask pattern named in the format information is set at its row and column, for all eight patterns.",
     ["inputs", "configurations"], "all eight masks, all module positions and values of the analysed versions (up to 40)",
     "Tests use the masks that happen to occur in the sample images; wrong masks elsewhere, or only at large coordinates, are not executed.",
     ["src/decode/qr/format.rs", "src/decode/qr/blocks.rs"],
     [("mask closures", "mask and qrmask in src/decode/qr/format.rs")],
     "abstract interpretation of the decoder's MIR: polarity of every payload bit compared with the mask formula", "other",
     AI + "All positions of the analysed versions are compared for each mask; versions 1, 2, 5, 7, 14, 25 and 40 in the quick run, all in the thorough run.")

prop("C22", "Data codewords reach the payload in de-interleaved order",
     "The bytes handed to the payload are the data codewords of block 1, block 2 and so on in the order of the standard, each in its position, with no error correction codeword among them.",
     ["inputs", "configurations"], "all 160 combinations of version and level, all module values",
     "Only symbols with several blocks of different length show mistakes here; the tests contain very few of them.",
     SYM, [("round-robin distribution", "Codewords::blocks in src/decode/qr/blocks.rs"), ("concatenation", "decode in src/decode/qr/decoder.rs")],
     "abstract interpretation of the decoder's MIR: provenance of every payload byte compared with the standard's interleaving", "other",
     AI + "Exact for every analysed combination; symbolic modules, path without errors.")

prop("C24", "Side length and module access of symbol data",
     "Symbol data built for version v has a side of 4v+17 modules, keeps its pixels and version unchanged, and the module at column x, row y is 1 exactly when the pixel at index y*side+x is 0.",
     ["inputs", "configurations"], "all pixel values and positions of every version 1 to 40",
     "Tests never index symbol data directly and only see symmetric or error-corrected results.",
     ["src/util/qr.rs"], [("constructor", "QRData::new in src/util/qr.rs"), ("index", "Index for QRData in src/util/qr.rs")],
     "abstract interpretation of constructor and index operation over symbolic pixels and coordinates", "other",
     AI)

prop("C15", "Format information: fallback, correction and refusal",
     "Level and mask are those of the first copy of the format information if it can be corrected, else of the second copy, else decoding fails. A copy within distance three of a valid format word is read as that word, and any other copy is refused.",
     ["inputs", "configurations"], "both copies, all 32 format words, all 32768 words per copy",
     "Unit tests try one intact, one fixable and one corrupt word; the second copy and the other words are never exercised.",
     ["src/decode/qr/format.rs", "src/decode/qr/galois.rs"],
     [("positions", "format1 and format2 in src/decode/qr/format.rs"), ("correction", "correct and syndromes in src/decode/qr/format.rs")],
     "abstract interpretation of the decoder's MIR with constant format modules and symbolic remaining modules", "other",
     AI)

prop("C06", "One outcome per located code, in order, failures isolated",
     "Decoding returns exactly one outcome per location the detector returned, in the detector's order; a failure of one location's extraction or decoding appears as an error at that location's place, carrying the component's error, and does not change, drop or reorder the outcomes of the others. No locations give an empty list.",
     ["inputs", "histories"], "any prepare, detect, extract and decode component; all patterns of failures of up to three locations, the listed ones of four, and any number of locations for the count",
     "Tests decode one image with several codes that all succeed; orders, failure patterns and custom components are open-ended.",
     ["src/decoder.rs"], [("pipeline loop", "Decoder::decode in src/decoder.rs")],
     "abstract interpretation of the pipeline's MIR around opaque components: provenance of each outcome; loop invariant for the number of outcomes", "other",
     AI + "Components are opaque calls with symbolic results, so the conclusion holds for every implementation that returns.")

prop("C07", "Components receive exactly what their predecessors produced",
     "Per decode call the preparation sees the caller's image once, the detector sees the prepared image once, every location is extracted exactly once from that same prepared image, and every extraction result, success or error, is handed to the decoder exactly once and unchanged.",
     ["inputs", "histories"], "any components, up to four locations with the listed failure patterns",
     "Tests only see the final strings of the default components; duplicated calls or a changed argument mostly produce the same strings.",
     ["src/decoder.rs"], [("pipeline loop", "Decoder::decode in src/decoder.rs")],
     "abstract interpretation of the pipeline's MIR around opaque components: effect trace of component calls with argument provenance", "other",
     AI + "Order of calls among locations is left open.")

prop("C09", "Builder: required components, last configured wins, documented defaults",
     "A decoder can be built exactly when prepare, detect and qr components have been configured (build panics otherwise), it uses the components configured last, and the default builders use BlockedMean::new(5, 7), LineScan, QRExtractor and QRDecoder or QRDecoderWithInfo, of which customising replaces exactly the named ones.",
     ["inputs", "histories"], "all sequences of up to four builder calls; both default builders with every subset of components replaced",
     "Tests use the default builders only and never build incomplete or reconfigured ones.",
     ["src/decoder.rs"], [("builder", "DecoderBuilder in src/decoder.rs"), ("defaults", "default_builder and default_builder_with_info in src/decoder.rs")],
     "abstract interpretation of the builder's MIR: typestate of configured components over call sequences, identity of the components a built decoder calls", "other",
     AI)

DMG = ["src/decode/qr/correct.rs", "src/decode/qr/galois.rs", "src/decode/qr/decoder.rs"]

prop("C10", "The two decoders agree",
     "QRDecoder and QRDecoderWithInfo, given the same symbol data or extraction error, either both succeed with the same text or both fail with the same error.",
     ["inputs", "configurations"], "all module values of every version; the listed error patterns; unreadable format information, unknown versions, extraction errors; kinds of outcome under arbitrary damage",
     "The tests compare both decoders on a dozen undamaged images only.",
     ["src/decode/qr/decoder.rs"], [("plain decoder", "QRDecoder in src/decode/qr/decoder.rs"), ("decoder with information", "QRDecoderWithInfo in src/decode/qr/decoder.rs")],
     "relational abstract interpretation: the terms both decoders hand to the payload decoder and return are compared", "other",
     AI + "With the payload bytes of both compared for all module values, the payload itself is replaced by one fixed text to compare the remaining code.")

prop("C11", "QRInfo reports the truth",
     "The reported information has the symbol's version, the error correction level of its format information, eight times the number of its data codewords as total_data, and as errors the number of bits that differ between the received and the corrected codewords (zero for an intact symbol).",
     ["inputs", "configurations"], "all payloads; all 160 combinations of version and level without damage, the generated error patterns with damage",
     "Tests assert the numbers of five images; miscounts in other versions, levels or error patterns stay unnoticed.",
     ["src/decode/qr/decoder.rs", "src/decode/qr/correct.rs"], [("assembly", "QRDecoderWithInfo::decode in src/decode/qr/decoder.rs"), ("count", "correct_with_error_count in src/decode/qr/correct.rs")],
     "abstract interpretation of the decoder's MIR over all code words of the standard plus one error pattern each", "other",
     AI + "Payloads are symbolic and only constrained by the standard's parity checks; error patterns are enumerated from a seed, so the damaged part is bounded.")

prop("C16", "Arithmetic of the two Galois fields",
     "Addition, subtraction, multiplication and division of the decoder's field elements are those of GF(256) with polynomial 0x11D and GF(16) with polynomial 0x13, for every pair of operands with a nonzero divisor.",
     ["inputs"], "all 65536 and 256 operand pairs of each operation",
     "Unit tests try a dozen pairs; one wrong table entry damages only symbols with particular errors.",
     ["src/decode/qr/galois.rs"], [("operators", "GF8 and GF4 in src/decode/qr/galois.rs"), ("tables", "EXP8, LOG8, EXP4, LOG4 in src/decode/qr/galois.rs")],
     "abstract interpretation of each operator over two unknown bytes; the resulting term is compared with the field operation on its whole domain", "other",
     AI + "Decides the claim completely.")

prop("C17", "Nothing but parity-checked words reaches the payload decoder",
     "Whatever the modules of a symbol are, the bytes handed to the payload decoder belong, block by block, to words of which all 2t syndromes (t the standard's correction capacity) are zero. A block that cannot be corrected to such a word is an error, never wrong data.",
     ["inputs", "configurations"], "all module values; arbitrary damage for versions 1 to 5, the accepting path without correction for all 160 combinations",
     "Tests never present damage beyond the correction capacity, where a decoder has to refuse instead of guessing.",
     DMG, [("final check", "correct_with_error_count in src/decode/qr/correct.rs"), ("syndromes", "calculate_syndromes in src/decode/qr/correct.rs")],
     "abstract interpretation with widening over all error patterns: dominance of syndrome comparisons, as linear facts on the returned bytes", "other",
     AI + "The correction itself is approximated; the facts required hold on every path to the payload decoder.")

prop("C26", "Damage within the correction capacity is repaired",
     "A symbol that differs from a valid one in at most t codewords of each block, t the standard's correction capacity, yields exactly the undamaged data codewords.",
     ["inputs", "configurations"], "all payloads; any single damaged codeword of version 1 with a sampled error value, generated patterns up to full capacity (a third of them with a zero first syndrome) in twelve further configurations",
     "Tests contain two slightly damaged images; the solvers for error places and values meet most patterns only by chance.",
     DMG, [("error locations", "find_locs in src/decode/qr/correct.rs"), ("error values", "calculate_distances and solve in src/decode/qr/correct.rs")],
     "abstract interpretation of the decoder's MIR over all code words of the standard plus one error pattern each", "other",
     AI + "Payloads are symbolic, error patterns enumerated from a seed: the quantifier over patterns is bounded, the one over payloads is not.")

prop("C19", "The bit reader returns the payload bits in order",
     "For any sequence of requests, the bit reader over the corrected bytes returns the next bits of the payload, most significant first, as a number of the requested width (1 to 8 bits, or 1 to 16 for the wide form); other widths and requests beyond the end are refused, and a refused request of the narrow forms consumes nothing.",
     ["inputs", "histories"], "all contents of payloads up to five bytes with every reachable reader state and every request, long payloads read sequentially with several widths",
     "Unit tests call it on two fixed byte strings; reads that cross byte borders at other offsets are met only by some payloads.",
     ["src/util/chomp.rs"], [("reader", "Chomp in src/util/chomp.rs")],
     "abstract interpretation of the reader's MIR over symbolic contents, all states closed under all requests", "other",
     AI + "The reader state is explored to a fixed point for short payloads; contents are never enumerated.")

prop("C18", "Payload segments decode to the encoded text",
     "The payload decoder reads segments of the standard's numeric, alphanumeric and byte modes, with character counts of the width the version demands, and concatenates their text: digit groups keep their leading zeros, alphanumeric values map to the standard's 45 characters, bytes are ISO 8859-1 unless one of them is 0xC3, in which case the segment is UTF-8. A terminator, or fewer than four remaining bits, ends the payload and whatever follows is ignored. Other modes, values outside of their range, invalid UTF-8 and payloads that end within a segment are errors.",
     ["inputs", "configurations"], "every content of each kind of digit, character and byte group, mode indicators, counts up to the largest of each version class, truncations and sequences of segments, for all 40 versions",
     "Tests decode a handful of texts; leading zeros, count widths of other versions, odd lengths and mixed segments are met only by chance.",
     ["src/decode/qr/data.rs", "src/util/chomp.rs"],
     [("segments", "data, numeric, alphanumeric and eight_bit in src/decode/qr/data.rs"), ("reader", "Chomp in src/util/chomp.rs")],
     "abstract interpretation of the payload decoder's MIR over bit streams with unknown bits; the resulting text terms are compared with an independent reading of the stream for every value of these bits", "other",
     AI + "Streams combine constant and unknown groups; within a stream the unknown bits are decided completely, the set of stream shapes is bounded.")

prop("C23", "Extraction samples every module of a located symbol",
     "Given the location of a symbol that lies in the prepared image, extraction returns the 4v+17 squared modules of version v, row by row from the top left finder pattern, each with the colour of that module in the image, whatever the rotation, mirroring and module size, and also when the bottom right alignment pattern is displaced by up to one module. Unknown versions and symbols whose alignment pattern is missing are errors; symbols reaching beyond the image never end abnormally and never shift the other modules.",
     ["inputs", "configurations"], "all module colours; the listed geometries (versions 1 to 40 upright, six versions in eleven rotations, mirrored, stretched, with displaced alignment pattern or partly outside)",
     "Tests extract a few photographs and let error correction hide wrong modules; the colour of a single module is never compared.",
     ["src/extract/qr/mod.rs"], [("sampling", "QRExtractor::extract in src/extract/qr/mod.rs"), ("perspective", "determine_perspective and is_alignment in src/extract/qr/mod.rs")],
     "abstract interpretation of the extractor's MIR over drawn symbols of constant geometry whose modules are unknown: provenance of each extracted module", "other",
     AI + "Exact in the module colours; the geometry is enumerated, so rotations, sizes and displacements between the listed ones are not covered.")

prop("C25", "Arithmetic of points and differences is component-wise",
     "Adding or subtracting points and differences, and scaling a difference by a number from either side or dividing it, applies that operation to the x components and to the y components separately, for all coordinates.",
     ["inputs"], "all coordinates and factors",
     "No test uses the operators directly; a swapped component cancels out in symmetric images.",
     ["src/util/point.rs"], [("operators", "Add, Sub, Mul and Div for Point and Delta in src/util/point.rs")],
     "abstract interpretation of each operator over unknown floats; the resulting terms are compared literally with the expected ones", "other",
     AI + "A term written differently is compared on sample values only: it alarms if they differ and counts as undecided otherwise.")

prop("C20", "The prepared image is black and white by local mean",
     "Preparing a grey image gives an image of the same width and height whose pixels are only 0 or 255. A pixel is white exactly when it is strictly brighter than its block's threshold. The threshold is the plain mean of the grey values of a rectangle of whole blocks around that block, as far as it lies in the image and reaching at most half the mean size; a block whose mean is above 250 is white and one below 5 is black altogether.",
     ["inputs", "configurations"], "all grey values of the enumerated image sizes (multiples of the block size, one more, one less, wide, tall and tiny)",
     "The unit tests compare a few prepared photographs as a whole; a mean over slightly wrong pixels at an edge, or a comparison that is not strict, leaves them unchanged.",
     ["src/prepare/blockedmean.rs"], [("block means", "as_block_mean_map in src/prepare/blockedmean.rs"), ("means of blocks", "to_threshold in src/prepare/blockedmean.rs"), ("thresholding", "to_threshold_image or prepare in src/prepare/blockedmean.rs")],
     "abstract interpretation of the preparation's MIR over images of constant size whose grey values are unknown: the threshold term of every block compared with the means the rule allows, the comparison by its truth table", "other",
     AI + "Exact in the grey values; image sizes are enumerated.")

prop("C21", "Three finder centres are located as the symbol they span",
     "Three finder patterns at the corners of a right isosceles triangle are located as a symbol: the right-angled corner is its top left, the others its top right and bottom left such that the symbol is not mirrored; the version is the one whose side length is nearest to the measured one, never below 1; the three points are exactly the given ones. A triangle whose sides differ by 30 percent or more, whose angle is more than 28 degrees off, or that is too small for a symbol, is not located.",
     ["inputs"], "the paths of the judgement over all centres and module sizes, their outcome compared on 6655 triangles",
     "The tests use a few upright symbols; other orientations, orders of the patterns and module sizes do not occur.",
     ["src/detect/linescan.rs"], [("judgement", "find_qr and find_qr_internal in src/detect/linescan.rs")],
     "abstract interpretation of the function judging three points: its decision table over float terms is extracted from the MIR and compared with the geometric rule", "other",
     AI + "The decision table is complete for all inputs; agreement with the rule is evaluated on a grid of triangles (rotations, sizes, orders, distortions), so deviations confined to single points between them are not covered.")

prop("C01", "Decoding never ends abnormally",
     "Decoding the modules of a symbol with the QR decoder (with or without information) returns a text or an error, whatever the modules: any amount and any pattern of damage within and beyond the correction capacity (damage that looks like an error outside of the block included), any format information, any bytes in the payload (also ones that are no valid segments, that end in the middle of a segment, or that promise more characters than there are), and symbol data of versions the standard does not have. It never panics and never fails to return.",
     ["inputs"], "all payloads for each enumerated error pattern; all format words for each class of format errors; every payload of at most 3 bytes for every version",
     "Malformed payloads and damage beyond the capacity are a hostile space of 2^152 payloads and more error patterns for the smallest symbol alone; tests decode a handful of proper symbols.",
     ["src/decode/qr/decoder.rs", "src/decode/qr/correct.rs", "src/decode/qr/format.rs", "src/decode/qr/data.rs", "src/util/chomp.rs"], [("decoders", "QRDecoder and QRDecoderWithInfo in src/decode/qr/decoder.rs"), ("correction", "correct and its helpers in src/decode/qr/correct.rs"), ("payload", "data and the segment decoders in src/decode/qr/data.rs")],
     "abstract interpretation of the decoder's MIR over symbolic modules: every reachable assertion, index, shift and arithmetic overflow is an obligation, shown by constant propagation over GF(2) terms, intervals and path conditions", "other",
     AI + "Complete in the payload for each enumerated error pattern and in payloads of at most three bytes; error patterns and longer payload shapes are enumerated. Obligations of payloads of any length that only hold relationally are listed as not decided.")
prop("C02", "The image stages never end abnormally",
     "Preparing an image of any size with block and mean sizes of at least one, detecting symbols in any prepared image, and extracting a symbol at any location of any image return normally: no index lies outside of an image or a buffer, no subtraction goes below zero, nothing divides by zero, and no version outside of 1 to 40 is used. Images without pixels, narrower than a module, or ending in the middle of a pattern are no exception. (The counters of pixels may overflow only in images with more than 4 billion pixels; this is not decided.)",
     ["inputs", "configurations"], "all pixel values of the enumerated image sizes, all pixel values at the enumerated locations (inside, across and outside of the image, three orientations)",
     "An access one pixel outside needs a pattern that touches a particular edge of an image that is not square; the test images have margins.",
     ["src/prepare/blockedmean.rs", "src/detect/linescan.rs", "src/extract/qr/mod.rs"], [("preparation", "BlockedMean::prepare in src/prepare/blockedmean.rs"), ("detection", "LineScan::detect, refine and find_qr_internal in src/detect/linescan.rs"), ("extraction", "QRExtractor::extract, determine_perspective and is_alignment in src/extract/qr/mod.rs")],
     "abstract interpretation of the image stages' MIR: every reachable assertion, index and pixel access is an obligation, discharged by interval, difference and float bounds; what is not discharged is propagated from constant images", "other",
     AI + "Complete in the pixel values; image sizes and locations are enumerated. An obligation that is neither discharged nor shown to fail is undecided.")
prop("C04", "Nothing but the input decides the outcome",
     "Every stage's outcome (prepared pixels, locations, modules, text, information, errors) is decided by its input, its settings and the image alone. No state that outlives a call (statics, thread locals, caches inside of a component) decides about or becomes part of an outcome, nor does the clock, randomness, the environment, files, threads, addresses, or the order of a hash table. So decoding the same image again, after any other images, in any other component or thread, gives the same. (Tables computed once from nothing, and state that is only logged, are allowed.)",
     ["histories", "schedules"], "all sequences of calls before a call, all interleavings with other threads, all environments; default features",
     "A dependence on earlier calls needs a particular history, one on hash order or the clock is different from run to run; a test sees one history.",
     ["src/decoder.rs", "src/prepare/blockedmean.rs", "src/detect/linescan.rs", "src/extract/qr/mod.rs", "src/decode/qr"], [("entry", "Decoder::decode in src/decoder.rs"), ("components", "BlockedMean, LineScan, QRExtractor, QRDecoder and QRDecoderWithInfo and all they call")],
     "interprocedural taint analysis over the MIR of every function of the crate that the public entry points reach: reads of mutable statics, thread locals, interior-mutable fields of components, clock, randomness, environment, files, threads, addresses and hash-table order are sources; decisions, assertions and results are sinks", "other",
     "A dataflow analysis of the compiler's MIR with function summaries; flow-insensitive within a function. Calls into other crates pass what they are given to their result, except for logging. Sums and tests over a hash table's elements, and its elements after sorting, count as free of its order.")
prop("C05", "Logging and debug images change no outcome",
     "Whether messages are logged or not, and whether the crate is built with its feature debug-images or not (and whether the debug images can be stored or not), preparation, detection, extraction and decoding have the outcomes stated for them: the same prepared pixels, locations, modules, payload bytes, texts, information and errors. Neither the arguments of messages nor the drawing of debug images panics, alters a value the program goes on with, or decides about it.",
     ["configurations", "inputs"], "logging off and on, feature debug-images off and on, any outcome of the file system; all pixel values, module values and payloads of the enumerated images and symbols",
     "The tests run without a logger and without the feature; a side effect in a message or an error of the drawing code shows up only in other configurations.",
     ["src/detect/linescan.rs", "src/extract/qr/mod.rs", "src/decode/qr/decoder.rs", "src/decode/qr/data.rs"], [("messages", "debug! and trace! in src/detect, src/extract and src/decode"), ("drawings", "blocks under cfg(feature = \"debug-images\") in src/detect/linescan.rs and src/extract/qr/mod.rs")],
     "abstract interpretation of the MIR of both builds, with logging off and on, and with file operations of unknown outcome; the results are compared with the independent tables and formulas of the other properties, and every pixel drawn is a bounds obligation", "other",
     AI + "Complete in the values; images, places and symbols are enumerated (small versions). The drawings themselves are not judged. Undecided places are propagated from constant images.")
prop("C08", "An extraction error is passed on as it is",
     "Both QR decoders, given the error of a failed extraction instead of symbol data, return exactly that error, whatever its message.",
     ["inputs"], "any message (and a list of particular ones)",
     "The error path between extraction and decoding is one line that no unit test exercises, for an unbounded set of messages.",
     ["src/decode/qr/decoder.rs", "src/decode/mod.rs"], [("decoders", "Decode::decode of QRDecoder and QRDecoderWithInfo in src/decode/qr/decoder.rs"), ("contract", "documentation of Decode in src/decode/mod.rs")],
     "abstract interpretation of both decoders' MIR on an error with an unknown message: every way out has to return the identical value", "other",
     AI + "Complete for unknown messages.")
prop("C27", "No input can corrupt memory",
     "The crate contains no unsafe code, with and without its feature debug-images: whatever the image, the prepared image, the location or the symbol data, a wrong index or length can only end in a panic, never in an access outside of a buffer, and no safe caller can cause undefined behaviour through this crate.",
     ["inputs", "configurations"], "all inputs of all functions (reached or not), default features and feature debug-images",
     "An unchecked access goes wrong only for the index that is out of range, and then often without any visible failure in a test.",
     ["src"], [("crate", "every function in src; the crate root is src/lib.rs")],
     "the crate is compiled with unsafe code forbidden: the compiler's type and effect rules then decide memory safety; each unsafe block, function, implementation or attribute is reported", "other",
     "Trusts the compiler, the standard library and the crates used; soundness of those is not analysed.")
na("C03", "Every call returns in time bounded by the size of its input",
   "Preparation, detection and extraction take time bounded by a fixed multiple of the number of pixels (and of pairs of finder patterns), decoding by a multiple of the number of modules.",
   ["inputs"], "all images and symbols",
   "Time on a hostile image is unrelated to time on the test images.",
   ["src/prepare/blockedmean.rs", "src/detect/linescan.rs", "src/extract/qr/mod.rs", "src/decode/qr"], [("search", "LineScan::detect, determine_perspective")],
   "The number of candidates, triples and scans depends on pixel values; a bound on it needs a potential argument over the contents of the image (how many finder patterns fit into it), which no dataflow or effect analysis here can carry. That calls return at all (on the enumerated images, symbols and payloads) is part of C01 and C02.")
na("C28", "Symbols in photographs are found and read",
   "A symbol that a person can read in a photograph (any rotation, moderate perspective, uneven light, noise) is found, sampled and decoded.",
   ["inputs"], "all photographs with a legible symbol",
   "The tests contain a few photographs.",
   ["src/prepare/blockedmean.rs", "src/detect/linescan.rs", "src/extract/qr/mod.rs"], [("detection", "LineScan::detect and refine"), ("perspective", "determine_perspective and is_alignment")],
   "Whether a scan line meets a finder pattern in the ratio 1:1:3:1:1 within tolerances is a question about unbounded geometry and pixel values; no sound static bound exists and the statement has no exact meaning. Decided instead: the formulas (C20, C21, C23) and that nothing goes wrong on any pixels (C02).")
na("C29", "Text comes out in the encoding the writer used",
   "Bytes of a byte segment are turned into the characters the writer of the symbol meant (ISO 8859-1, UTF-8, Shift JIS, with or without ECI designators).",
   ["inputs"], "all byte segments",
   "The tests have two texts.",
   ["src/decode/qr/data.rs"], [("bytes", "eight_bit in src/decode/qr/data.rs")],
   "The encoding is not part of the symbol without an ECI designator, so that the source holds nothing to decide it against. Decided instead: the rule the library documents by its code (bytes with 0xC3 are UTF-8, all others ISO 8859-1) for every byte value in C18.")
na("C30", "Debug images show what was detected and sampled",
   "With the feature debug-images, the stored images mark candidates, located symbols and sampled modules where they are.",
   ["inputs", "configurations"], "all images",
   "The tests run without the feature.",
   ["src/detect/linescan.rs", "src/extract/qr/mod.rs"], [("drawings", "blocks under cfg(feature = \"debug-images\")")],
   "What is drawn is for people to look at and has no specification. Decided instead: the drawing cannot go out of bounds nor change an outcome (C05).")
