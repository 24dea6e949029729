#!/usr/bin/env python3
"""Source of properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})
D, PA, HU, LO, ID, UP, MA, AR, WO = ("src/decoder.rs", "src/parser.rs", "src/huffman.rs", "src/decoder/lossless.rs",
    "src/idct.rs", "src/upsampler.rs", "src/marker.rs", "src/arch", "src/worker")
p("C01", "No arithmetic overflow on any input",
  "Whatever bytes a stream contains and whatever API calls are made, header parsing, entropy decoding and size computations never overflow an integer, shift by too much, or divide by zero: a build with overflow checks does not abort and a build without them does not wrap.",
  ["inputs", "histories"], "every byte stream, every order of public calls",
  "The reference tests decode a fixed set of files; overflow needs extreme dimensions, sampling factors, counts or code values.",
  [D, PA, HU, LO, ID, UP], [("range checks on header fields before use", PA), ("wrapping arithmetic where files can overflow it", "src/idct.rs, decode_block"), ("widening casts before multiplication", "src/parser.rs update_component_sizes")])
p("C02", "No panic or failed assertion on any input",
  "Whatever bytes a stream contains and whatever API calls are made, the library never panics through a failed assertion, an unwrap/expect of an absent value, or an explicit panic or unreachable: malformed input is reported as an Err.",
  ["inputs", "histories"], "every byte stream, every order of public calls",
  "Crash tests only replay known crashing files.",
  [D, PA, HU, LO, UP, WO], [("validation before unwrap", "decode_internal, decode_scan, decode_planes"), ("marker validation before match", "parse_sof")])
p("C03", "Fixed-size tables are never indexed out of range",
  "Every access to a fixed-size table with an index taken from the stream (quantisation and Huffman table slots, component slots, zigzag positions, coefficient blocks, lookup tables) is in range for every stream.",
  ["inputs"], "every byte stream", "Tests sample few index values; an out-of-range index needs a hostile header or code.",
  [D, PA, HU, LO], [("destination identifier checks", "parse_dqt, parse_dht, parse_sos, parse_sof"), ("spectral selection bound", "parse_sos, decode_block"), ("masking of lookup indices", "HuffmanDecoder::peek_bits")])
p("C04", "Frame headers are fully validated",
  "A frame header is accepted only if its length matches its component count, its precision is legal for the coding process, width is nonzero, component identifiers are distinct, sampling factors are 1 to 4 and the quantisation selector is 0 to 3 (0 for lossless); anything else makes read_info and decode return an error, and every header satisfying this with 1, 3 or 4 components, a supported process and integer subsampling ratios is accepted with exactly the dimensions and process it states.",
  ["inputs"], "every frame header", "Tests contain valid files and a few fuzz crashes; each validity rule has many violating headers.",
  [PA, D], [("parse_sof", PA), ("post-parse feature checks", "decode_internal")], ["Decoder::read_info", "Decoder::info"])
p("C05", "Scan headers are fully validated",
  "A scan header is accepted only if its length matches its component count (1 to 4), its components exist in the frame, are distinct and in frame order, its table selectors are legal for the process (0 or 1 in baseline, at most 3 otherwise), a multi-component scan has at most 10 blocks per MCU, and the spectral selection, successive approximation, predictor and point transform are legal for the coding process; anything else makes decode return an error before any entropy-coded data is consumed.",
  ["inputs"], "every scan header following every valid frame header", "Tests contain valid scans and few invalid ones.",
  [PA], [("parse_sos", PA)], ["Decoder::decode"])
p("C06", "Unsupported features are reported as such",
  "Streams using hierarchical coding, arithmetic coding, unsupported precision, unsupported component counts, deferred height (DNL) or non-integer subsampling make read_info and decode return an Unsupported error naming that feature, and are never decoded.",
  ["inputs"], "every stream using such a feature", "No test holds a file for most of these features.",
  [D, PA, UP], [("feature checks", "decode_internal"), ("choose_upsampler", UP)], ["Decoder::read_info", "Decoder::decode"])
p("C07", "Table definition segments are fully validated",
  "A quantisation, Huffman or restart-interval segment is accepted only if its length agrees with its content, every table class, precision and destination is legal (Huffman destination 0 or 1 once a baseline frame has been seen), no quantiser is zero, and the Huffman code lengths describe a non-empty, at most 256-entry prefix code that fits its code space; otherwise decode and read_info return an error, and every valid segment is accepted.",
  ["inputs"], "every DQT, DHT and DRI segment", "Tests use the tables real encoders emit.",
  [PA, HU], [("parse_dqt, parse_dht, parse_dri", PA), ("derive_huffman_codes", HU)])
p("C08", "Reader errors always surface",
  "If the underlying reader fails, or ends early, during a call, that call returns that I/O error (Error::Io): a reader failure is never swallowed, turned into success, or replaced by a different kind of error.",
  ["fault_sequences", "inputs"], "every position at which the reader can fail or end", "No test uses a failing reader.",
  [D, PA, HU, LO, "src/lib.rs"], [("? propagation of every read", "all readers"), ("short copy check", "skip_bytes")])
p("C09", "Results do not depend on how the reader chunks data",
  "The library consumes its reader only through operations that obtain exactly the requested bytes, retrying short and interrupted reads; how many bytes each read call delivers never influences a result.",
  ["schedules", "inputs"], "every split of the byte stream into read results", "Tests read from memory slices and files which always fill the buffer.",
  [D, PA, HU, "src/lib.rs"], [("read_exact and io::copy only", "read_u8, read_u16_from_be, skip_bytes")])
p("C10", "Every marker segment consumes exactly its declared length",
  "Reading any marker segment (application data, comment, tables, restart interval, frame and scan headers) consumes exactly the number of bytes its length field declares, for every length and whatever its content, so the next marker is always looked for at the byte right after the segment; a declared length below 2 is an error.",
  ["inputs"], "every marker segment, every declared length", "Tests exercise common lengths only.",
  [PA], [("read_length, skip_bytes, bytes_read accounting", PA)])
p("C11", "Nothing is read past the end-of-image or a pending marker",
  "read_info consumes nothing after the frame header, decode consumes nothing after the end-of-image marker, and entropy decoding never reads beyond the marker that ends a scan.",
  ["inputs"], "every stream, including trailing data", "Tests decode buffers that end with the image.",
  [D, HU], [("stop after SOF", "decode_internal"), ("pending marker stops refill", "HuffmanDecoder::read_bits")])
p("C12", "Restart markers are verified and reset the entropy state",
  "With a restart interval n, after every n MCUs except at the end of the scan a restart marker must follow with the expected modulo-8 number, otherwise decode returns an error; at each restart the bit buffer, DC predictions and end-of-band run are cleared before the next MCU, and the prediction of lossless samples starts anew.",
  ["inputs"], "every restart interval and scan", "Few test images use restart intervals, none with wrong numbering.",
  [D, HU, LO], [("restart handling in scan loops", "decode_scan, decode_scan_lossless")])
p("C13", "The decoding buffer limit bounds the output",
  "decode never returns (and never begins to build) an output buffer larger than the limit set with set_max_decoding_buffer_size; it returns a Format error instead, for every pixel format including two-byte samples.",
  ["inputs", "configurations"], "every image and limit", "One test uses one image and limit.",
  [D, LO], [("size check", "decode_planes")])
p("C14", "Output sample width agrees with the reported pixel format",
  "The number of bytes per sample that decode produces agrees with the pixel format that info reports for every accepted precision and component count.",
  ["inputs"], "every accepted precision", "Tests cover 8 and 16 bit lossless only.",
  [D, LO], [("info()", D), ("convert_to_u8", LO)])
p("C15", "Decoding terminates on finite streams",
  "Every call terminates on a finite stream: every loop either runs over a bounded range, or consumes input or a bounded budget on every iteration, and end of input is an error that ends it.",
  ["inputs"], "every finite stream", "Tests cannot show absence of endless loops.",
  [D, PA, HU, LO], [("reading loops leave on error", "read_marker, read_bits"), ("index strictly increases", "decode_block")])
p("C16", "No recursion: stack use is bounded for every input",
  "No library function can call itself directly or through others, so stack depth is bounded whatever the stream contains.",
  ["inputs"], "every input", "Deep recursion needs adversarial nesting.", ["src"], [("loop-based parsing", "decode_internal")])
p("C17", "Results depend only on the stream and the decoder's configuration",
  "Two decoders given the same bytes and the same calls return the same results: no clock, randomness, environment, address, hash-order or process-wide mutable state can influence a result, and no state is shared between decoder instances.",
  ["histories", "schedules"], "every input, instance and order of decoding other images", "Repeated runs cannot exclude rare dependence.",
  ["src"], [("all state in Decoder", D)])
p("C18", "Worker threads cannot change, lose or stall a result",
  "In every build configuration, worker threads only receive data by move or as exclusive disjoint slices, every task is complete before its result is used, every failure to start or reach a worker is reported, and no thread can wait for another in a cycle.",
  ["schedules", "configurations"], "every schedule of the workers, rayon on or off", "Tests run few schedules.",
  [WO], [("rayon scopes, mpsc request/reply", WO)])
p("C19", "platform_independent builds run only portable safe code",
  "With the platform_independent feature no unsafe code and no architecture-specific intrinsic or CPU-feature detection is compiled into or reachable from the library.",
  ["configurations"], "every target and CPU", "A test on one machine shows nothing about what is reachable elsewhere.",
  ["src/lib.rs", D, ID, AR], [("cfg(not(feature)) gates, forbid(unsafe_code)", "src/lib.rs")])
p("C20", "SIMD code is gated by detection and stays in bounds",
  "Code requiring a CPU feature runs only after that feature has been detected at run time, and no raw memory access in it reaches outside the slices it was given, whatever their lengths.",
  ["inputs", "configurations"], "every slice length and CPU", "Tests run on one CPU with common sizes.",
  [AR, D, ID], [("is_x86_feature_detected gate", "src/arch/mod.rs"), ("length assertions", "src/arch/ssse3.rs")])
p("C21", "Constant tables match the JPEG specification",
  "The zigzag order, the default Motion-JPEG Huffman tables (K.3 to K.6) and the assignment of marker codes (Table B.1) are exactly those of the specification.",
  ["inputs"], "every table entry and marker code", "Images exercise only part of each table.",
  [D, HU, MA], [("UNZIGZAG", D), ("fill_default_mjpeg_tables", HU), ("Marker::from_u8", MA)])
p("C22", "Colour transform selection follows the metadata rules",
  "Without an override, the colour transform is chosen from component count, component identifiers, JFIF and Adobe markers as documented (identifiers 1,2,3 or JFIF give YCbCr, 'RGB' gives RGB, Adobe 0/1/2 give RGB-or-CMYK/YCbCr/YCCK, four components default to CMYK); a transform set by set_color_transform always wins over every marker.",
  ["inputs", "histories"], "every combination of markers, identifiers and overrides", "Tests cover a few combinations.",
  [D, PA], [("determine_color_transform", D)])
p("C23", "An incompatible colour transform is rejected",
  "decode returns an error, never an image or a panic, when the transform selected or requested does not fit the number of components (Grayscale for 3 or 4, RGB or YCbCr for 4, CMYK or YCCK for 3, Unknown or a big-gamut transform for either).",
  ["inputs", "configurations"], "every transform and component count", "Tests never request a mismatching transform.",
  [D, WO], [("choose_color_convert_func", D)])
p("C24", "Exif and XMP data are exactly the bytes of their segment",
  "exif_data and xmp_data return exactly the payload following the Exif and XMP signatures of the last such APP1 segment, byte for byte, and nothing when no segment carries the exact signature; other application segments never change them.",
  ["inputs"], "every APPn segment", "Tests use a handful of files.",
  [PA, D], [("parse_app", PA)], ["Decoder::exif_data", "Decoder::xmp_data"])
p("C25", "ICC profiles are assembled completely or not at all",
  "icc_profile returns the concatenation of all chunk payloads in sequence-number order exactly when every chunk declares the same count, that count equals the number of chunks, and the sequence numbers are 1 to that count without duplicates, whatever the order in which they appear; otherwise it returns None.",
  ["inputs"], "every set and order of ICC chunks", "Tests use three files.",
  [D, PA], [("icc_profile", D)], ["Decoder::icc_profile"])
p("C26", "Decoder is Send and Sync exactly when its reader is",
  "Decoder<R> can be moved to and shared with other threads whenever R can, and the public error and info types can always cross threads.",
  ["programs"], "every program using the API from several threads", "A test cannot enumerate client programs.",
  [D, "src/error.rs"], [("field types", D)])
p("C27", "Scans never use undefined tables",
  "A scan whose components refer to a quantisation table, or whose coefficients need a DC or AC Huffman table, that has not been defined is rejected with an error before its data is decoded; with an AVI1 marker the default Huffman tables stand in for undefined ones and never replace defined ones.",
  ["inputs", "histories"], "every combination of defined tables and scans", "Tests use complete files.",
  [D, HU, LO], [("set checks", "decode_scan, decode_scan_lossless"), ("fill_default_mjpeg_tables", HU)])
p("C28", "Scan data goes to the component the scan names",
  "The samples decoded from a scan are stored in the planes of exactly the components named in its header, whatever subset of components and order of scans the file uses; a sequential or lossless image some of whose components never received data is reported as an error.",
  ["inputs"], "every partition of components into scans", "Tests use one interleaved scan or all components in order.",
  [D, LO], [("component_indices", "decode_scan, decode_internal")])
p("C29", "Reading metadata twice neither consumes input nor changes it",
  "After a successful read_info, further read_info calls return Ok without reading from the stream, and info stays the same until scale or decode is called; decode after read_info behaves as decode alone.",
  ["histories"], "every order of calls", "Tests call read_info at most once before decode.",
  [D], [("early return when the frame is known", "decode_internal")])
p("C30", "Reported dimensions and scale results agree with the frame header",
  "info reports the width, height, coding process and component-derived pixel format of the frame header, scale returns the dimensions info then reports, each being ceil(dimension*s/8) for the smallest s in 1,2,4,8 with which the result reaches the requested width or the requested height (8 if none does), and lossless images are never scaled.",
  ["inputs", "histories"], "every frame header and requested size", "Tests check a few sizes.",
  [D, PA, ID], [("update_idct_size", PA), ("choose_idct_size", ID)])
# behaviours that no static argument in reach decides
p("C31", "Decoded samples match the reference decoder",
  "The decoded samples of every valid image are within the accuracy bounds of the JPEG specification of those of the reference decoder.",
  ["inputs"], "every valid image", "Reference images are samples.", [ID, UP, D, LO], [("IDCT, upsampling and colour conversion", ID)])
p("C32", "SIMD and scalar paths produce close results",
  "The architecture-specific IDCT and colour conversion differ from the portable ones by at most a small bound for every block and pixel.",
  ["inputs", "configurations"], "every block", "Reference tests sample few blocks.", [AR, ID], [("ssse3 kernels", AR)])
p("C33", "Samples do not depend on the worker",
  "Samples do not depend on which worker renders them: for every image (sequential or progressive, complete or partial, subsampled, reduced in scale), the parallel workers (threads, rayon) produce bit for bit what the immediate worker produces for the same blocks.",
  ["inputs", "configurations"], "every block content, image size on either side of the parallelism threshold, and build configuration", "Tests run one configuration at a time and never compare workers.", [WO], [("append_row_locked, append_row_immediate, start", WO), ("select_worker", D)])
p("C34", "The output holds exactly the samples of the reported dimensions",
  "On success decode returns exactly width*height samples of every component, in one byte each (two for lossless precisions above 8), for the width and height that info reports (after scale: the reduced ones), whatever the sampling factors, dimensions not divisible by the block or MCU size, scan structure and worker.",
  ["inputs", "configurations"], "every valid image and scale", "Tests check a few files.", [D, WO, LO, UP], [("buffer allocation", "compute_image")])
p("C35", "Progressive images render correctly when truncated in scans",
  "A progressive image renders, at every point at which its scans may stop before the end-of-image marker, exactly as a sequential image holding the coefficients received so far: every scan script (spectral selection, successive approximation, scans of one or several components in any order, components that have received nothing yet) contributes exactly the bits it carries.",
  ["inputs"], "every coefficient content, every scan script and every prefix of it", "Reference images are complete but one, and use the scripts of one encoder.", [D], [("decode_block, decode_block_successive_approximation", D), ("partial rendering", "decode_planes")])
p("C36", "Blocks land where the frame geometry puts them",
  "Every scan of a DCT image holds exactly the blocks the specification gives it (interleaved: whole MCUs; a single component: the blocks covering its own samples, without padding), and the samples of each block appear at that block's place in the output for every combination of dimensions, sampling factors, components per scan and scale: samples of padding blocks never appear, and each sample of a subsampled component is formed only from samples of that component next to its place.",
  ["inputs"], "every image size, sampling layout and grouping of components into scans, every block value", "Reference images use a few sizes and the common sampling layouts.",
  [D, PA, UP, WO], [("decode_scan block loops", D), ("update_component_sizes", PA), ("upsample_row implementations", UP), ("append_row", WO)])
p("C37", "Lossless samples are reconstructed exactly",
  "For every lossless image, each sample is exactly the prediction of Annex H for the scan's predictor (1 to 7), precision, point transform and restart interval plus the decoded difference modulo 2^16, shifted left by the point transform; the first line, first column and the line after each restart use the predictions the specification gives them.",
  ["inputs"], "every lossless image of whole-line restart intervals, every difference", "Three lossless files are tested.",
  [LO, D], [("decode_scan_lossless, predict", LO), ("convert_to_u8, convert_to_u16", LO)])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
