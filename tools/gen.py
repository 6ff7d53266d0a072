#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from the table below."""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q, E, M, MT, MA, V, VC = "qrcode.go", "encoder.go", "mask.go", "mask_evaluation.go", "matrix.go", "version.go", "version_cfg.go"
SW, SO, SA = "writer/standard/writer.go", "writer/standard/image_option.go", "writer/standard/image_option_api.go"
SS, SG, SF = "writer/standard/image_qr_shape.go", "writer/standard/gradient.go", "writer/standard/image_format.go"
BL, FI, CO = "writer/standard/shapes/blocks.go", "writer/standard/shapes/finders.go", "writer/standard/shapes/constructor.go"
IK = "writer/standard/imgkit/process.go"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state or [], hook=hook))
I, H, S, C, F, CP = "inputs", "histories", "schedules", "configurations", "fault_sequences", "crash_points"

prop("C01", "Round trip: every accepted text decodes back exactly",
 "For every text that generation accepts, under every combination of encode options, the produced symbol is a valid QR code that a standard-conforming reader decodes, without needing any error correction, to exactly the bytes that were passed in. A text that fits the selected version, level and mode is not rejected.",
 [I, C], "all byte strings up to the capacity of version 40, all options (mode, level, version, minimum version), all four text parameter types",
 "Tests build a handful of texts and only look at errors, files or version numbers; nothing decodes a symbol, and 640 version x level x mode combinations are out of their reach.",
 [Q, E, "chardet.go", V, VC, M, MA], [("build/init pipeline", Q), ("data encoding", E), ("masking", Q)],
 ["qrcode.New/NewWith + Save into a capturing Writer"],
 "rapid property-based testing: stratified round trip through an independent ISO 18004 decoder",
 "Sampled search over all 640 version x level x mode strata incl. every exact-capacity text; trusts the independent decoder in harness/qrref (validated on ISO/published vectors).")
prop("C02", "Function patterns, format and version information are exact",
 "Every symbol is a square of 4v+17 modules with finder patterns, separators, timing patterns, alignment patterns and the dark module exactly where the standard puts them for that version, whatever the data is. Both copies of the format information name the requested error-correction level and the mask in use, and from version 7 on both copies of the version information name the version.",
 [I, C], "all versions 1-40, levels and modes, all texts and all resulting masks",
 "Tests do not look at placed modules except through images nobody compares; a misplaced alignment pattern or format bit in one version is invisible to them.",
 [Q, V, MA], [("prefillMatrix / addFinder / addAlignment / addTimingLine", Q), ("fillFormatInfo, fillVersionInfo", Q), ("alignment and format tables", V)],
 ["the matrix delivered to a Writer", "QRCode.Dimension"],
 "rapid property-based testing: differential against an independently derived function-module layout",
 "All function modules of every sampled symbol are compared; all 40 versions x 4 levels are visited in every run. Trusts the layout in harness/qrref.")
prop("C03", "Codeword stream and symbol are bit-exact to the standard",
 "For a given text, mode, version and level the symbol carries exactly the standard's codeword sequence: mode indicator, character count of the right width, packed payload, terminator, pad bytes, Reed-Solomon codewords per block, interleaving and zero remainder bits, placed along the standard path under the mask that the format information names. The whole matrix is therefore identical to the one an independent standard encoder produces for the same choices.",
 [I, C], "all versions, levels and modes; lengths from empty to exact capacity",
 "Unit tests check four short encodings; block structures, count widths, padding and interleaving of 160 version/level pairs are not sampled, and a wrong error-correction byte still looks like a QR code.",
 [Q, E, V, VC, M], [("encoder.Encode, padding", E), ("errorCorrectionEncoding, arrangeBits, fillDataBinary", Q), ("version table", VC), ("mask functions", M)],
 ["the matrix delivered to a Writer"],
 "rapid property-based testing: differential against an independent ISO 18004 encoder",
 "Bit-exact comparison on sampled texts in all 640 strata plus the exact-capacity text of each. Trusts harness/qrref.")
prop("C04", "Guaranteed error-correction capacity of every block",
 "Every symbol keeps its text under any damage within the correction capacity of its version and level: up to half of the error-correction codewords of each block corrupted, together with up to three wrong modules in each copy of the format and version information.",
 [I, F], "all versions and levels, all texts, all damage patterns within capacity (scattered and burst)",
 "Tests never damage a symbol; a wrong generator polynomial, block split or interleaving shows only when a reader has to correct errors.",
 [Q, VC, V], [("errorCorrectionEncoding per block", Q), ("block table", VC), ("format/version BCH words", V)],
 ["the matrix delivered to a Writer, damaged and decoded"],
 "rapid property-based testing with generated fault patterns: damaged symbols must decode with an independent error-correcting decoder",
 "Random damage at full and partial capacity in all 640 strata. Trusts the Reed-Solomon/BCH decoder in harness/qrref.")
prop("C05", "Version selection: smallest that fits, explicit exact, minimum honoured",
 "Without an explicit version the symbol uses the smallest version whose capacity at the requested level holds the text, raised to the minimum version when one is set; an explicit version is used exactly. A text that exceeds the explicit version, or version 40, is refused with an error, and a text that fits is never refused.",
 [I, C], "all text lengths around every capacity limit of 40 versions x 4 levels x 4 modes, combined with explicit and minimum versions",
 "Tests pin a few minimum-version examples; 640 capacity limits and their off-by-one neighbours are not sampled.",
 [Q, V, VC, "encoder_option.go", E], [("calcVersion, analyzeVersion", V), ("capacity table", VC), ("encoder overflow check", E)],
 ["QRCode.Dimension, format information, error result"],
 "rapid property-based testing: boundary-enumerating differential against capacities derived from bit counts",
 "All 640 capacity limits (n and n+1, automatic and explicit) enumerated in every run, plus sampled combinations.")
prop("C06", "Mode selection: densest mode for the whole text, explicit mode validated",
 "With automatic mode the text is encoded in the densest mode that can represent every character of it - numeric, then alphanumeric, then kanji, then byte - independent of the order in which the characters occur. An explicit mode is used as given when it can represent every character and refused with an error when it cannot.",
 [I, C], "all texts: every mixture and order of character classes, every ideograph and its neighbours, arbitrary bytes including invalid UTF-8",
 "Tests sample about thirty texts of one or two classes; the outcome depends on every pair of character classes in every order.",
 ["chardet.go", Q, E], [("analyzeEncodeModeFromRaw, validateEncodingMode", "chardet.go"), ("mode indicator", E)],
 ["mode indicator read back from the symbol", "error result"],
 "rapid property-based testing: differential against independent character-class definitions; ideograph blocks enumerated",
 "Sampled mixtures plus enumeration of the ideograph blocks (all of them in the thorough tier). Kanji set cross-checked against Shift JIS tables.")
prop("C07", "The delivered mask has minimal penalty",
 "Of the eight symbols that differ only in the data mask, the delivered one has the lowest penalty under the standard's four rules (runs, 2x2 blocks, finder-like patterns with four light modules on a side, dark/light balance), counted on module colours only.",
 [I, C], "all texts, versions, levels and modes",
 "The penalty tests are benchmarks and compare nothing; any mask yields a decodable symbol, so no test can notice a wrong choice.",
 [MT, Q, "kmp_variant.go", M], [("evaluation rules 1-4", MT), ("masking", Q)],
 ["the matrix delivered to a Writer: mask from the format information, seven alternatives rebuilt"],
 "rapid property-based testing: optimality check against independently rebuilt and scored alternatives",
 "Sampled symbols in all strata with emphasis on small versions. Pattern rule counted inside the symbol; at an exact 5% multiple both readings of the balance rule are accepted.")
prop("C08", "Generation is deterministic and independent of history",
 "Building the same text with the same options always yields the same symbol, module for module, no matter how often it is repeated, how many processors run, which other symbols were built or saved before, or in which order. Saving a symbol does not change it.",
 [I, H, S], "all texts and options; sequences of builds and saves in any order; repeated runs under different GOMAXPROCS",
 "One test hashes two saved files of one symbol; scheduling of the parallel mask evaluation and leaks through shared tables need repeated, reordered histories.",
 [Q, V, E, MA], [("masking goroutines and selection", Q), ("shared version table and padding", V)],
 ["matrices delivered to a Writer"],
 "stateful property-based testing: build/save histories against the first result of each spec, tie-prone symbols repeated under varying GOMAXPROCS",
 "Schedules are sampled by repetition, not controlled; symbols whose best penalty is shared by several masks are repeated more.")
prop("C09", "Generation is total: a symbol or an error, never a panic or hang",
 "For every byte string and every combination of option values, valid or not, generation returns promptly with either a usable symbol or a non-nil error, never both or neither, and never panics. A returned symbol can be saved, also to no writer at all.",
 [I, C], "arbitrary byte strings (empty, binary, invalid UTF-8, far beyond capacity), arbitrary integers in every option, all option combinations",
 "Tests exercise valid settings; panics hide in combinations of out-of-range values, unsupported modes and oversize or malformed texts.",
 [Q, E, "encoder_option.go", V, "chardet.go"], [("validateEncodingMode", Q), ("option range checks", "encoder_option.go"), ("capacity error", E)],
 ["qrcode.New/NewWith results", "QRCode.Save(nil)"],
 "rapid fuzzing of texts and raw option values with a totality oracle and watchdog",
 "Sampled; a case that takes over 90 s counts as a hang.")
prop("C10", "Encode option semantics",
 "Out-of-range versions, minimum versions and error-correction levels are ignored, the last valid value of an option wins, options on different settings commute, and no options means automatic mode at level Q. The symbol depends only on the text bytes and effective settings - not on the string or byte-slice type used - the caller's bytes are neither modified nor retained, and an option value can be reused for any number of symbols.",
 [I, C, H], "all option lists (repeated, out of range, permuted, shared between builds), all text parameter types",
 "Tests apply single valid options; lists with repetitions, invalid values and reuse form an unbounded space.",
 [Q, "encoder_option.go"], [("option application", "encoder_option.go"), ("toBytes", Q)],
 ["matrices delivered to a Writer"],
 "rapid metamorphic testing: option lists against their reduced canonical form",
 "Sampled option lists; compares whole symbols.")
prop("C11", "Concurrent generation and saving are safe",
 "Any number of goroutines may generate symbols at the same time, share option values, and save one symbol concurrently to separate writers, without data races, and each gets exactly the result it would get alone.",
 [S, I], "all interleavings of concurrent builds and saves of generated specifications",
 "No test runs two builds at once; races on shared tables, option values or the symbol show only under concurrency.",
 [Q, V, E, "encoder_option.go", SW, SO], [("per-call encodingOption, shared tables read only", Q), ("Save passes the matrix read only", Q)],
 ["race detector reports", "matrices delivered to Writers", "images written"],
 "property-based concurrency testing: generated parallel histories under the race detector, compared with the sequential result",
 "Schedules are sampled by the Go scheduler; the race detector reports any unsynchronised access that was executed. A single Writer object is not shared between goroutines.")
prop("C12", "The matrix view is coherent and copies are isolated",
 "All views of a delivered matrix agree: row-wise and column-wise iteration visit every position once in the documented order with the same values, rows, columns and the bitmap match them, and sizes equal the symbol's dimension; out-of-range rows and columns give nothing. A copy equals the original, and changing what the bitmap, a row or a copy returned does not change the matrix or the symbol.",
 [I, H], "all symbols; all positions incl. out-of-range indices; mutations of returned values",
 "Matrix tests use one 3x3 example; coherence over real symbols, all indices and both directions is not sampled.",
 [MA, "matrix_type.go"], [("Iterate, Row, Col, Bitmap, Copy", MA)],
 ["Matrix API of the matrix delivered to a Writer"],
 "rapid property-based testing: cross-view consistency and isolation after mutation",
 "All positions of every sampled symbol are compared. The column accessor is not required to be isolated (it is documented as returning the column).")
prop("C13", "Every module carries the type of its region",
 "In every delivered matrix each module is tagged with the region it belongs to - finder, separator, timing, format, version, dark module, data - with alignment patterns tagged as data except where the timing pattern crosses them, and no module is left unassigned.",
 [I, C], "all versions and levels, all texts",
 "Writers and custom shapes rely on the tags to draw finders and halftones; no test compares tags of a built symbol with the layout.",
 [Q, MA, "matrix_type.go", M], [("prefillMatrix and fill functions set typed values", Q), ("masking keeps types", Q)],
 ["QRValue.Type in Matrix.Iterate"],
 "rapid property-based testing: differential against the independent layout",
 "All modules of every sampled symbol; all 40 versions in every run.")
prop("C14", "Save protocol towards writers",
 "Saving hands the complete symbol to the writer in exactly one write, then closes the writer exactly once whether the write succeeded, failed or panicked, and returns exactly the write's error; a close failure is not turned into a save failure. A nil writer is accepted and the symbol stays usable for any further saves.",
 [F, H, I], "all sequences of saves with writers that succeed, fail or panic in write and/or close",
 "No test saves to a failing writer; ordering and error propagation need injected faults.",
 [Q, "writer.go"], [("QRCode.Save", Q)],
 ["call log of an instrumented Writer, Save result"],
 "stateful property-based testing with injected writer faults",
 "Sampled fault sequences; the log of every writer is compared with the protocol.")
prop("C15", "Debug mode changes no result",
 "Turning on debug mode, by environment variable or call, changes neither the symbols nor the accept/reject decisions, also when the debug output directory does not exist.",
 [I, C], "all texts and options, debug on by environment, by call, or off",
 "No test enables debug mode; its drawing and logging run inside the mask goroutines.",
 ["debug.go", Q], [("debugEnabled, debugLogf, debugDraw", "debug.go")],
 ["matrices of a subprocess with debug on against those with it off"],
 "rapid differential testing between processes with debug mode on and off",
 "Sampled specs; the debug process runs in its own scratch directory with and without a draft folder.")
prop("C16", "Standard PNG output is pixel-exact and matches its attributes",
 "With the default shape each module is a solid square of the block width at its position inside the configured borders, everything else has the background colour, and the image size is exactly modules times block width plus borders. The attributes reported for a dimension are the size, borders and block width that a written image really has, and a reader recovers the text from the image.",
 [I, C], "all symbols, block widths (including 0, meaning the default), border argument lists and colours",
 "Tests check the border arithmetic of a few options; nothing looks at pixels.",
 [SW, SO, SA, SS], [("draw", SW), ("preCalculateAttribute, qrBlockWidth", SO)],
 ["decoded PNG bytes", "Writer.Attribute"],
 "rapid property-based testing: every pixel against a model renderer, then decode back to the text",
 "All pixels of every sampled image.")
prop("C17", "Colour and drawing option semantics of the standard writer",
 "Foreground and background take exactly the configured colours, given as colour values or as 3- or 6-digit hex codes in any letter case; nil or empty settings keep the previous colour, the last setting wins, and the transparent option makes the background fully transparent without touching the foreground. Default colours are black on white.",
 [I, C], "all colours, hex spellings, option lists, orders and repetitions",
 "Tests convert a few colours through internals; option lists and their effect on pixels are not sampled.",
 [SA, SO, SW], [("parseFromHex, parseFromColor", SO), ("option functions", SA)],
 ["pixels of decoded PNG output"],
 "rapid property-based testing: pixel colours against a model of the option list",
 "Colours are opaque (translucent foregrounds are blended by the drawing library and left out). Known finding F14 is tolerated exactly.")
prop("C18", "Image encoders: format dispatch, custom encoders, scannable JPEG",
 "The chosen image encoder alone decides the output: PNG and JPEG options produce files of that format (JPEG by default), a custom encoder receives the finished image of the announced size once and its bytes are the only output, and its error is returned by save. A JPEG shows the picture about as closely as the default JPEG quality does, and at ordinary block widths still decodes to the text.",
 [I, C, F], "all symbols, encoder option lists, block widths and borders, failing custom encoders",
 "Tests write two files and look at nothing but errors.",
 [SF, SA, SW], [("imageEncoder dispatch", SW)],
 ["bytes written, image handed to a custom encoder, Save result"],
 "rapid property-based testing: format sniffing, pixel comparison and decode round trip",
 "JPEG decoding samples module centres with block width >= 3 (4:2:0 chroma does not affect luminance).")
prop("C19", "Custom shapes are called once per module with the right context",
 "A custom shape is called exactly once for every module in row order - its finder routine for finder modules, its block routine for all others - with the module's upper-left position, the block width, the module's colour and a neighbourhood mask that names exactly which of the eight surrounding modules and itself are dark. With a halftone picture a data module comes as nine cells that tile its block, the middle one in the module's colour, and all other modules come as before. A nil custom shape means the default shape.",
 [I, C], "all symbols, block widths, borders and colours",
 "No test observes the calls a shape receives; the edges of the symbol and all 512 neighbourhoods need generated symbols.",
 [SW, SS], [("draw loop, getNeighbours", SW), ("DrawContext accessors", SS)],
 ["call log of an instrumented IShape"],
 "rapid property-based testing: recorded shape calls against the matrix",
 "Every call of every sampled image is compared.")
prop("C20", "Built-in shapes keep every module readable",
 "Every built-in shape, alone or assembled from any finder and block style, leaves the centre of every module in that module's own colour and never draws outside the symbol area enlarged by one block, so that a reader sampling module centres recovers the text, at every block width that leaves a drawn shape at least about three pixels wide (blocks from 4 pixels; the circle option at any width).",
 [I, C], "all symbols, all finder and block styles with all size and ratio parameters, all block widths",
 "Tests draw two shapes into files without looking; each style depends on the 512 neighbourhoods.",
 [BL, FI, CO, SS], [("shape functions", BL), ("finder functions", FI), ("circle", SS)],
 ["pixels of the image"],
 "rapid property-based testing: module-centre colours and decode round trip over all style combinations",
 "Block widths from 4 up for anti-aliased styles.")
prop("C21", "Shape parameters take effect as documented",
 "Size and ratio parameters scale the drawn shape as documented, values outside the documented range behave exactly like the documented default, larger parameters never draw less, horizontal styles are the transposed vertical ones, and assembling uses the given finder routine only for finders and the block routine only for the rest.",
 [I, C], "all parameter values including out-of-range, NaN-free floats, block widths and neighbourhoods",
 "No test calls these styles.",
 [BL, FI, CO], [("HStripeBlock/VStripeBlock/SquareBlocks/CircleBlocks", BL), ("Assemble", CO)],
 ["pixels of the image"],
 "rapid metamorphic testing: transposition, monotonicity, default equivalence, exact square geometry",
 "Metamorphic relations compared pixel by pixel with anti-aliasing tolerance.")
prop("C22", "Logo placement and size limit",
 "A logo that fits the size limit (image size divided by the multiplier, 5 by default, in both dimensions) is drawn unscaled at the centre of the image, and all pixels outside it are those of the image without logo. A larger logo, a nil logo or an unreadable logo file leaves the image as without logo, and save succeeds.",
 [I, C], "all logo sizes around the limit, multipliers, borders (asymmetric too), block widths, logo image origins and pixel types, file and image inputs",
 "One skipped-by-eye test embeds a logo; limits and centring are not checked.",
 [SW, SA], [("validLogoImage, DrawImage", SW), ("WithLogoImage*", SA)],
 ["pixels of decoded PNG output"],
 "rapid property-based testing: pixel model with logo overlay, limit enumerated",
 "Opaque logos compared exactly; all pixels of every sampled image.")
prop("C23", "Logo safe zone clears exactly the modules under the logo",
 "With the safe zone, exactly the dark modules whose square overlaps the drawn logo are left undrawn and are reported as light in the neighbourhoods given to shapes; all other modules are unchanged. Without a fitting logo the safe zone has no effect.",
 [I, C], "all logo rectangles (non-square too), borders, block widths, symbols",
 "No test uses the safe zone with a check of pixels.",
 [SW, SA], [("blockOverlapsLogo and bitmap clearing", SW)],
 ["pixels of decoded PNG output", "neighbourhood masks seen by a custom shape"],
 "rapid property-based testing: pixel and neighbourhood model with safe zone",
 "All pixels and all neighbourhood masks of every sampled image.")
prop("C24", "Foreground gradients",
 "With a gradient, every pixel that had the foreground colour gets the colour interpolated between the neighbouring stops at its position along the gradient direction (first and last stop colours beyond them), and every other pixel keeps its colour. Colours therefore change monotonically along the direction between two stops, stops may be given to NewGradient in any order, and a gradient without stops has no effect.",
 [I, C], "all angles, stop lists in any order, foreground and background colours, symbols",
 "No test applies a gradient.",
 [SG, SW, SA], [("applyGradient, interpolateColor", SG)],
 ["pixels of decoded PNG output"],
 "rapid property-based testing: pixel-exact (+-1 level) gradient model",
 "Opaque stops; background different from the foreground colour.")
prop("C25", "Halftone keeps the code and follows the picture",
 "With a halftone picture each data module is divided into three by three cells of which the centre keeps the module's colour, and the eight others are black or white as the picture, scaled (approximately bilinearly) to three cells per module, is dark or light there, light meaning a luminance above 60 (light cells show the background when it is transparent); finder, timing and other function modules stay as without halftone. The text is still recovered by sampling module centres, and an unreadable picture file, or blocks less than three pixels wide, leave the image as without halftone.",
 [I, C], "all symbols, pictures, block widths from 3 up, borders and colours",
 "No test decodes a halftone image.",
 [SW, IK, SA], [("halftone cells in draw", SW), ("Scale, Binaryzation", IK)],
 ["pixels of decoded PNG output"],
 "rapid property-based testing: cell model and decode round trip",
 "Cells are compared exactly for block widths divisible by three and uniform-region pictures; centres for all widths.")
prop("C26", "Writing is pure and repeatable",
 "Writing the same symbol again through the same writer, a new writer with the same options, or after any other symbol produces the same bytes; option values, logo and halftone images, gradients and the symbol itself are not modified by writing.",
 [H, I, C], "all sequences of writes over generated symbols and option sets, including shared option values between writers",
 "One test compares two files of the same symbol with default options.",
 [SW, SO, SA], [("options resolved per writer, draw allocates its own canvas", SW)],
 ["bytes of repeated writes"],
 "stateful property-based testing: write histories against the first output of each configuration",
 "Sampled histories.")
prop("C27", "Files contain exactly the symbol written",
 "Writing to a named file creates it or replaces its previous content completely, however long that was, so that the file holds exactly the bytes a stream writer would get; a path that cannot be opened is reported as an error and no writer is returned.",
 [H, I, F], "all file-writing entry points over absent, shorter, longer, read-only and invalid targets, repeated saves",
 "Tests write to fresh names only and do not read back.",
 [SW, "writer/compressed/writer.go"], [("os.OpenFile flags", SW)],
 ["file bytes, error result"],
 "stateful property-based testing: file histories against in-memory output",
 "Runs in a scratch directory.")
prop("C28", "Compressed writer output is pixel-exact and minimal",
 "The compressed writer produces a two-colour, one bit per pixel palette PNG of size modules times block size plus twice the padding, with dark modules black, everything else white, from which a reader recovers the text; it is compressed no worse than by default PNG compression (up to a tenth), and closing it closes the underlying stream once.",
 [I, C], "all symbols, paddings from 0 and block sizes from 1",
 "The package has no tests.",
 ["writer/compressed/writer.go"], [("Write", "writer/compressed/writer.go")],
 ["decoded PNG bytes"],
 "rapid property-based testing: every pixel against a model renderer",
 "All pixels of every sampled image.")
prop("C29", "Text file writer draws the symbol with half blocks",
 "The text writer emits one line per two module rows, each exactly as wide as the symbol and ended by a newline, in which every character shows the upper and lower module (space, upper half, lower half, full block), an odd last row being completed with light; reading the text back gives the symbol. A nil file is an error, and the caller's file is left open.",
 [I, H], "all symbols, several symbols appended to one file",
 "The package has no tests.",
 ["writer/file/writer.go"], [("Write", "writer/file/writer.go")],
 ["file content"],
 "rapid property-based testing: parse the text back to the matrix",
 "All characters of every sampled symbol.")
prop("C30", "Terminal writer paints the symbol",
 "On a terminal large enough the terminal writer paints every module as two equally coloured cells at its position inside a light margin of one module, black for dark and white for light, shows the quit hint below, returns after a key press and restores the terminal.",
 [I], "all symbols that fit the terminal, any key",
 "The package has no tests: it needs a terminal.",
 ["writer/terminal/writer.go"], [("Write, drawBlock, hold", "writer/terminal/writer.go")],
 ["escape sequences on a pseudo-terminal, interpreted by a small terminal model"],
 "rapid property-based testing over a pseudo-terminal with a terminal-model oracle",
 "xterm-256 escape sequences interpreted by a minimal emulator.")
prop("C31", "Command line tool produces the described image",
 "The command line tool writes to the output path (qrcode.jpg by default) the image the library produces for the text and the given block size, borders, circle, transparency and halftone flags, in PNG format when the extension of the name is png and JPEG otherwise. With --terminal it shows the symbol on the terminal instead and writes no file. Invalid borders, block sizes that are no number or above 255, texts that do not fit and unwritable outputs are reported with a message and a failing exit status, without a crash and without leaving an image.",
 [I, C], "all texts and flag combinations, valid and invalid",
 "The command has no tests.",
 ["cmd/qrcode/app.go", "cmd/qrcode/main.go"], [("parseGenerateContextFrom, applyOptions, generate", "cmd/qrcode/app.go")],
 ["exit status, stderr, output file of the built binary"],
 "rapid end-to-end differential testing of the built binary against the library",
 "Sampled flags; block size 0 stands for the library default; the texts h and help are the tool's help command and left out.")
prop("C32", "WebAssembly binding matches the library",
 "The WebAssembly entry point returns, for a text and an option object in which any fields may be missing, a success result whose image is exactly what the library produces for those settings, PNG by default for object options and JPEG only on request, or a failure result with a non-empty error; it never crashes the module and later calls still work. Without an option object the library's default look is used.",
 [I, C, H], "all texts and option objects, sequences of calls",
 "The binding's only test marshals a struct; it never runs the entry point.",
 ["cmd/wasm/main.go", "cmd/wasm/types.go"], [("genqrcode, optionFromJSValue", "cmd/wasm/types.go")],
 ["results of generateQRCode under node"],
 "rapid differential testing: call histories through node against the library",
 "Colours are valid hex strings, malformed strings or absent; encodeMode and errorCorrectionLevel take the library constants.")
prop("C33", "Image helpers: grey, threshold, scale",
 "Grey conversion keeps bounds and gives each pixel the standard luminance; thresholding keeps bounds and yields only black and white, white exactly where the luminance exceeds the threshold; scaling yields the requested rectangle with the given scaler (approximately bilinear by default) and maps uniform pictures to the same uniform colour. Saving replaces the previous content of the file; reading back a saved PNG returns the same pixels, a saved JPEG about as close ones as the default quality keeps; unknown extensions and unreadable files are errors, and no helper modifies its source.",
 [I], "all images, with any bounds origin and pixel type, all thresholds and target rectangles",
 "The three tests are skipped ('need human to check').",
 [IK, "writer/standard/imgkit/io.go"], [("Gray, Binaryzation, Scale", IK), ("Read, Save", "writer/standard/imgkit/io.go")],
 ["returned images"],
 "rapid property-based testing: pixel-wise oracle",
 "All pixels of every sampled image.")
prop("C34", "Stream failures surface as save errors",
 "When the underlying stream fails at any point of the output, after any number of bytes, save returns a non-nil error for the standard, compressed and text writers, the stream is still closed, and nothing panics; Close of the standard and compressed writers hands on a failure of the stream's Close; when the stream accepts everything, save returns nil and the stream holds a complete image.",
 [F, I], "every failing byte offset of the output stream, short writes, closed files, all writers",
 "No test injects a stream failure.",
 [SW, "writer/compressed/writer.go", "writer/file/writer.go", Q], [("error return of Write", SW)],
 ["Save result, close count of an instrumented stream"],
 "fault-injection property-based testing: failing offset generated over the whole output",
 "Write faults at sampled offsets plus both ends.")
prop("C35", "Nothing is left behind in the process",
 "Once generation, saving, a writer or option constructor or a picture helper has returned - successfully, with an error, or with the panic of a foreign writer - nothing of it remains: no goroutine keeps running, no file opened by the library (image outputs, logo, halftone and helper pictures, sound or not) stays open, no temporary file is left, and working directory, environment, GOMAXPROCS and logger settings are unchanged. The memory held does not grow with the number of symbols generated or images written.",
 [H, F, I], "all histories of uses, valid and invalid, with failing writers and streams and unreadable files; hundreds of repetitions with new texts",
 "Tests end after a few calls and never look at goroutines, descriptors or live memory.",
 [Q, SW, "writer/standard/image_option_api.go", "writer/compressed/writer.go", "writer/standard/imgkit/io.go"], [("mask goroutines", Q), ("file options", "writer/standard/image_option_api.go")],
 ["runtime.NumGoroutine, /proc/self/fd, directories, live heap after collection"],
 "rapid stateful property-based testing: invariants of the process after every step of a history",
 "Growth below 128 bytes per use is not seen.")
prop("C36", "Results do not depend on the platform",
 "Built for a 32-bit system, the library accepts and rejects exactly the texts and options it does on a 64-bit system, and delivers the same modules, region tags, text, compressed, PNG and JPEG bytes, with any image options and for any version.",
 [H, F, I], "all modes, levels and versions around their capacities, option values over the 32-bit range, all output formats with random image options",
 "Tests run on one platform.",
 [Q, SW, "version.go", "mask_evaluation.go", "writer/standard/gradient.go"], [("capacities and sizes in int", "version.go"), ("coordinates and colours", SW)],
 ["decision, modules and bytes from two processes, one built with GOARCH=386"],
 "differential property-based testing between two platforms, generated texts and options",
 "386 stands for the 32-bit platforms; big-endian ones cannot be run here.")
prop("C37", "Image options combine",
 "Colours, transparency, width, borders, shape, gradient, halftone, logo, multiplier and safe zone can be combined freely, in any order with the same result, and each keeps its documented effect: a fitting logo lies unchanged over the image the other options give, a gradient recolours the foreground-coloured pixels of the image without it but never the logo, a halftone picture changes data modules only, the safe zone clears the dark modules under the logo and nothing else, and the centres of all modules outside the logo keep their module's colour.",
 [I], "all subsets of the image options with generated values, in two orders",
 "Tests and examples use one or two options at a time.",
 [SW, "writer/standard/image_option_api.go", "writer/standard/gradient.go"], [("draw: background, modules, gradient, logo", SW)],
 ["PNG pixels of the full image against the images with single options left out; bytes for two orders"],
 "metamorphic property-based testing: leaving out or permuting options",
 "Each kind of option at most once; halftone picture under a logo with safe zone left open.")

def main():
    ids = os.environ.get("IMPLEMENTED")
    impl = set(ids.split()) if ids else set(open(os.path.join(ROOT, "tools", "implemented.txt")).read().split())
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": p["hook"]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in impl:
            checks.append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
              "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
              "level": "fault_enumeration" if p["id"] == "C34x" else "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Property-based testing with pgregory.net/rapid; see DESIGN.md. No hooks in /repo are needed."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
