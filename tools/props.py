HOOK_COMMITS = ["df165904b971117be0fe6c2332c819a45f65aa35", "cf522bc8e30e1ad365797b1d08017ad50d2d014d", "529ca7fdd1dadeedeaacb373f1cde8f06190187c"]
NOT_APPLICABLE = []
TRUST = "Trusted: the harness' generators and oracle, the compiler, this machine's processor; NEON code is executed on a model of its instructions, hence trusted too. "

prop("C01", "Conversions never access memory outside of the buffers given",
 "For any arguments, sound or not, no conversion or size query reads or writes memory outside of the pixel buffers and the arrays it was given: a call either returns or fails, it never corrupts memory or crashes. This holds in particular when every buffer has exactly the required size, down to the last byte.",
 ["inputs", "configurations"],
 "all pixel formats, colour spaces, sizes, strides, plane counts, buffer lengths and alignments, sound or not, on every instruction set of the machine",
 "The tests convert a few sizes (mostly 2x2 to 64x64) inside larger heap buffers, so that over-reads of vector loads, of the last pixels, and checks that compare the wrong quantities go unnoticed; nothing runs with inaccessible memory next to the buffers.",
 [L, PF, C] + KER,
 [("bounds checks before the conversion", C + " out_of_bounds, compute_stride and the callers in " + X + ", " + S + ", " + A),
  ("vector parts stop before the last pixels, completed by scalar code", A + ", " + S + " (lower_multiple_of_pot)")],
 ["convert_image", "get_buffers_size", "dcp_convert_image"],
 "property-based testing with buffers touching inaccessible pages, over valid and hostile generated arguments",
 "Exploration: every width to 300 (600 thorough) for each conversion and instruction set, plus random calls. " + TRUST + "Reads inside a buffer but outside the image are allowed.", FORCE)

prop("C02", "A conversion writes all the pixels of the image and nothing else",
 "A successful conversion defines every byte of the destination image from the source alone, and leaves every other byte as it was: padding between rows, bytes before and after the image, planes that the format does not have. It never modifies the source buffers.",
 ["inputs", "configurations"],
 "all supported conversions, sizes, strides, paddings, alignments and contents, on every instruction set",
 "The tests check padding for few strides and with one fill value, and never check that the source stays the same or that all bytes are written for odd sizes and vector remainders.",
 [L] + KER,
 [("loops over rows and groups of pixels", X + ", " + S + ", " + A + " *_to_* functions"), ("remainder after the vector part", S + ", " + A + " callers")],
 ["convert_image"],
 "property-based testing: complementary prefilled destinations compared byte by byte",
 "Exploration of random conversions; each runs over two complementary destination contents, so that an unwritten byte and a stray write are both visible, or into rows that lie between read-only pages, so that putting back what was there is visible too. " + TRUST, FORCE)

prop("C03", "A call that fails leaves the outputs untouched",
 "When a conversion or a size query returns an error, through the Rust or the C interface, no byte of the destination buffers, of the array of sizes or of the source buffers has changed.",
 ["inputs", "fault_sequences"],
 "all ways to make a call fail: every argument, every combination of several faults, every plane",
 "The tests check the error returned for some faults, not the content of the buffers afterwards, nor faults located on the last plane or the last row.",
 [L, PF] + KER,
 [("all checks precede the first write", L + " convert_image, get_buffers_size; bounds checks at the start of each conversion")],
 ["convert_image", "get_buffers_size", "dcp_convert_image", "dcp_get_buffers_size"],
 "property-based testing with fault injection in the arguments; byte comparison of every buffer",
 "Exploration over 14 kinds of faults and arbitrary arguments. " + TRUST, FORCE)

prop("C04", "RGB to YUV gives the nearest codes of the ITU-R equations",
 "For every colour of a source with 8 bits per component, luma always and chroma when it is not subsampled are within rounding distance of the value given by the ITU-R BT.601 or BT.709 equations for the requested range. The place of the pixel in the image, its neighbours and the instruction set do not matter.",
 ["inputs", "configurations"],
 "all 2^24 colours for each source format, colour space and instruction set, and random pictures with any layout",
 "The tests check 8 colours per colour space with a tolerance of one code, or none, at fixed positions of small pictures.",
 [C, "genweights.py"] + KER,
 [("coefficients", C + " (XR_601, YG_709... generated by genweights.py)"), ("fixed point transforms", X + " affine_transform; " + S + ", " + A + " rgb_to_yuv_*")],
 ["convert_image"],
 "property-based testing with exhaustive enumeration of colours against a double precision reference",
 "All 2^24 colours are enumerated for each source format, colour space and instruction set reachable on this machine, in one kind of layout; random layouts are sampled. Accepted distance: 0.506 code (0.5 plus the error of 16-bit coefficients). " + TRUST, FORCE)

prop("C05", "Subsampled chroma is that of the average colour of each 2x2 block",
 "When an RGB picture is converted to a format with subsampled chroma, each chroma pair is within rounding distance of the ITU-R chroma of the average of the four pixels of its 2x2 block. All four pixels count equally, and no pixel of another block matters.",
 ["inputs", "configurations"],
 "all sums of components over a block and all blocks of pictures of any size and layout, on every instruction set",
 "The tests use blocks of one flat colour or few patterns, so a wrong weight, a wrong neighbour or a biased rounding in the average is invisible.",
 [C] + KER,
 [("average of the neighbourhood", X + " rgb_to_nv12, rgb_to_i420; " + S + " sum_i16x2_neighborhood_2x; " + A + " sum_i16x2_neighborhood_4x")],
 ["convert_image"],
 "property-based testing against a double precision reference; enumeration of block sums",
 "Exploration: block sums enumerated in slices and random pictures. Accepted distance: 0.506. " + TRUST, FORCE)

prop("C06", "YUV to RGB gives the saturated values of the ITU-R equations",
 "For every combination of luma and chroma codes, including those that no RGB colour produces, each component is within rounding distance of the value given by the ITU-R BT.601 or BT.709 equations for the source range, clamped to 0..255. It never wraps around.",
 ["inputs", "configurations"],
 "all 2^24 codes for each source format, destination format, colour space and instruction set, and random pictures with any layout",
 "The tests check 8 in-gamut colours per colour space; out-of-gamut codes, where saturation matters, are not exercised.",
 [C, "genweights.py"] + KER,
 [("coefficients", C + " (BACKWARD_WEIGHTS...)"), ("saturation", X + " fix_to_u8_sat; " + S + ", " + A + " pack_i16x3_*, saturating additions")],
 ["convert_image"],
 "property-based testing with exhaustive enumeration of codes against a double precision reference",
 "All 2^24 codes are enumerated for each conversion and instruction set reachable on this machine; random layouts are sampled. Accepted distance: 0.545 code (0.5 plus the error of 8.14 fixed point). " + TRUST, FORCE)

prop("C07", "Alpha is opaque in the output and ignored in the input",
 "Every pixel written to a destination with an alpha channel has alpha 255. The alpha of the source never influences any byte of the destination.",
 ["inputs", "configurations"],
 "all conversions from or to a format with alpha, all alpha values, sizes and layouts, on every instruction set",
 "The tests use sources with one constant alpha and do not look at all the remainders of the vector code.",
 KER,
 [("DEFAULT_ALPHA", C), ("unpacking with a mask", S + ", " + A + " unpack_ui8x3_i16x2_*")],
 ["convert_image"],
 "metamorphic property-based testing: same picture, other alpha",
 "Exploration of random conversions. " + TRUST, FORCE)

prop("C08", "Conversions between RGB formats move the components exactly",
 "A conversion between two RGB formats copies the red, green and blue of each pixel, unchanged, to the place they have in the destination format. This holds for every width, stride and value.",
 ["inputs", "configurations"],
 "all RGB to RGB conversions, widths, strides, alignments and contents, on every instruction set",
 "The tests use a handful of widths; the vector code has several unrolled stages whose remainders depend on the width.",
 KER,
 [("shuffles", A + " bgr_to_rgb_avx2, bgra_to_rgb_avx2, rgb_to_bgra_avx2; " + S + " rgb_to_bgra_sse2; " + X)],
 ["convert_image"],
 "property-based testing against an exact model; enumeration of widths",
 "Widths 1 to 400 enumerated for each conversion and instruction set, random layouts sampled. " + TRUST, FORCE)

prop("C09", "Every instruction set gives the same result",
 "For the same arguments, all the implementations that the machine can run give the same outcome and the same bytes. Accelerated code differs from portable code in speed only.",
 ["inputs", "configurations"],
 "all calls, sound or not, on every pair of instruction sets of the machine",
 "The tests force an instruction set only under a feature that their default build does not enable, with few pictures.",
 [L, C] + KER,
 [("same fixed point arithmetic in scalar and vector code", X + " affine_transform, fix_to_u8_sat ('identical results between scalar and vector')"), ("dispatch tables", L + " Context::new")],
 ["convert_image"],
 "differential property-based testing between instruction sets",
 "Exploration: every conversion at each width to 100 (700 thorough), random pictures, arbitrary arguments. " + TRUST, FORCE)

prop("C10", "The result does not depend on the memory layout",
 "The pixels obtained do not depend on strides, on the alignment of the buffers, on the content of padding, on slack after the image, on the number of planes in which a two-plane format is stored, or on writing the default strides explicitly. Rows of the source may overlap: each row is read where the stride says.",
 ["inputs", "configurations"],
 "all supported conversions with pairs of layouts of the same picture",
 "The tests try a few extra stride values with one alignment and fixed padding content.",
 [L, C] + KER,
 [("default strides", C + " compute_stride and callers"), ("single-plane handling", X + ", " + S + ", " + A + " nv12_rgb, rgb_nv12")],
 ["convert_image", "dcp_convert_image"],
 "metamorphic property-based testing: same picture in two layouts",
 "Exploration of random pairs of layouts. " + TRUST, FORCE)

prop("C11", "A pixel depends only on the pixels it corresponds to",
 "Converting a rectangle of a picture gives the same pixels as the corresponding rectangle of the whole converted picture, and changing one source byte changes only the destination pixels of the same block. Hence pictures can be split, converted by parts and joined again.",
 ["inputs", "configurations"],
 "all supported conversions, rectangles (aligned to chroma where subsampled), perturbed bytes and splits",
 "The tests convert whole pictures only.",
 KER,
 [("indexing of rows and groups", X + " wg_index; " + S + ", " + A)],
 ["convert_image"],
 "metamorphic property-based testing: crop, perturb, split",
 "Exploration of random rectangles, bytes and splits. " + TRUST, FORCE)

prop("C12", "Calls are refused with the documented error, and only then",
 "A conversion succeeds exactly when its arguments meet the documented requirements. Otherwise the error is the documented one: an invalid value when formats, colour spaces, plane counts or sizes contradict each other, an invalid operation when the conversion is not supported, not enough data when arrays or buffers are too short.",
 ["inputs"],
 "all pairs of pixel formats and colour spaces, all dimensions, plane counts, array lengths and buffer lengths",
 "The tests cover most pairs with one fixed geometry and one defect at a time, and not the documented defects in combination with odd sizes, plane counts or missing arrays.",
 [L, D, PF],
 [("validation", L + " convert_image"), ("compatibility of size and planes", PF + " is_compatible, are_planes_compatible"), ("dispatch index", D + " get_image_index, get_index, get_*_mode")],
 ["convert_image"],
 "property-based testing against an independent model of the documented errors",
 "All pairs of formats and colour spaces are enumerated with sound arguments and single defects; combinations are sampled. When several defects coexist any of their errors is accepted. " + TRUST)

prop("C13", "Buffers are enough exactly when they hold the image",
 "A conversion accepts a buffer as soon as it holds the last byte of the last row of the plane, taking the stride into account (also a stride that is shorter than a row, so that rows overlap), and refuses it with 'not enough data' as soon as it is one byte shorter, for every plane of source and destination. Sizes that cannot be represented are refused as well.",
 ["inputs"],
 "all supported conversions, sizes, strides and planes, at the exact boundary and around it, and strides up to the largest integer",
 "The tests shorten buffers of one geometry without strides, so a check that confuses stride and width, or omits the pixel size, passes.",
 [C] + KER,
 [("check of the last byte", C + " out_of_bounds and its callers")],
 ["convert_image"],
 "property-based testing at generated boundaries",
 "Exploration of random layouts with exactly sufficient and one byte short buffers for each plane. " + TRUST, FORCE)

prop("C14", "Reported buffer sizes are those documented, or the right error",
 "For any format, dimensions, plane count and strides, the size reported for each plane is the stride (or the default row size) times the number of rows of that plane; entries beyond the planes are not written. Invalid requests get the documented error, and sizes that do not fit in the address space are refused instead of wrapping.",
 ["inputs"],
 "all formats, plane counts, dimensions up to 2^32-1, strides up to the largest integer, array lengths",
 "The tests query a few dimensions with automatic strides.",
 [L, PF],
 [("size computation", PF + " get_buffers_size"), ("validation", L + " get_buffers_size; " + PF + " is_compatible")],
 ["get_buffers_size"],
 "property-based testing against exact arithmetic; enumeration of small dimensions",
 "All dimensions to 39x39 enumerated for each format and plane count with three kinds of strides, larger ones sampled. " + TRUST)

prop("C15", "Buffers allocated with the reported sizes are always accepted",
 "When all buffers have the sizes reported for the same format, dimensions, plane count and strides, the conversion succeeds, and it accesses nothing beyond them. With default strides no smaller buffer is accepted.",
 ["inputs"],
 "all supported conversions, dimensions, plane counts and strides not shorter than a row",
 "The tests call the two functions separately, with geometries for which they agree.",
 [L, PF, C] + KER,
 [("sizes", PF + " get_buffers_size"), ("bounds checks", C + " out_of_bounds and callers")],
 ["get_buffers_size", "convert_image"],
 "property-based testing of the contract between the two functions, with inaccessible memory after the buffers",
 "Exploration of random geometries. " + TRUST, FORCE)

prop("C16", "The C interface does what the Rust interface does",
 "For equivalent arguments, a C call succeeds or fails like the Rust call, reports the corresponding error code, and leaves the same bytes in the destination or in the array of sizes. It reads no more entries of the caller's arrays than the format has planes.",
 ["inputs"],
 "all calls that both interfaces can express, sound or not",
 "The C tests call a few conversions; nothing compares the two interfaces, and the arrays are always larger than needed.",
 [L, H],
 [("wrappers", L + " c_bindings: dcp_convert_image, dcp_get_buffers_size"), ("declarations", H)],
 ["dcp_convert_image", "dcp_get_buffers_size"],
 "differential property-based testing of C against Rust",
 "Exploration; C calls go through a small program compiled with the public header. " + TRUST, FORCE)

prop("C17", "The C interface refuses invalid pointers and enumerations safely",
 "Null pointers, enumeration values out of range and impossible plane counts make a C function fail with the documented error code, or without one when no place to store it was given, and without touching any output. Strings returned describe the acceleration, can be released in any order, exactly once, and are not leaked.",
 ["inputs", "fault_sequences"],
 "all combinations of null arguments, out of range values and plane counts, with or without an error location; all orders of releasing strings",
 "The C tests check a few null pointers one at a time.",
 [L, H],
 [("validation", L + " c_bindings: set_error, read_enums, dcp_convert_image, dcp_get_buffers_size"), ("strings", L + " dcp_describe_acceleration, dcp_unref_string")],
 ["dcp_convert_image", "dcp_get_buffers_size", "dcp_describe_acceleration", "dcp_unref_string"],
 "property-based testing with fault injection in the arguments; counting allocator",
 "Exploration of one and two faults of 13 kinds. " + TRUST)

prop("C18", "Concurrent conversions do not interfere",
 "Any number of threads may convert images at the same time, including when all of them make the first call of the process, and when they convert separate parts of one picture: each obtains the result it would obtain alone.",
 ["schedules", "inputs"],
 "all mixes of conversions and queries over 2 to 8 threads, in long-lived and in fresh processes, and all ways to divide a picture into bands, columns or tiles",
 "The tests never share the library between threads on purpose, and cannot repeat the first use within a process.",
 [L],
 [("lazily initialised dispatch context", L + " Context::global")],
 ["convert_image", "describe_acceleration"],
 "property-based testing of multi-threaded histories against sequential results",
 "Exploration: interleavings are those the operating system produces. " + TRUST)

prop("C19", "Results do not depend on the calls made before",
 "The outcome of a call is a function of its arguments only: whatever calls were made before, failed ones included, however often it is repeated, and whatever the floating point environment (which is left as it is), it returns and writes the same as in a fresh process.",
 ["histories", "inputs"],
 "all histories of sound and unsound calls",
 "The tests check single calls; they do not compare a call with itself after a history.",
 [L],
 [("no state besides the dispatch context", L + " Context")],
 ["convert_image", "get_buffers_size", "describe_acceleration"],
 "stateful property-based testing: generated histories against fresh processes",
 "Exploration of histories of up to 14 steps, with bursts, and of up to 140 000 repetitions of a step followed by others. " + TRUST)

prop("C20", "No arguments make the library panic",
 "For any arguments, sound or not, the functions of the library return a result or an error: they never panic, abort, loop forever or overflow an integer, even when compiled with overflow checks and debug assertions.",
 ["inputs"],
 "all arguments of all functions, in a build with overflow checks and debug assertions",
 "The tests use sizes and strides far from the limits of integers, and slices that are long enough.",
 [L, PF, C] + KER,
 [("checked arithmetic", C + " out_of_bounds; " + PF + " get_buffers_size"), ("validation before indexing", L)],
 ["convert_image", "get_buffers_size", "dcp_convert_image", "dcp_get_buffers_size"],
 "property-based testing (robustness) of a build with overflow checks and debug assertions",
 "Exploration of valid and hostile arguments. " + TRUST, FORCE)

prop("C21", "Images larger than 4 GiB are handled exactly",
 "Offsets, strides and sizes beyond 32 bits are computed exactly: pictures whose rows lie gigabytes apart, are gigabytes long, or are counted in billions, are converted as the same pixels in a small picture are.",
 ["inputs", "configurations"],
 "all supported conversions with plane sizes of several GiB, on every instruction set",
 "The tests do not allocate more than a few megabytes.",
 [C] + KER,
 [("address computation in machine words", X + " wg_index; " + S + ", " + A)],
 ["convert_image"],
 "property-based testing in sparse and periodic memory against a small picture",
 "Exploration of few, large cases. " + TRUST + "Pictures with very long or very many rows are built of repeated pages.", FORCE)

prop("C22", "Empty images are converted successfully and nothing is touched",
 "A supported conversion with sound formats and a zero width or height succeeds whatever the buffers and strides, even if there are none, and neither reads nor writes any of them.",
 ["inputs"],
 "all supported conversions with zero dimensions and arbitrary strides and buffers, through both interfaces",
 "The tests try zero sizes with one geometry and ordinary buffers.",
 [L],
 [("early return", L + " convert_image")],
 ["convert_image", "dcp_convert_image"],
 "property-based testing with inaccessible buffers",
 "Exploration of random empty images. " + TRUST, FORCE)

prop("C23", "Converting to YUV and back preserves the picture",
 "An RGB picture converted to non-subsampled YUV, or to subsampled YUV when each 2x2 block has one colour, and back in the same colour space differs by at most two codes per component; greys stay grey. In-gamut YUV converted to RGB and back differs by at most one code.",
 ["inputs", "configurations"],
 "all 2^24 colours and codes for each colour space, and random pictures and layouts",
 "The tests check each direction on few colours; none composes them.",
 [C] + KER,
 [("matching coefficients of both directions", C)],
 ["convert_image"],
 "round-trip property-based testing; enumeration of colours",
 "All colours and in-gamut codes enumerated in slices for automatic instruction set choice; random layouts sampled. " + TRUST, FORCE)

prop("C24", "Codes stay in range, and order and neutrality are preserved",
 "Limited range output keeps luma in 16..235 and chroma in 16..240; greys map to neutral chroma and neutral chroma to greys. Increasing a component never moves an output component the wrong way: luma grows with each of red, green and blue, and each RGB component grows with luma and moves monotonically with chroma.",
 ["inputs", "configurations"],
 "all ramps of every component for all values of the others, each colour space and instruction set",
 "The tests check isolated colours and no order between them.",
 [C] + KER,
 [("coefficients and rounding", C + "; " + X + " affine_transform, fix_to_u8_sat")],
 ["convert_image"],
 "metamorphic property-based testing (monotonicity) with enumeration of ramps",
 "All ramps enumerated in slices; random pictures sampled. " + TRUST, FORCE)

prop("C25", "Formats that differ by channel order give matching results",
 "A picture stored in any channel order of the same components gives the same YUV picture, and YUV decoded to any channel order gives the same red, green and blue.",
 ["inputs", "configurations"],
 "all pairs of conversions that differ by channel order only, with independent layouts and instruction sets",
 "The tests compare each format with its own expected values on few colours.",
 KER,
 [("samplers", C + " Sampler; " + X + " unpack_ui8x3_i32; " + S + ", " + A), ("REVERSED packing", X + " pack_ui8x3; " + S + ", " + A)],
 ["convert_image"],
 "metamorphic property-based testing between formats",
 "Exploration of random pairs. " + TRUST, FORCE)

prop("C26", "Only instructions that the processor supports are ever used",
 "Whatever the processor reports, the library selects an instruction set that it, and the operating system, supports, says so in its description, and never executes an instruction of another one; it is usable on any processor of the architecture.",
 ["configurations"],
 "all processors: vendors, number of leaves, feature bits and operating system support",
 "The tests run on the one processor of the machine.",
 [I, L],
 [("detection", I + " get"), ("selection of the dispatch table", L + " Context::new, describe_acceleration")],
 ["describe_acceleration", "convert_image"],
 "property-based testing with generated processors (intercepted cpuid instruction)",
 "Exploration of generated processors in fresh processes. The selection is checked through the description; executing conversions shows that the selected code works. " + TRUST + "Needs cpuid faulting of the machine; where missing the generated part is skipped.", None)

prop("C27", "Decoding subsampled YUV repeats each chroma sample over its block",
 "A subsampled picture decodes to the same RGB as the non-subsampled picture obtained by repeating each chroma pair over its 2x2 block, whether chroma is interleaved or planar.",
 ["inputs", "configurations"],
 "all pictures, sizes, layouts, colour spaces and instruction sets",
 "The tests check flat or nearly flat pictures, where a chroma sample taken from a neighbouring block makes no difference.",
 KER,
 [("chroma expansion", X + " nv12_to_bgra, i420_to_bgra; " + S + " i16_to_i16x2_8x; " + A + " i16_to_i16x2_16x")],
 ["convert_image"],
 "differential property-based testing between source formats",
 "Exploration of random pictures. " + TRUST, FORCE)

prop("C28", "YUV formats agree on the planes they share",
 "The same RGB picture gives the same luma in every YUV format, the same chroma samples in the two subsampled formats, and, where a block has one colour, the same chroma in subsampled and non-subsampled formats.",
 ["inputs", "configurations"],
 "all pictures, source formats, sizes, layouts, colour spaces and instruction sets",
 "The tests check each format with its own expected values.",
 KER,
 [("shared transforms", X + " rgb_to_nv12, rgb_to_i420, rgb_to_i444; " + S + ", " + A)],
 ["convert_image"],
 "differential property-based testing between destination formats",
 "Exploration of random pictures. " + TRUST, FORCE)

prop("C29", "The guarantees hold on 32-bit processors too",
 "Built for a 32-bit processor the library keeps the same promises: no size, row or offset that wraps around is mistaken for a small one, in conversions and in size queries, nothing panics or leaves the buffers, and the pixels are the same.",
 ["inputs", "configurations"],
 "all inputs of the other properties, with rows, strides and sizes around and above 2^32 bytes",
 "The tests run on the 64-bit machine they are built on, where a row of 2^32 pixels of 4 bytes has a size; on 32 bits the same product is 0.",
 [L, PF, C] + KER,
 [("sizes computed in machine words", C + " out_of_bounds, compute_stride; row sizes in " + X + ", " + S + ", " + A), ("size computation", PF + " get_buffers_size"), ("width limit", L + " convert_image")],
 ["convert_image", "get_buffers_size", "dcp_convert_image", "dcp_get_buffers_size"],
 "property-based testing: the generators and oracles of the other checks in a 32-bit process",
 "Exploration: the checks of the other properties at one eighth of their random cases, in a 32-bit x86 build with overflow checks (standard library built from source). " + TRUST, FORCE)

prop("C30", "No undefined behaviour, and the same results on every kind of processor",
 "No call relies on behaviour that the language leaves undefined (accesses through misaligned, invalid or wrongly shared pointers, uninitialised values, data races between threads making the first use of the library), and a picture converts to the same bytes, with the same outcome, on processors of another word size or byte order.",
 ["inputs", "schedules", "configurations"],
 "all calls of the Rust and C interfaces; all interleavings of a first use; 32-bit and 64-bit, little-endian and big-endian processors",
 "The tests run compiled code on one processor: undefined behaviour that happens to work with this compiler, races that the processor's memory model hides, and byte order assumptions of the portable code are invisible.",
 [L, X, S, A, N],
 [("raw pointer arithmetic, unaligned loads and stores", X + ", " + S + ", " + A), ("pixels swapped in 64-bit words", X + " rgb_to_bgra, bgr_to_rgb, bgra_to_rgb"), ("shared context, initialised once", L + " Context::global"), ("slices made of C pointers", L + " dcp_convert_image")],
 ["convert_image", "get_buffers_size", "describe_acceleration", "dcp_convert_image", "dcp_get_buffers_size", "dcp_describe_acceleration"],
 "property-based testing in an interpreter (Miri) that detects undefined behaviour and races, compared with native runs",
 "Exploration: some thousands of random cases per run (the interpreter is slow), on x86_64 with the code of each instruction set, i686, aarch64 and s390x (powerpc too in the thorough tier), and some ten thousands for WebAssembly, executed by node; threads interleaved by seed. Known finding: the C interface makes slices larger than the caller's buffers; C conversions are therefore executed without validation of values, or with buffers of 2 GiB on i686. Aliasing: the tree borrows model, x86_64, thorough tier. " + TRUST + "The interpreter is trusted, too.", FORCE)

prop("C31", "Calls leave nothing behind",
 "A call holds nothing once it has returned: repeated calls, refused ones included, whatever their number, order, arguments and threads, accumulate no memory, threads, files or other resources; a description is given back whole when it is released; and the signal mask, flags and floating point control of the calling thread are as before.",
 ["histories", "inputs"],
 "all histories of calls of all functions through both interfaces, repeated, with arguments that never occurred before, and by threads that end",
 "The tests make few calls in short-lived processes, and look at results only: a leak on a refused call, or a table that grows with each new size, changes none of them.",
 [L, PF],
 [("the only state is the dispatch context", L + " Context::global"), ("ownership of strings", L + " dcp_describe_acceleration, dcp_unref_string")],
 ["convert_image", "get_buffers_size", "describe_acceleration", "dcp_convert_image", "dcp_get_buffers_size", "dcp_unref_string"],
 "property-based testing of repeated generated histories with an invariant over the resources of the process",
 "Exploration: growth is reported when a resource grows at every one of 5 or more repetitions. " + TRUST)

prop("C32", "The same behaviour however the library is built",
 "What a call does, its outcome, every byte it writes, and what it describes, does not depend on how the library was compiled: level of optimisation, checks, the processor that the compiler may assume, link-time optimisation, order of fields in structures, release of the compiler, or the feature that lets tests choose the instruction set.",
 ["inputs", "configurations"],
 "all calls of both interfaces, in all builds by any release of the compiler with any of its options",
 "The tests run in one build. What depends on the build (code selected while compiling, assertions with effects, layouts that the language leaves open, undefined behaviour which one optimisation uses) is seen in others only.",
 [L, PF, C, D] + KER,
 [("structures shared with C", L + " ImageFormat, c_api"), ("dispatch tables", L + " Context, " + D), ("kernels in macros, inlined", X + ", " + S + ", " + A)],
 ["convert_image", "get_buffers_size", "describe_acceleration", "dcp_convert_image", "dcp_get_buffers_size", "initialize_with_instruction_set"],
 "property-based testing: the same generated cases in differently built programs, compared with each other and with a model of outcomes",
 "Exploration: 14 builds (3 releases of the compiler) and a reference, some hundred thousands of cases each. " + TRUST, FORCE)
