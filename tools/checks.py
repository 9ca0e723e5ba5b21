"""What each check runs. Case counts live in the harnesses."""
import os
import vbuild
from check import Stage
BOTH = {"fftw": "fftw-o3", "kiss": "kiss-o3"}
CHECKS, NOT_APPLICABLE = {}, {}
def check(id, stages, technique, rule, note, **kw):
    CHECKS[id] = dict(stages=stages, technique=technique, rule=rule, note=note, **kw)

check("C01", [Stage("c01", libs=BOTH)],
 "property-based testing against a reference model (independent long-double DCT and interval evaluation of the measures)",
 "An image (12 kinds: noise, quantised, synthesised spectra, planted odd extensions, resampled, ...), size, method, range and number of images are drawn; both backends' confidences at threshold 0 are compared with the model for every position. Non-trivial: there are candidate positions, at least one positive confidence, and at most 2% of comparisons are within rounding of a tie.",
 "Exploration of generated images up to 600x600, 2400x24 and 4 images against an independent model; trusts the model's error bound of the float transform and glibc.")
check("C02", [Stage("c02", libs=BOTH)],
 "property-based testing: list invariants and a metamorphic relation between thresholds",
 "An image, method and range are drawn; the complete list at threshold 0 is checked and each other threshold (random, equal or adjacent to an occurring confidence, default, extremes) must select exactly its part; also lists of over 65535 entries. Non-trivial: some threshold selects a proper, non-empty part (lists, long lists); there are candidates (repeated); any extreme range (extremes).",
 "Exploration; exact except that ties between a threshold and a confidence that is not exactly representable are accepted either way.")
check("C03", [Stage("c03", libs=BOTH)],
 "stateful model-based testing of call histories",
 "Histories of up to 42 create/analyze/reject/results/destroy operations over up to four live analyses and two image groups are drawn and run against a model holding the accepted images of each analysis. Non-trivial: results of an analysis with at least two accepted images were compared.",
 "Exploration; the model takes single-image confidences from the library itself (C01 decides those) and averages them.")
check("C04", [Stage("c04", libs=BOTH)],
 "property-based testing: synthesis oracle (images upscaled by a known amount, and noise that was not)",
 "A detailed source (noise, texture, dots), its size, factor 1.25-1.95, filter, quantisation and method are drawn, upscaled by an independent separable resampler, and the first reported size must be the original; or noise of at least 384x384, for which nothing may be reported. Every case is non-trivial; distinct by pixels.",
 "Exploration; the claim is statistical, so it is made only where the margin to the threshold is over six standard deviations.")
check("C05", [Stage("c05", libs=BOTH)],
 "property-based testing: metamorphic relations",
 "An image, method and range and one of 7 relations are drawn; complete result lists of the original and the transformed image are compared position by position, exactly for scaling by powers of two and repetition, else within the share of comparisons that the model shows to lie within rounding. Non-trivial: some positive confidence and at most 2% such comparisons.",
 "Exploration of images up to 64x64; tolerance from an independent model of the spectrum.")
check("C06", [Stage("c06", libs=BOTH)],
 "property-based testing: metamorphic relation between filtered and unfiltered results",
 "An image, method, range, threshold and filter value are drawn; the filtered list must be a subset of the unfiltered one with unchanged entries, lacking exactly the documented positions (or, as a listed finding, exactly those the current formula removes). Non-trivial: a filter value above 0 and at least three candidates in all.",
 "Exploration; any other set of removed positions than the documented one or that of the listed finding fails.")
check("C07", [Stage("c07", libs=BOTH)],
 "property-based testing: generated argument combinations and setter histories against a contract model",
 "Setter histories with boundary, random and non-finite values (effect observed through detection); calls of every function with random subsets of bad or missing arguments, whose error must be one that applies; sizes around and beyond the addressable limit, including products that wrap, and lengths that fit in memory but not in the transform's integers; error codes, method names and near misses. Non-trivial: at least one bad argument or refused value (sizes, tables: every case).",
 "Exploration; where several arguments are bad any applicable error is accepted, as no precedence is documented.")
NATIVE, STILL = {"native": "kiss-native"}, {"still": "kiss-still"}
ENC = dict(flags="-O2 -DWITH_ZLIB -DWITH_JPEG", extra_link="-lz -ljpeg")
check("C08", [Stage("c08", libs=NATIVE)],
 "property-based testing: generated files with known pixels (encoder oracle)",
 "PGM and PFM files are generated with random sizes, maxvals, header whitespace and comments, byte orders, colour formats, frame counts and contents (including non-finite and denormal floats and bytes that look like headers), and read frame by frame and in bulk; or damaged (magic, maxval, missing fields, cuts, later frames of another size) and must be refused after the intact frames. Non-trivial: more than one pixel, or damaged.",
 "Exploration against encoders written for it.")
check("C09", [Stage("c09", libs=NATIVE)],
 "property-based testing: generated files with known pixels (encoder oracle)",
 "Y4M streams are generated over all chroma layouts and depths, odd sizes, header tags in random order, frame parameters, 0-5 frames, chroma bytes that look like frame headers; or damaged (magic, dimensions, layout, depth, frame headers, cuts). Non-trivial: at least two frames of more than one pixel, or damaged.",
 "Exploration against an encoder written for it. Truncated chroma is not asserted on.")
check("C10", [Stage("c10", libs=STILL, **ENC)],
 "property-based testing: generated files with known pixels (encoder oracle)",
 "PNG files of all 15 colour type and depth combinations are generated with random sizes, Adam7 interlacing, row filters, palettes, tRNS, ancillary chunks, IDAT splits and compression levels; or damaged (signature, cuts, bit flips). Non-trivial: more than one pixel, or damaged.",
 "Exploration against an encoder written for it (zlib does the deflate coding).")
check("C11", [Stage("c11", libs=STILL, **ENC)],
 "property-based testing: differential against a plain decode, and known contents at quality 100",
 "JPEG files are encoded with random sizes, quality, subsampling, progressive scans, optimised tables, restart intervals, gray, YCbCr and RGB colour; the reader must give the luma plane that a direct libjpeg decode in the coded colour space gives. Damaged headers, CMYK and noise must be refused. Non-trivial: more than one pixel, or damaged.",
 "Exploration; trusts libjpeg's own decoder.")
AV = " -lavcodec -lavformat -lavutil"
FULL = {"full": "kiss-o3"}
check("C12", [Stage("c12", libs=FULL, flags=ENC["flags"], extra_link=ENC["extra_link"] + AV), Stage("c12", libs={"asan": "kiss-asan"}, flags="-O1 -g -DWITH_ZLIB -DWITH_JPEG -fsanitize=address,undefined -fno-sanitize=function -fno-sanitize-recover=undefined", cxx="clang++", extra_link="-lz -ljpeg" + AV, args=("--facet", "changing"))],
 "property-based testing: generated files with known pixels (encoder oracle), differential against the native readers",
 "Gray PGM (also several concatenated), Y4M mono, AVI (also with audio, whose packets lie between the frames), PNG and TIFF files are read with FFmpeg, PGM (also of 16 bits), GIF (animated), BMP, TIFF (also of 16 bits, and of several pages) and PNG with MagickWand, whatever the file is called, and must give the encoded frames; the native readers must agree. Concatenated PGM files change size or depth at a drawn frame. Lossless H.264 (reordered, delayed frames), FFV1, FFVHUFF, PNG, JPEG-LS and raw video encoded with libavcodec in Matroska, MP4, MOV and NUT, with and without audio packets between, must give every frame, in order. Non-trivial: more than one pixel.",
 "Exploration against encoders written for it; RGB, palette and limited-range content through FFmpeg is not claimed, as swscale compresses its range; H.264, which it decodes as YUV, is therefore compared with a tolerance of 0.1.")
check("C13", [Stage("c13", libs=FULL, flags=ENC["flags"], extra_link=ENC["extra_link"] + AV)],
 "stateful model-based testing of seek and read histories (cursor model)",
 "A valid file (PFM, Y4M, PGM, PNG, JPEG; concatenated PGM, Y4M and AVI, also with audio, H.264 with reordered frames and lossless codecs in Matroska, MP4, MOV and NUT, through FFmpeg, GIF through MagickWand) with up to 8 frames, a route (file, pipe, standard input from either) and a history of up to 15 reads and seeks (0, 1, within, to, past the end, huge; with and without callback, NULL error pointers and NULL buffers) are drawn and run against a cursor; also sparse PFM and Y4M files with frames, or offsets of frames, beyond 31 and 32 bits. Non-trivial: at least one nonzero seek and one successful read (sparse files: frames, or a frame read at an offset, beyond 31 bits).",
 "Exploration against encoders and a cursor model.")
check("C14", [Stage("c14", libs={"full": "kiss-o3", "fftw": "fftw-o3"}, **ENC)],
 "property-based testing: differential between routes",
 "A valid or cut file of any of the five dedicated formats is read frame by frame into the library's, an own or the final buffer, in bulk, by file name, pipe and standard input, with the type given by name, extension in any case, MIME type or reader; contents must be bit-equal. resdetect_file must equal resdetect on the pixels and a step-by-step analysis for drawn methods and parameters. Non-trivial: every reading case; detecting cases that report a size.",
 "Exploration; the reference reading is itself compared with the encoder's pixels.")
check("C15", [Stage("c15", libs={"full": "kiss-o3", "still": "kiss-still", "native": "kiss-native", "noff": "kiss-noff", "nomw": "kiss-nomw"}, flags=ENC["flags"], extra_link=ENC["extra_link"] + " -lavformat -lavutil")],
 "property-based testing against a model of reader selection, with contents that tell the readers apart",
 "One of five builds, a file name (several dots, dots in directories, any case, no extension), an explicit type, MIME type or reader name (also near misses) and contents of a format that need not match are drawn; the reader that the rules select shows in how the contents are read or refused. Missing files by each reader must give the negated errno. Non-trivial: every case.",
 "Exploration; FFmpeg's own extension list is taken from libavformat.")
SANENC = dict(flags="-DSANITIZED -O1 -g -DWITH_ZLIB -DWITH_JPEG -fsanitize=address,undefined -fno-sanitize=function -fno-sanitize-recover=undefined", cxx="clang++", extra_link="-lz -ljpeg")
check("C16", [Stage("c16", libs={"asan": "kiss-asan-still"}, **SANENC), Stage("c16", libs=STILL, **ENC)],
 "fuzzing: mutated and generated files under address and undefined-behaviour sanitizers, with metamorphic oracles",
 "Valid files of the five dedicated formats with 1-6 mutations (bits, bytes, numbers, fields, inserts, erasures, cuts, copies, appended files) and bytes with plausible headers are read frame by frame, in bulk, after a seek and by resdetect_file; under sanitizers, and again over different memory contents, which must not show. Frames that end before the damage must be delivered intact. Non-trivial: every case.",
 "Exploration; faults inside FFmpeg and ImageMagick are out of scope, so malformed input goes to the dedicated readers only.")
check("C22", [Stage("c22", libs=STILL, tools={"RESDET_TOOLS": ("kiss-still", ("resdet",))}, **ENC),
 Stage("c22", libs={"asan": "kiss-asan-still"}, tools={"RESDET_TOOLS": ("kiss-asan-still", ("resdet",))}, env={"C22_SANITIZED": "1"}, args=("--facet", "options"), **SANENC)],
 "property-based testing: generated command lines, differential against the library",
 "A file (detailed PFM sequences, Y4M, any of the five formats, some damaged), a route (name, standard input from file or pipe), a type or reader, and a shuffled, possibly repeated combination of -m -v -r -x -f -o -n -p, with at most one invalid value, are drawn; standard output must be the library's result for the selected frames rendered independently, and the exit status, standard error and progress must follow; again with a command built with sanitizers. Non-trivial: an invalid option, a failure, a selection of frames, or some detected size.",
 "Exploration; a confidence within 1e-6 of a threshold that is not exactly representable may go either way.")
check("C24", [Stage("c24", libs=STILL, tools={"RESDET_TOOLS": ("kiss-still", ("imgread", "profile"))}, **ENC)],
 "property-based testing: round trip through imgread, and a set model of profile's counts",
 "Valid, damaged and missing files of the five formats are given to imgread, whose output is parsed independently and read back; dictionaries of 0-4 generated images (single and multi-frame, some missing) with known sizes in random order, partly found and partly not, are given to profile, whose counts must be the set differences and totals their sums. Non-trivial: more than one pixel or a failure (imgread); both kinds of difference (profile).",
 "Exploration; times printed by profile are only checked to be plausible.")
INJECT = dict(flags=ENC["flags"] + " -fno-builtin", extra_link=ENC["extra_link"] + " -rdynamic -Wl,--no-as-needed -lfftw3f -Wl,--as-needed")
check("C17", [Stage("c17", libs={"still": "kiss-still", "fftw": "fftw-o3-still", "full": "kiss-o3"}, **INJECT)],
 "stateful property-based testing with an interposed allocator",
 "Histories of up to 25 calls (opening, reading, seeking and closing valid, damaged, misnamed, missing files by name, pipe and standard input; bulk reading; detection and analyses with valid and invalid arguments) run with every allocation made on the library's behalf tracked; failing calls may leave nothing behind, and after releasing everything nothing may be left. Repeated use of FFmpeg and MagickWand may not grow. Non-trivial: failing and succeeding calls in one history (histories); every repetition case.",
 "Exploration; in the FFTW build only allocations by libresdet itself and FFTW buffers and plans are tracked; for FFmpeg and MagickWand, whose caches are their own, only growth with every repetition counts.")
check("C18", [Stage("c18", libs={"still": "kiss-still", "fftw": "fftw-o3-still"}, tools={"RESDET_TOOLS": ("kiss-still", ("resdet",))},
                    need=(lambda env: env.update(FAILALLOC=vbuild.shared("failalloc.c")),), **INJECT)],
 "fault-injection property-based testing with an interposed allocator",
 "A call (detection from memory or file, bulk or frame-wise reading of any of the five formats by name or standard input, parameters) is drawn; its allocations are counted, and each of them (a sample of 24, thorough 60, if there are more) fails alone or with all later ones; or the steps of an analysis fail and are repeated at drawn points; or the same is done to the resdet command. Errors, outputs, remaining memory and files, and the results of repeating the call are compared with a run without failure. Non-trivial: at least one failure hit.",
 "Exploration, exhaustive over the allocations of most drawn calls. Failures inside libpng, libjpeg and stdio may be reported as any error; those inside FFTW, FFmpeg and ImageMagick are not injected, as they abort or belong to those libraries.")
check("C19", [Stage("c19", libs=STILL, **INJECT), Stage("c19f", libs=FULL, flags=ENC["flags"] + " -fno-builtin", extra_link=ENC["extra_link"] + " -rdynamic")],
 "fault-injection property-based testing with interposed file streams",
 "A valid file of any of the five formats is read frame by frame, in bulk, after a seek, or by resdetect_file, from a stream (file or standard input) whose reads fail for good or once, or end, at a drawn byte (any, or around the boundaries of frames and headers), are split into short reads, cannot seek, or whose seeks fail from some point on; or fopen fails. What is delivered must be the encoded frames, frames before the failure must be there, and a failure may not look like a normal end; likewise with FFmpeg, whose read() calls on concatenated PGM, Y4M and AVI files fail as drawn. Non-trivial: the failure was reached, or reads were short, or seeking impossible.",
 "Exploration; streams are glibc's fopencookie streams. JPEG pixel data after the failure is libjpeg's fill, which is accepted; chroma cut off at the end of a seekable Y4M file may or may not be noticed. Frames that FFmpeg itself drops before a failure are not claimed.")
check("C20", [Stage("c20", libs={"tsan": "kiss-tsan-still"}, cxx="clang++", flags="-O1 -g -DWITH_ZLIB -DWITH_JPEG -fsanitize=thread", extra_link="-lz -ljpeg"),
 Stage("c20", libs={"kiss": "kiss-still", "fftw": "fftw-o3-still"}, env={"C20_PLAIN": "1"}, **ENC)],
 "property-based testing of concurrent programs under ThreadSanitizer, with the sequential run as oracle",
 "For 2-6 threads programs of 1-4 operations (detection, analyses, image reading and seeking, bulk reading, detection of files, parameters, tables; sizes, images and files often shared or repeated), whose calls are interleaved as drawn, are generated and run concurrently in a fresh process, then one after another; all outputs must be bit-equal and ThreadSanitizer silent; again without it on both transform backends (FFTW prepared as documented). Non-trivial: more calls than threads.",
 "Exploration of schedules as they come; libpng, libjpeg and FFTW are not instrumented.")
check("C26", [Stage("c26", libs={"kiss": "kiss-still", "fftw": "fftw-o3-still"}, **ENC)],
 "property-based testing of call histories: metamorphic comparison with a fresh process",
 "Histories of 2-10 operations (detection, analyses, image reading and seeking, bulk reading, detection of files, parameters, tables; valid, damaged and missing files, non-finite images; sizes, images and files often repeated with other parameters) with interleaved calls run in a fresh process; each operation is then run alone in another, and all outputs must be bit-equal; nothing may be printed and no file or input image changed. Every case is non-trivial; distinct by the operations.",
 "Exploration; both transform backends, dedicated readers only (FFmpeg logs to standard error).")

def locale_env(env):
    env["LOCPATH"], names = vbuild.locales("de_DE.UTF-8 tr_TR.ISO-8859-9 tr_TR.UTF-8 ps_AF.UTF-8 ja_JP.SJIS".split())
    env["C27_LOCALES"] = " ".join(names + ["C.UTF-8"])
check("C27", [Stage("c27", libs={"kiss": "kiss-still", "fftw": "fftw-o3-still"}, need=(locale_env,), flags=ENC["flags"] + " -fno-builtin", extra_link=ENC["extra_link"] + " -rdynamic")],
 "property-based testing: metamorphic comparison between plain and unusual process environments, with invariants over the process state",
 "Files of the five dedicated formats are read, named in any case, under locales with other decimal separators, case rules and encodings, against their encoded pixels; operations (detection, analyses, reading, seeking, bulk reading, detection of files, parameters, tables) run in a fresh process in the C locale, and in another with a drawn locale (of the process or thread), working directory (also a removed one), environment variables (any the library asks for, and other answers from clocks, random numbers and process identities), closed standard input, few allowed files, small stack (also with very long rows), standard input as the file, blocked or handled signals, umask and image alignment; all outputs must be bit-equal, and locale, directory, umask, signal handlers and mask, floating-point modes, variables, limits and descriptors must be as before. Every case is non-trivial.",
 "Exploration; dedicated readers only. Messages of system errors are the C library's own and may be translated.")

C21_BUILDS = """kiss-native fftw-native
 kiss-cF-iF-native kiss-cF-iL-native kiss-cD-iD-native kiss-cD-iF-native kiss-cD-iL-native kiss-cL-iL-native
 fftw-cF-iF-native fftw-cF-iL-native fftw-cD-iD-native fftw-cD-iF-native fftw-cD-iL-native fftw-cL-iL-native
 kiss-r5-native fftw-r20-native kiss-r1-native fftw-cD-r31-native
 kiss-p1-native kiss-p100-native fftw-p5000-still kiss-p70000-still kiss-p3000 fftw-p5000000000-native kiss-p4294967295-native kiss-p400-r7-cD-native
 kiss-noPGM-native kiss-noPFM-native fftw-noY4M-native kiss-noPGM-noPFM-noY4M-native kiss-noPGM-still kiss-noff-nomw-nopng kiss-still-nojpeg kiss-noff-noPGM kiss-nomw-nopng-nojpeg
 kiss-s+abc-native fftw-s.dev5-r9-native""".split()
check("C21", [Stage("c21", libs={b: b for b in C21_BUILDS}, options=True, **ENC)],
 "property-based testing over build configurations: reference model, differential against a plain build, encoder oracle",
 "One of 37 builds (coefficient and intermediate precisions with either FFT, default ranges, pixel limits around and beyond 32 bits, reader sets, version suffixes) and an input are drawn: images whose measures must be the model's at that precision; images without given range, which must give what that range gives in a plain build; sizes at, around and beyond the limit for every entry point, files of every reader, sequences read in bulk; files of present and absent readers by name, extension and MIME type; tables. A configuration that does not build, where the plain ones do, is a violation. Non-trivial: some positive confidence and at most 2% near ties (precision); some detected size (ranges); every case (others).",
 "Exploration; builds use the repository's Makefile with the configuration that configure would write.")

def python_env(env):
    L = vbuild.lib("kiss-native")
    env["PBT_ENGINE"], env["RESDET_SO"], env["LD_LIBRARY_PATH"] = vbuild.engine(), L.so, L.dir
    env["PYTHONPATH"] = os.path.join(L.dir, "bindings/python")
check("C23", [Stage("c23.py", libs=NATIVE, kind="py", cxx="/opt/resdet-venv/bin/python", need=(python_env,))],
 "property-based testing: differential between the Python bindings and direct calls of the library, stateful histories",
 "Images in every accepted form (lists, arrays, pointers, buffers, NumPy arrays of 17 dtypes in 9 memory layouts, Pillow images of 10 modes, animated GIF, TIFF and PNG from any frame), with or without methods and parameters, are detected by the bindings and by direct calls; analyses run through histories; PGM, PFM and Y4M files of generated contents are opened by str, Path, DirEntry and other PathLike names (also not UTF-8) and read, indexed, iterated, sought; failing files, refused parameter names and values must raise the corresponding exception; buffers go through life cycles; repeated calls may not grow memory. Non-trivial: a failure or some detected size (detect); compared results (analysis); every case (others).",
 "Exploration; the expected pixels of colour Pillow images are Pillow's own conversion.")

def js_env(env):
    env["PBT_ENGINE"], env["RESDET_JS"] = vbuild.engine(), vbuild.wasm()
check("C25", [Stage("c25.py", kind="py", need=(js_env,))],
 "property-based testing: differential between the JavaScript bindings and direct calls of the library in WebAssembly, stateful histories, injected allocation failures",
 "The library is compiled to WebAssembly with a small C library whose allocator counts, fails and grows on request, behind a module with Emscripten's interface; the bindings run on it in node. Images (also parts of larger arrays, non-finite, of no or excessive size), methods and parameter objects (valid, refused, unknown, numbers beyond the C types) are detected by the bindings and by direct calls; analyses run through interleaved histories with garbage collection; allocations fail at drawn points; memory grows with every allocation or for large images; images and result lists are up to 99000 long. Results, error codes and messages must agree, and the heap must hold exactly what live analyses hold. Non-trivial: an error or some detected size (detect); compared results (analysis); an allocation failed (memory); every case (growth, extents, tables).",
 "Exploration; Emscripten itself is not available here: cwrap, getValue, UTF8ToString and HEAPF32 are reimplemented as documented.")
check("C28", [Stage("c28", libs={"kiss": "kiss-still", "fftw": "fftw-o3-still", "full": "kiss-o3"}, tools={"RESDET_TOOLS": ("kiss-still", ("resdet", "imgread"))},
                    need=(lambda env: env.update(PEAKALLOC=vbuild.shared("peakalloc.c")),), flags=ENC["flags"] + " -fno-builtin", extra_link=ENC["extra_link"] + AV + " -rdynamic")],
 "property-based testing: metamorphic relation between the memory used for long and short sequences and histories, with an interposed allocator",
 "PFM and Y4M sequences of 120-1600 frames (forms mixed, notes in frame headers) are read and sought through by name, pipe and standard input, into the library's or an own buffer; FFmpeg reads Y4M, PGM, AVI and encoded videos of 150-350 frames; resdetect_file, resdet and imgread work on such sequences and their first few frames; an analysis takes 60-260 images, refused ones and queries for results between them; all formats are read in bulk. What is held after every call and the most held during it may not exceed what the first frames needed by more than 16 bytes per frame (FFmpeg: a quarter of a frame's bytes) and 8 KiB (commands 16, FFmpeg 64); bulk reading four times the frames. Non-trivial: every case (bulk: more than one pixel).",
 "Exploration; MagickWand, which loads whole sequences itself, is not claimed.")
