#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and in checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vbuild import VERIF

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

prop("C01", "Confidences are the method's documented measure of the image spectrum",
 "For every finite grayscale image or image sequence, detection method and search range, the confidence reported for a candidate width (height) is exactly the share that the method defines on the image's 2-D DCT about that column (row): opposite-signed pairs of neighbours at equal distance within the range (sign); pairs with opposite signs where the lower one is at most twice the upper one's magnitude (mag); the sign share where the summed magnitudes dip at the candidate between two similar flanks and zero elsewhere (orig); monotone three-element zero crossings (zerox). Sequences report the mean over their images, and both transform backends give these values, up to comparisons that lie within floating-point rounding.",
 ["inputs", "configurations"], "all image contents, sizes, ranges, methods, numbers of images, and both FFT backends",
 "The tests compare confidences for a 4x4 checkerboard and one real photograph only; no other size, range or spectrum is compared with anything.",
 ["lib/methods.c", "lib/analysis.c", "lib/transform/fftw.c", "lib/transform/kiss_fft.c", "lib/kissfft/kiss_fft.c", "lib/kissfft/kiss_fftr.c"],
 [("per-method measures", "lib/methods.c detect_method_*"), ("DCT", "lib/transform/*.c resdet_transform"), ("accumulation and mean", "lib/analysis.c")], ["resdetect", "resdet_analysis_results"])

prop("C02", "Result lists: base entry last, sorted, in bounds, exactly the thresholded set",
 "Every successful detection returns, per requested dimension, a list whose last entry is the input dimension with confidence -1 and whose other entries are distinct positions at least the search range (1 for zerox) away from both ends, with confidences in 0-1 in descending order. At threshold 0 every such position is listed, and at any other threshold exactly those whose confidence is not below it, with unchanged confidences; an unset threshold is the method's advertised default. Either dimension can be left out with NULL without affecting the other, and results can be fetched any number of times.",
 ["inputs", "histories"], "all images, sizes (down to 1x1), ranges (up to SIZE_MAX), thresholds including ones equal to an occurring confidence, and combinations of requested outputs",
 "The tests look at a handful of lists of 1-3 entries; order, bounds, completeness and exact threshold selection over all inputs are not examined.",
 ["lib/analysis.c", "lib/resdetect.c", "lib/methods.c", "doc/libresdet.md"],
 [("candidate bounds", "lib/analysis.c setup_dimension"), ("selection and sorting", "lib/analysis.c generate_dimension_results")], ["resdetect", "resdet_analysis_results"])

prop("C03", "Sequential analysis averages exactly the accepted images, in any history",
 "After any history of calls on any number of simultaneously live analyses, an analysis's results are those of the mean of the confidences each of its accepted images has alone, whatever the order, repetition or number of images, and equal those of one detection call over the same images. Images rejected with an error (non-finite pixels, NULL) leave no trace, results may be taken at any point without disturbing what follows, and parameters are copied at creation. Results before the first accepted image are refused with the no-images error.",
 ["histories", "inputs"], "all sequences of create, analyze (valid and rejected images), results, destroy over several concurrent analyses; sequences of up to 70000 images",
 "The tests run single fixed sequences of two identical frames; no test interleaves analyses, injects rejected images or compares with a model.",
 ["lib/analysis.c", "lib/resdetect.c", "doc/libresdet.md"],
 [("accumulators and image count", "lib/analysis.c resdet_analyze_image, resdet_analysis_results"), ("parameter copy", "lib/analysis.c resdet_create_analysis")], ["resdet_analysis_results"])

prop("C04", "Upscaled images reveal their original size; unscaled noise reveals none",
 "For detailed images upscaled by a conventional separable filter (bilinear, bicubic, Lanczos, Mitchell) in one or both dimensions by factors between about 1.2 and 2, detection with the default method and parameters ranks the original width/height first, for float data and for 8-bit data without clipping. For images of white noise of at least 384 pixels in either dimension that were not resized, default detection reports nothing but the given size, and a dimension that was not resized is not reported as resized.",
 ["inputs"], "source sizes, scale factors, filters, quantisation and noise contents",
 "The tests use one pre-made image that was resized once; the guarantee is about every source, factor and filter.",
 ["lib/methods.c", "lib/analysis.c", "README.md"],
 [("odd-extension detection", "lib/methods.c"), ("default thresholds", "lib/methods.c methods[]")], ["resdetect"])

prop("C05", "Detection is invariant under transposition, scaling, negation and flips",
 "Transposing an image swaps its width and height results; multiplying all pixels by a power of two (without leaving the normal float range) or by any other nonzero constant, negating them, or repeating the image as a sequence leaves them unchanged for every method, as does mirroring the image in either direction for all methods but zerox, up to comparisons that lie within floating-point rounding. Detection never modifies the caller's pixels.",
 ["inputs"], "images of all kinds and shapes, all methods, ranges and both backends",
 "No test relates two detections to each other.",
 ["lib/methods.c", "lib/analysis.c", "lib/transform/fftw.c", "lib/transform/kiss_fft.c"],
 [("separable transform and symmetric use of both dimensions", "lib/analysis.c resdet_analyze_image"), ("homogeneous measures", "lib/methods.c")], ["resdetect"])

prop("C06", "The compression filter only removes the documented compression positions",
 "With a compression filter value v > 0, the results are those without the filter minus the positions at intervals of the given size / 2^v, with unchanged confidences and order; the base entry always stays, v = 0 filters nothing, and a threshold combines with the filter as a plain intersection. Values up to 31 are accepted and never invent, duplicate or alter an entry.",
 ["inputs"], "sizes, ranges, thresholds, methods, filter values 0-31 and sequences",
 "One test counts the entries of one 4-pixel image at one filter value.",
 ["lib/analysis.c", "lib/util.c", "doc/libresdet.md"],
 [("filter interval", "lib/analysis.c generate_dimension_results")], ["resdetect", "resdet_analysis_results"])

prop("C07", "Parameters, arguments and errors follow the documented contract",
 "Setters accept exactly a range >= 1, a threshold in 0-1 and a filter value 0-31, report a parameter error otherwise, and a refused value changes nothing; missing mandatory arguments give the parameter error, zero dimensions the invalid-image error, zero images the no-images error, and oversized dimensions the size-limit error. Every failing call returns NULL or nulled outputs with zero counts and, through an error pointer that may be NULL, an error code for which a message exists, while success sets it to OK. Messages exist for exactly the codes 0 to the advertised maximum and negated errno values, and method lookup finds exactly the listed methods, the first being the default.",
 ["inputs", "histories"], "argument combinations including NULLs, extreme and non-finite values, dimension products around overflow, and sequences of setter calls",
 "Tests probe single bad arguments one at a time with fixed values; combinations, boundary values and setter histories are not covered.",
 ["lib/util.c", "lib/analysis.c", "lib/resdetect.c", "lib/image.c", "lib/resdet_internal.h", "doc/libresdet.md", "doc/APIChanges.md"],
 [("validation", "lib/util.c resdet_parameters_set_*"), ("size limit", "lib/resdet_internal.h resdet_dims_exceed_limit"), ("error strings", "lib/util.c")], ["all public functions"])

prop("C08", "PGM and PFM files decode to their exact pixels",
 "Reading any valid binary PGM (maxval 1-255, any header whitespace, leading comments) yields value/maxval for every pixel in row order, and any PFM yields its floats in top-to-bottom order, with either byte order, grayscale as is and colour as the mean of the three channels, a PFM file being any number of such frames one after another, mixing formats and byte orders. Dimensions are as in the header; files with another magic, a maxval outside 1-255, missing header fields, too few pixels or a later frame of another size are refused with the invalid-image error, after the preceding frames were delivered intact.",
 ["inputs"], "header layouts, sizes, maxvals, byte orders, pixel values (including NaN, infinities, denormals), frame counts, truncation points",
 "Tests read one 4x4 checkerboard per format and a few broken headers.",
 ["lib/image/pgm.c", "lib/image/pfm.c", "lib/image.c"],
 [("header parsing and pixel conversion", "lib/image/pgm.c, lib/image/pfm.c")], ["resdet_read_image", "resdet_read_image_frame"])

prop("C09", "Y4M streams decode to their exact luma planes",
 "Reading any valid YUV4MPEG2 stream yields, for every frame, luma sample / (2^depth - 1) in row order, for depths 8-16 (little-endian two-byte samples above 8) and every supported chroma layout (mono, 420 variants, 411, 422, 444, 444alpha), with any header tags in any order, default 420, odd dimensions, and frame header parameters, skipping exactly the chroma and alpha data of each frame. Streams with a bad magic, missing or zero dimensions, an unknown chroma layout, a depth outside 8-16, bad frame headers or truncated luma are refused with the invalid-image error after delivering the preceding frames intact.",
 ["inputs"], "all chroma layouts and depths, odd sizes, header tag orders, frame parameters, frame counts, truncation points",
 "Tests read two sample streams (420 8-bit and 16-bit) of even size.",
 ["lib/image/y4m.c", "lib/image.c"],
 [("plane size computation", "lib/image/y4m.c y4m_reader_open"), ("frame reading", "lib/image/y4m.c")], ["resdet_read_image", "resdet_read_image_frame"])

prop("C10", "PNG files of every colour type decode to the mean of their channels",
 "Reading any valid PNG - grayscale 1 to 16 bits, RGB, palette, with or without alpha or transparency chunks, interlaced or not, any filter types and chunk split - yields for every pixel the mean of its colour channels over full scale, ignoring alpha, in row order. 16-bit samples contribute their high byte, low-bit-depth samples are scaled to the full range, and files with a wrong signature, truncated or corrupt data are refused with the invalid-image error and never half-delivered as a success.",
 ["inputs"], "colour types, bit depths, interlacing, palettes, tRNS, filters, sizes, corruption points",
 "Tests read one small PNG and check two broken ones.",
 ["lib/image/libpng.c"],
 [("libpng transformations", "lib/image/libpng.c libpng_reader_open"), ("channel mean", "lib/image/libpng.c libpng_reader_read_frame")], ["resdet_read_image"])

prop("C11", "JPEG files decode to exactly the luma plane a JPEG decoder yields",
 "Reading any valid baseline or progressive JPEG, grayscale or YCbCr colour, of any size, quality, subsampling and restart interval, yields the decoder's grayscale (luma) sample / 255 for every pixel in row order, so that gray contents survive within the coding error at high quality. Files that are not JPEG, end within the headers, or use a colour model that cannot be converted are refused with the invalid-image error.",
 ["inputs"], "sizes, quality, subsampling, progressive/baseline, restart markers, colour and gray contents, corruption",
 "Tests read one small JPEG.",
 ["lib/image/libjpeg.c"],
 [("libjpeg decoding to grayscale", "lib/image/libjpeg.c")], ["resdet_read_image"])

prop("C12", "The general-purpose readers agree with the native ones on gray content",
 "For lossless files coded in 8-bit gray, the FFmpeg reader (PGM, PNG, TIFF, Y4M) and the MagickWand reader (PGM, PNG, TIFF, BMP, GIF) deliver the same dimensions, number of frames, frame order and pixel values (within rounding of the conversion to float) as were encoded, and so agree with the native readers where both can read the file. Of videos, also with delayed and reordered frames and other streams in between, the FFmpeg reader delivers every frame of the video in presentation order. The FFmpeg reader refuses a frame whose size differs from the announced one with the invalid-image error, without overrunning the buffer, and follows changes of pixel format.",
 ["inputs"], "PGM, PNG, TIFF, BMP, GIF and Y4M contents, sizes and frame counts; files whose frame size or depth changes",
 "Tests read one 4x4 sample of each format.",
 ["lib/image/ffmpeg.c", "lib/image/magickwand.c"],
 [("scaling to float gray", "lib/image/ffmpeg.c ffmpeg_reader_read_frame"), ("pixel export", "lib/image/magickwand.c")], ["resdet_open_image_with_reader", "resdet_read_image_frame"])

prop("C13", "Seeking and reading frames behave as a cursor, for every reader",
 "For every reader and every history of seek and read calls on an open image, the handle behaves as a cursor over its frames: reading delivers the frame at the cursor and advances by one, seeking by k advances by k, and both return false without error once no frame is left. Seeking by 0 always succeeds and changes nothing, the progress callback is called with 1, 2, ... and the given context for each frame passed, and a still image counts as one frame.",
 ["histories", "inputs"], "all sequences of seeks and reads, frame counts, readers, seekable files and pipes, mixed frame formats",
 "Tests do one seek and one read on a few two-frame files.",
 ["lib/image.c", "lib/image/pgm.c", "lib/image/pfm.c", "lib/image/y4m.c", "lib/image/libjpeg.c", "lib/image/libpng.c", "lib/image/magickwand.c", "lib/image/ffmpeg.c"],
 [("per-reader seek_frame", "lib/image/*.c"), ("skipping", "lib/image.c resdet_fskip")], ["resdet_seek_frame", "resdet_read_image_frame"])

prop("C14", "Every route from file to result gives the same answer",
 "For any readable image file, reading in bulk, frame by frame with any buffer, by file name, through a pipe or standard input, and with the type given by extension, MIME type or file name, deliver the same dimensions, frames and pixels; and detecting from the file in one call equals detecting from the pixels read, and a step-by-step analysis of its frames, for all methods and parameters. Standard input remains open and the file untouched.",
 ["inputs", "histories"], "formats, frame counts, routes, methods and parameters",
 "Tests check each route on its own sample with fixed expectations.",
 ["lib/image.c", "lib/resdetect.c", "lib/image/*.c"],
 [("bulk reading", "lib/image.c resdet_read_image"), ("file detection", "lib/resdetect.c resdetect_file")], ["resdet_read_image", "resdetect_file", "resdetect"])

prop("C15", "The reader chosen follows the type, extension and reader name rules",
 "A file is opened with the reader for its explicit type (extension or MIME type) when given and for its file name's last extension otherwise, case-insensitively for extensions, with the dedicated readers taking precedence over the general ones, and a named reader is used whatever the file is called, case-insensitively; the reader list has one distinct name per built-in reader and each listed name can be selected. An unknown reader name, or in builds without general readers an unknown type, gives the unsupported-format error; missing files give the negated errno.",
 ["inputs", "configurations"], "file names, types in any case, MIME types, reader names, contents that contradict the type, reader sets",
 "Tests open a few files with matching types; precedence, case and conflicts are not covered.",
 ["lib/image.c", "lib/image_readers.c"],
 [("reader lookup", "lib/image.c resdet_open_image, resdet_open_image_with_reader"), ("order and names", "lib/image_readers.c")], ["resdet_open_image", "resdet_open_image_with_reader", "resdet_list_image_readers"])

prop("C16", "Malformed image input is never a memory error, hang or bogus success",
 "For arbitrary bytes given as any file type with a dedicated reader (PGM, PFM, Y4M, PNG, JPEG), every reading and detecting call returns without memory errors, undefined behaviour, uninitialised pixels or hangs, either delivering pixels for the whole frame or failing with a defined error and nulled outputs. Frames delivered before the damage are those of the undamaged file for the native formats.",
 ["inputs"], "arbitrary byte strings, and mutations of valid files of the five formats",
 "A few hand-made broken headers are tested, without sanitizers.",
 ["lib/image.c", "lib/image/pgm.c", "lib/image/pfm.c", "lib/image/y4m.c", "lib/image/libjpeg.c", "lib/image/libpng.c"],
 [("size limits and header validation", "lib/image.c open_image, lib/image/*.c")], ["resdet_open_image", "resdet_read_image_frame", "resdetect_file"])

prop("C17", "No call leaks memory or file descriptors, whether it succeeds or fails",
 "After any sequence of API calls whose returned objects have been released as documented, all memory allocated by the library has been freed exactly once and every file it opened closed exactly once, including on error paths (missing, malformed, truncated and unsupported files, invalid parameters, rejected images). Standard input is never closed.",
 ["histories", "inputs"], "call sequences over valid and invalid files and arguments",
 "Tests run without leak checking.",
 ["lib/analysis.c", "lib/image.c", "lib/resdetect.c", "lib/image/*.c", "lib/transform/*.c"],
 [("close and destroy paths", "lib/image/*.c *_close, lib/analysis.c resdet_destroy_analysis")], ["allocator and file interposition"])

prop("C18", "Any allocation failure yields the out-of-memory error and a clean state",
 "If any one allocation, or every allocation from some point on, fails during any API call, the call reports out of memory (or the NULL it documents), returns nulled outputs, leaks nothing, and leaves the library usable: a call repeated afterwards succeeds with the same results as if nothing had happened. Failures inside a decoding library or stdio are reported as an error or survived with the right result. A failed step of an analysis does not change what the analysis later reports, and the resdet command fails with a message or prints the right result.",
 ["fault_sequences", "inputs"], "every allocation point of every API function on generated workloads, single and persistent failures",
 "No test injects failures.",
 ["lib/analysis.c", "lib/image.c", "lib/resdetect.c", "lib/methods.c", "lib/transform/fftw.c", "lib/transform/kiss_fft.c", "lib/image/*.c", "src/resdet.c"],
 [("error paths", "all allocation sites")], ["allocator interposition"])

prop("C19", "Read errors are reported, never mistaken for image data or end of input",
 "If the operating system fails, or ends, a read of a PGM, PFM, Y4M, PNG or JPEG file at any point, calls that need the missing data fail with an error or, for JPEG pixel data only, use the decoder's documented fill, and frames complete before that point are delivered unchanged. A failing read is never reported as a normal end of the sequence, and no descriptor or memory is lost. PGM, Y4M and AVI files read through FFmpeg whose reads fail likewise give an error, or every frame, but never a shorter sequence as if it were complete.",
 ["fault_sequences", "inputs"], "every byte position of generated files as the position of a read error or a short file, for files and pipes",
 "No test injects read errors.",
 ["lib/image/pgm.c", "lib/image/pfm.c", "lib/image/y4m.c", "lib/image/libpng.c", "lib/image/libjpeg.c", "lib/image/ffmpeg.c", "lib/image.c"],
 [("return value checks of stdio calls", "lib/image/*.c"), ("error or end in read_frame", "lib/image/ffmpeg.c")], ["stream interposition"])

prop("C20", "Concurrent use of separate objects neither races nor changes results",
 "Calls made concurrently from several threads on separate analyses, images and parameter objects do not race and give exactly the results of the same calls made alone, for native readers and the built-in FFT; methods, readers, messages and other tables may be read by all of them at once.",
 ["schedules", "histories"], "thread counts, per-thread programs over all APIs, schedules as they come under ThreadSanitizer",
 "The tests are single-threaded.",
 ["lib/analysis.c", "lib/methods.c", "lib/image.c", "lib/image_readers.c", "lib/util.c", "lib/transform/kiss_fft.c", "lib/kissfft/kiss_fft.c"],
 [("no mutable global state", "lib/*.c")], ["all public functions"])

prop("C21", "Build options change only what they document",
 "Builds with any coefficient and intermediate precision, either FFT backend, and any set of readers give the same results up to rounding; a configured default range is the one reported and used when none is given; a configured pixel limit admits images (and image sequences read in bulk) up to exactly that many pixels and refuses larger ones with the size-limit error everywhere; readers left out are absent from the list and refused, the others unaffected; and the version suffix is appended to the version.",
 ["configurations", "inputs"], "precision pairs, backends, reader sets, default ranges, pixel limits, images",
 "The test suite runs on the two default configurations only.",
 ["lib/precision.h", "lib/resdet_internal.h", "lib/image_readers.c", "Makefile", "lib/transform/fftw.c", "lib/transform/kiss_fft.c"],
 [("precision macros", "lib/precision.h"), ("PIXEL_MAX, DEFAULT_RANGE", "lib/resdet_internal.h")], ["resdetect", "resdet_default_range", "resdet_list_image_readers", "resdet_libversion"])

prop("C22", "The resdet command prints and returns what the library computes",
 "For every input and option combination, the resdet command's output at each verbosity is the library's result for the same file, type or reader, method, range, threshold, filter, frame offset and frame count, formatted as documented, and its exit status is 0 on success and nonzero on any error or invalid option, which is explained on standard error without results on standard output. With -v0 it prints nothing and succeeds exactly when upscaling was detected in either dimension.",
 ["inputs", "configurations"], "option combinations, files of all formats, multi-frame inputs, standard input, invalid options",
 "The shell tests run a few option combinations on one image.",
 ["src/resdet.c"],
 [("option parsing and printing", "src/resdet.c main")], ["stdout, stderr and exit status of resdet"])

prop("C23", "The Python bindings give the C library's answers for every accepted data type",
 "For lists, float arrays, raw pointers, image buffers, file paths, NumPy arrays (2-D or 3-D, of any numeric dtype and memory layout) and Pillow images (including multi-frame ones), detection and sequential analysis through the Python bindings return exactly the C library's results for the same pixels, method and parameters; images read through the bindings are indexed and shaped as height x width. Invalid parameter names or values and failing calls raise the corresponding exception instead of being altered or ignored, and nothing leaks.",
 ["inputs", "histories"], "shapes, dtypes, layouts, parameters, methods, frame counts",
 "The Python tests use square 4x4 data and one parameter set.",
 ["bindings/python/resdet.py", "bindings/python/resdet_numpy.py", "bindings/python/resdet_PIL.py", "bindings/python/libresdet_api.py"],
 [("conversion of images, parameters and results", "bindings/python/*.py")], ["Python API"])

prop("C24", "The imgread and profile tools report exactly what the library reads and finds",
 "imgread writes every frame of its input, in order, as a grayscale PFM of the same dimensions and values that reads back identically, and fails with a message when its input cannot be read or its output cannot be written completely. profile reports for each image and method the number of detected sizes that are not listed as known (+) and of known sizes not detected (-), and their sums as totals, for known sizes in any order; it reports a dictionary it cannot read.",
 ["inputs"], "image contents, sizes, frame counts, formats; dictionaries of known sizes",
 "No test runs these tools.",
 ["src/imgread.c", "src/profile.c"],
 [("PFM writing", "src/imgread.c"), ("list comparison", "src/profile.c diffres")], ["output files, stdout and exit status of imgread and profile"])

prop("C25", "The JavaScript bindings give the C library's answers",
 "Detection and sequential analysis through the JavaScript bindings return exactly the results of the underlying library for the same Float32Array, method and parameters, list its methods with their thresholds, version and default range, and throw an error carrying the library's code and message whenever a call or any one of the given parameters is refused. No call leaks memory of the module's heap.",
 ["inputs", "histories"], "images, sequences, methods, parameter objects, call histories",
 "The JavaScript tests need Emscripten and use one 2x2 image.",
 ["bindings/emscripten/resdet.mts", "bindings/emscripten/exported_functions.txt"],
 [("marshalling", "bindings/emscripten/resdet.mts")], ["JavaScript API"])

prop("C26", "Every call's outcome depends only on its arguments, not on earlier calls",
 "Whatever API calls have been made before in the process - on other images, sizes, methods, parameters, readers, failing or succeeding, with objects still open or released - a call returns bit for bit what it returns as the first call of a fresh process, and does not alter its input image, the caller's files or the contents of objects it was not given. Nothing is printed to standard output or standard error by the library.",
 ["histories", "inputs"], "random call histories over detection, image reading and parameters, each call replayed alone in a fresh process",
 "Each test runs short fixed call sequences with fixed expectations.",
 ["lib/*.c", "lib/image/*.c", "lib/transform/*.c"],
 [("no hidden state", "lib/*.c")], ["all public functions"])

prop("C27", "Calls depend only on their arguments and leave the process as it was",
 "What any library call returns does not depend on the locale of the process or thread, the working directory (for absolute names), environment variables, the umask, signal masks and handlers, the stack of the calling thread, unrelated descriptors or the alignment of the image; images and PFM headers read alike and reader names and extensions are matched regardless of ASCII case in every locale. No call changes any of these, the floating-point modes, signal handlers or resource limits, nor does the library print anything of its own.",
 ["configurations", "inputs"], "locales with other decimal separators, case rules and encodings; environments; operations on files and images",
 "The tests run in the C locale in one environment.",
 ["lib/image.c", "lib/image/pfm.c", "lib/image/pgm.c", "lib/image/y4m.c", "lib/analysis.c", "lib/util.c", "doc/libresdet.md"],
 [("header parsing", "lib/image/*.c"), ("resdet_strieq", "lib/image.c")], ["all public functions"])

prop("C28", "Memory use does not grow with the length of a sequence or analysis",
 "Reading or seeking through a PFM or Y4M sequence, or a video through FFmpeg, frame by frame, detecting a whole file, analysing any number of images with one analysis and querying its results, and running the resdet and imgread commands take memory for a bounded number of frames: neither what is held after a frame nor the peak during a call grows with the number of frames or images already seen, apart from a few bytes each. Reading in bulk, which is documented to need memory for all frames, needs a small multiple of that.",
 ["histories", "inputs"], "sequences of up to 1600 frames in all forms of the formats, by file, pipe and standard input; histories of reads and seeks, of accepted and refused images",
 "The tests read sequences of a few frames and do not measure memory.",
 ["lib/resdetect.c", "lib/image.c", "lib/analysis.c", "lib/methods.c", "lib/image/pfm.c", "lib/image/y4m.c", "lib/image/ffmpeg.c", "src/resdet.c", "src/imgread.c", "doc/libresdet.md"],
 [("iterative reading", "lib/image.c resdet_read_image_frame"), ("accumulated measures", "lib/analysis.c resdet_analyze_image")], ["allocator interposition"])

def main():
    import checks
    out = os.path.join(VERIF, "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="python3 tools/setup.py",
             checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py %s --tier quick" % p["id"],
                          thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                          evidence_file="evidence/%s.json" % p["id"],
                          technique=checks.CHECKS[p["id"]]["technique"], level=checks.CHECKS[p["id"]].get("level", "exploration"),
                          level_note=checks.CHECKS[p["id"]]["note"]) for p in P if p["id"] in checks.CHECKS],
             not_applicable=[dict(property=p["id"], reason=checks.NOT_APPLICABLE.get(p["id"], "No check is built for it yet.")) for p in P if p["id"] not in checks.CHECKS],
             notes="No hooks: every check drives the public API, the tools and the bindings of builds made from /repo's current sources. See DESIGN.md.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    print(len(P), "properties,", len(m["checks"]), "checks")

if __name__ == "__main__":
    main()
