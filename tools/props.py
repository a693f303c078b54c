#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, obs, api=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=hook)))

# --- concurrency -----------------------------------------------------------------------------------------------
prop("C01", "Multi-threaded rendering equals synchronous rendering under every schedule",
 "A rendering context created with any number of worker threads produces, once it has been flushed synchronously or ended, exactly the pixels that the same sequence of calls produces on a synchronous context, no matter how the threads are scheduled and where the caller flushes. Every flush and end returns, and no memory is accessed by two threads without synchronization.",
 ["schedules", "programs", "configurations"],
 "all interleavings of the user thread and the workers (up to a preemption bound), futex and mutex/condvar synchronization, spurious wake-ups, short drawing programs over every kind of deferred command, 1..3 workers and thread-start failures, every flush placement",
 "bl_test_context_mt compares a few free-running executions with 3 threads on one machine; the OS picks a handful of schedules and cannot be made to pick the others.",
 ["blend2d/raster/rastercontext.cpp", "blend2d/raster/workerproc.cpp", "blend2d/raster/workersynchronization.cpp", "blend2d/raster/workersynchronization_p.h", "blend2d/raster/workermanager.cpp", "blend2d/raster/workermanager_p.h", "blend2d/raster/renderbatch_p.h", "blend2d/raster/renderjobproc_p.h", "blend2d/raster/rendercommandprocasync_p.h", "blend2d/raster/renderqueue_p.h", "blend2d/raster/workdata.cpp"],
 [("job index + barrier between job and command passes", "workersynchronization.cpp, workerproc.cpp"), ("static band ownership, per-band command bit-sets", "workerproc.cpp")],
 ["pixels of the target image after flush(SYNC)/end()", "return of bl_context_flush/end"])
prop("C02", "Thread pool never shares, loses or leaks a thread",
 "At any time every thread handed out by a thread pool belongs to exactly one acquirer, the number of threads that are handed out or pooled never exceeds the pool's maximum, and a thread that was released is available again. If a thread cannot be created the caller gets exactly the number of usable threads it was told it got (none when it asked for all or nothing), and the pool stays fully usable. Releasing the last reference to a pool or shutting it down terminates, stops every pooled thread and frees everything exactly once.",
 ["schedules", "histories", "fault_sequences"],
 "all operation histories of acquire/release/cleanup up to a depth over two acquirers, all interleavings up to a preemption bound, and every placement of thread-creation and allocation failures",
 "the unit test acquires and releases threads once from one thread and never sees pthread_create fail.",
 ["blend2d/threading/threadpool.cpp", "blend2d/threading/threadpool_p.h", "blend2d/threading/thread.cpp"],
 [("pooled-thread bit array and counters under one mutex", "threadpool.cpp"), ("internal/external reference counts", "threadpool.cpp")],
 ["BLThreadPool virtual interface: acquire_threads, release_threads, cleanup, pooled_thread_count, release"])
prop("C03", "A worker thread runs every accepted work item exactly once",
 "Every work item a worker thread accepts is executed exactly once, with the function and data it was submitted with, even if the thread is told to quit right afterwards, and submissions that report the thread as busy are never executed. A worker never sleeps while accepted work or a quit request is pending, and after a quit request it runs its exit callback exactly once and ends.",
 ["schedules"],
 "all interleavings (up to a preemption bound) of submitters, quitters and the worker, in both the futex and the mutex/condvar implementation, with spurious wake-ups",
 "a lost wake-up needs one particular interleaving between the flag update and the wait; the existing test runs freely on one machine.",
 ["blend2d/threading/thread.cpp", "blend2d/threading/thread_p.h", "blend2d/threading/futex_p.h", "blend2d/threading/conditionvariable_p.h", "blend2d/threading/mutex_p.h"],
 [("ENQUEUING/ENQUEUED/SLEEPING/QUITTING status flags", "thread.cpp")], ["BLThread::run, quit, status and the callbacks it invokes"])
prop("C04", "Objects shared between threads are immutable, race-free and freed once",
 "Copies of one object (array, string, path, bit set, image, pattern, gradient, font data, font face, font, codec, settings, variant) may be read, copied, modified and destroyed concurrently by different threads, each thread touching only its own copy: every thread observes exactly the content its own operations imply, and the shared storage (including external data and its release callback) is released exactly once after the last copy is gone. Nothing that is computed lazily and cached inside shared storage introduces a data race or is lost or leaked.",
 ["schedules", "histories"],
 "all interleavings (up to a preemption bound) of two or three threads running short scripts of copy/read/modify/destroy on copies of one object, for every object type",
 "no existing test touches one shared object from two threads; reference-count and lazy-publication errors need a particular interleaving.",
 ["blend2d/core/object_p.h", "blend2d/core/object.cpp", "blend2d/core/object.h", "blend2d/core/gradient.cpp", "blend2d/core/gradient_p.h", "blend2d/core/fontface_p.h", "blend2d/core/fontface.cpp", "blend2d/opentype/otlayout_p.h", "blend2d/core/path.cpp", "blend2d/core/array.cpp", "blend2d/core/string.cpp", "blend2d/core/image.cpp", "blend2d/core/bitset.cpp"],
 [("atomic reference counting in the object header", "object_p.h"), ("compare-and-swap publication of lazily computed data", "gradient.cpp, fontface_p.h")],
 ["public object API", "destroy callbacks", "allocator"])
prop("C05", "Shared registries and unique ids behave atomically",
 "The built-in image codec list and font managers can be modified and queried by several threads at once: every call takes effect atomically, so results always correspond to some sequential order of the calls, and no registration is lost or duplicated. Unique ids given to contexts, images and font objects are never handed out twice, no matter which threads create them.",
 ["schedules", "histories"],
 "all interleavings (up to a preemption bound) of two or three threads calling add/remove/query operations, and all sequential histories of font-manager calls up to a depth",
 "no existing test calls these from more than one thread; there is no font manager test.",
 ["blend2d/core/imagecodec.cpp", "blend2d/core/fontmanager.cpp", "blend2d/core/fontmanager_p.h", "blend2d/threading/uniqueidgenerator.cpp"],
 [("global codec array mutex", "imagecodec.cpp"), ("shared mutex in font manager", "fontmanager.cpp"), ("per-thread id blocks", "uniqueidgenerator.cpp")],
 ["bl_image_codec_* built-in API", "bl_font_manager_* API", "unique ids reported by objects"])
# --- object model ----------------------------------------------------------------------------------------------
prop("C06", "Strings behave as mutable byte sequences with value semantics",
 "After any sequence of string operations (assign, append, insert, remove, resize, shrink, reserve, formatting, copying, moving, searching, comparing, including arguments that alias the string itself) the content, size, NUL terminator, search and comparison results equal those of a plain byte sequence. Modifying or destroying one copy never changes another.",
 ["histories", "inputs"], "all operation sequences up to a depth over an alphabet whose lengths straddle the small-string limit and capacity growth",
 "string_test.cpp runs a fixed sequence; transitions between small, shared, owned and aliased representations are combinations it does not reach.",
 ["blend2d/core/string.cpp", "blend2d/core/string.h", "blend2d/core/string_p.h", "blend2d/support/stringops_p.h"],
 [("SSO/dynamic representation switch and copy-on-write", "string.cpp")], ["BLString public API"])
prop("C07", "Arrays behave as sequences with value semantics for every item type",
 "After any sequence of array operations (assign, append, insert, replace, remove, resize, shrink, reserve, deep/weak copy, move, external data, including arguments that alias the array itself) the size, items, search and equality results equal those of a plain sequence, for every item type. Items that are objects are copied, kept alive and released exactly once, and modifying or destroying one copy never changes another.",
 ["histories", "inputs", "configurations"], "all operation sequences up to a depth, for integer, float, struct and object item types, with lengths straddling the inline limit and capacity growth",
 "array_test.cpp checks a fixed scenario for a few types.",
 ["blend2d/core/array.cpp", "blend2d/core/array.h", "blend2d/core/array_p.h"],
 [("SSO/dynamic/external representations, copy-on-write and per-type item lifecycle", "array.cpp")], ["BLArray public API"])
prop("C08", "Bit sets behave as mathematical sets of 32-bit integers",
 "After any sequence of bit-set operations (adding and clearing bits, ranges and words, chopping, optimizing, shrinking, builder commits, copies and moves) membership, cardinality, ranges, iteration, equality, ordering, subsumption and intersection equal those of the mathematical set the operations describe, independent of the internal representation reached.",
 ["histories", "inputs"], "all operation sequences up to a depth over an alphabet of bits and ranges at word, segment and representation boundaries, including 0 and the largest index",
 "bitset_test.cpp runs fixed scenarios plus random fills; combinations of representation (inline words, inline range, sparse, dense and full segments) are not covered systematically.",
 ["blend2d/core/bitset.cpp", "blend2d/core/bitset.h", "blend2d/core/bitset_p.h"],
 [("segmented representation with inline forms", "bitset.cpp")], ["BLBitSet and BLBitSetBuilder public API"])
prop("C09", "Bit arrays behave as fixed-length vectors of booleans",
 "After any sequence of bit-array operations (resize, append, set, clear, fill, replace, copies and moves) size, every bit, cardinality, ranges, equality, ordering, subsumption and intersection equal those of a plain boolean vector, and bits beyond the size are never visible.",
 ["histories", "inputs"], "all operation sequences up to a depth over sizes and positions straddling word boundaries and the inline limit",
 "bitarray_test.cpp checks a few fixed values.",
 ["blend2d/core/bitarray.cpp", "blend2d/core/bitarray.h", "blend2d/core/bitarray_p.h"],
 [("SSO/dynamic representation", "bitarray.cpp")], ["BLBitArray public API"])
prop("C10", "Paths record exactly the edits made to them",
 "After any sequence of path edits (vertices, curves, arcs, figures, shapes, appended and reversed paths, insertion and removal of ranges, transformation, translation, copies and moves) the stored commands and vertices, last vertex, figure ranges, control box, closest vertex and equality equal those of a plain list of (command, vertex) records with documented meaning. Cached information never goes stale, and modifying one copy never changes another.",
 ["histories", "inputs"], "all edit sequences up to a depth over an alphabet of all edit operations with small coordinates and boundary ranges",
 "path_test.cpp checks a handful of fixed shapes.",
 ["blend2d/core/path.cpp", "blend2d/core/path.h", "blend2d/core/path_p.h"],
 [("growable SoA command/vertex buffers, dirty-flag cache of path info", "path.cpp")], ["BLPath public API"])
prop("C11", "Gradients and patterns store exactly what was set, with stops in offset order",
 "After any sequence of gradient edits the stop list equals the one obtained by the documented stable ordered insertion, replacement and removal rules, and type, values, extend mode and transformation read back as set; gradients that differ in no observable attribute compare equal. Patterns likewise keep image, area, extend mode and transformation, and copies of either never influence each other.",
 ["histories", "inputs"], "all edit sequences up to a depth over offsets with ties, boundary indexes and every setter",
 "gradient_test.cpp checks a short fixed sequence; there is no pattern test.",
 ["blend2d/core/gradient.cpp", "blend2d/core/gradient.h", "blend2d/core/pattern.cpp", "blend2d/core/pattern.h"],
 [("sorted stop array, copy-on-write", "gradient.cpp")], ["BLGradient and BLPattern public API"])
prop("C12", "Font feature and variation settings behave as maps from tag to value",
 "After any sequence of set, remove, clear, copy and move operations on font feature or variation settings, lookups, size, iteration order by tag and equality are those of a map from tag to value; invalid tags and values are rejected and leave the settings unchanged. Copies never influence each other.",
 ["histories", "inputs"], "all operation sequences up to a depth over tags with and without compact encoding, more entries than fit inline, and boundary values",
 "the unit tests fill and empty the settings in two fixed orders.",
 ["blend2d/core/fontfeaturesettings.cpp", "blend2d/core/fontvariationsettings.cpp", "blend2d/core/fonttagset.cpp", "blend2d/core/fonttagdataids.cpp"],
 [("inline packed ids and sorted dynamic storage", "fontfeaturesettings.cpp, fontvariationsettings.cpp")], ["BLFontFeatureSettings, BLFontVariationSettings public API"])
prop("C13", "Variants keep type and value and convert only as documented",
 "A variant holds any value or object with its type intact; conversions to bool, integers, floating point and colors return the mathematically converted value, or the documented clamped value together with an error, and equality between variants of different numeric types is equality of values. Assigning, moving, copying and destroying variants keeps contained objects alive exactly as long as they are referenced.",
 ["inputs", "histories"], "all ordered pairs of stored values from a boundary set for every type and target, all assignment sequences up to a depth",
 "var_test.cpp checks a few conversions.",
 ["blend2d/core/var.cpp", "blend2d/core/var.h", "blend2d/core/object.cpp"],
 [("type-tagged object info, numeric conversion", "var.cpp")], ["BLVar public API"])
prop("C14", "Images have value semantics and honour external memory",
 "Copies of an image share pixels until one of them is modified through any API (direct mutable access, rendering, conversion, creation), after which only that one changes; image size, format and stride always describe the accessible pixels. External memory is used in place, is never written when it is read-only, and its release callback runs exactly once, when the last image using it lets go of it.",
 ["histories"], "all sequences up to a depth of create/assign/move/make-mutable/convert/render/reset over a few images, formats and external buffers",
 "image_test.cpp creates and resets a few images.",
 ["blend2d/core/image.cpp", "blend2d/core/image.h", "blend2d/core/image_p.h", "blend2d/core/object.cpp"],
 [("copy-on-write, writer count, external data info", "image.cpp")], ["BLImage public API", "destroy callbacks", "external buffer bytes"])
prop("C15", "Allocation failure is reported and leaves every object unchanged and valid",
 "When memory allocation fails at any point during an operation on a container, path, gradient, image, codec, font object or rendering context, the operation reports an error (or succeeds completely without the memory), its operands keep the value they had before and stay usable and destructible, and nothing is leaked or freed twice. A retry after memory is available again gives the result it would have given in the first place.",
 ["fault_sequences", "histories"], "every single allocation-failure point (and all failures from that point on) of every operation in a corpus of short histories",
 "no existing test makes an allocation fail.",
 ["blend2d/core/array.cpp", "blend2d/core/string.cpp", "blend2d/core/path.cpp", "blend2d/core/bitset.cpp", "blend2d/core/bitarray.cpp", "blend2d/core/gradient.cpp", "blend2d/core/image.cpp", "blend2d/core/object.cpp", "blend2d/raster/rastercontext.cpp", "blend2d/raster/workermanager.cpp", "blend2d/support/arenaallocator.cpp", "blend2d/support/zeroallocator.cpp", "blend2d/compression/deflateencoder.cpp", "blend2d/codec/pngcodec.cpp"],
 [("BL_PROPAGATE of BL_ERROR_OUT_OF_MEMORY before any mutation", "all of core")], ["return codes and object state through the public API", "allocator"])
prop("C16", "File I/O transfers exactly the bytes asked for whatever the OS returns",
 "Reading or writing through the file API transfers exactly the requested bytes in order, or stops early only at end of file or at an error, and then reports how many bytes were transferred and the error the system gave; partial transfers by the operating system never lose, repeat or reorder bytes. Whole-file reads return the file's content up to the requested limit, whole-file writes leave the file with exactly the given content, and no descriptor or mapping is leaked or closed twice.",
 ["fault_sequences", "inputs", "histories"], "every sequence of OS answers (full, short, zero, interrupted, error) up to a number of deviations, for all open/read/write/seek/truncate histories up to a depth",
 "there is no file-system unit test; real disks never return short counts in tests.",
 ["blend2d/core/filesystem.cpp", "blend2d/core/filesystem.h", "blend2d/core/filesystem_p.h"],
 [("read/write loops and error mapping", "filesystem.cpp")], ["bl_file_*, bl_file_system_* and memory-mapped reads", "system calls issued"])
# --- rendering ----------------------------------------------------------------------------------------------
prop("C17", "Filled coverage is the exact area of the shape",
 "Filling any polygon with an opaque color gives each pixel a coverage equal to the area of the polygon inside that pixel under the chosen fill rule, within the rounding of the 8-bit anti-aliasing; pixels entirely inside are fully covered and pixels entirely outside untouched. Where figures overlap inside one pixel, the area is the integral of the winding number folded by the rule. Curved outlines follow their curve within the flattening tolerance. The result does not depend on direction, starting vertex, splitting of edges, whole-pixel translation, or on which API call (rectangle, polygon, path, mask) expresses the shape.",
 ["inputs", "configurations"], "all polygons with up to four vertices on a sub-pixel grid, all axis-aligned rectangles on that grid, both fill rules, both target formats, with and without clipping at every image edge",
 "rendering tests never check pixels against a geometric reference.",
 ["blend2d/raster/analyticrasterizer_p.h", "blend2d/raster/edgebuilder_p.h", "blend2d/raster/rastercontext.cpp", "blend2d/pipeline/reference/fillgeneric_p.h", "blend2d/raster/rendercommandprocsync_p.h", "blend2d/pipeline/pipedefs_p.h"],
 [("cell/area accumulation per scanline", "analyticrasterizer_p.h"), ("edge clipping and banding", "edgebuilder_p.h")], ["target image pixels"])
prop("C18", "Drawing never modifies anything outside the clip and the image",
 "No drawing operation, whatever its geometry, transformation, style and state, modifies a pixel outside the intersection of all active clips with the target image, nor any byte of the target buffer outside the image rows (padding, guard bytes). Pixels entirely inside the clip get the same result as when drawing unclipped (within anti-aliasing rounding for geometry); pixels cut by a fractional clip edge get a value between what was there and the unclipped result.",
 ["inputs", "programs", "configurations"], "every kind of drawing call crossed with a grid of clip rectangles (integer and fractional, nested, empty, outside, saved and restored) and of geometry placements around each image edge, including huge and non-finite coordinates",
 "no test compares clipped with unclipped output or guards the memory around the image.",
 ["blend2d/raster/rastercontext.cpp", "blend2d/raster/edgebuilder_p.h", "blend2d/raster/rastercontext_p.h", "blend2d/pipeline/reference/fillgeneric_p.h"],
 [("final clip box computation and edge clipping", "rastercontext.cpp, edgebuilder_p.h")], ["target image pixels and surrounding bytes"])
prop("C19", "Compositing produces the documented operator for every pixel value",
 "For every composition operator the build implements (the others report BL_ERROR_NOT_IMPLEMENTED and draw nothing), source and destination color (with alpha), coverage mask, global alpha and pixel format, each drawn pixel equals the documented Porter-Duff or blend formula applied to those values within the rounding of 8-bit arithmetic; formats without alpha count as opaque (their unused byte is ignored), premultiplied output stays valid, and fully transparent or masked-out drawing leaves the destination unchanged where the operator says so. The result does not depend on the kind of style (solid, gradient, pattern) that supplies the color nor on the position or length of the span.",
 ["inputs", "configurations"], "all operators x formats x a dense grid of 8-bit source/destination/alpha/coverage values x style kinds x span offsets and lengths",
 "rendering tests check only that nothing crashes and that threads agree.",
 ["blend2d/pipeline/reference/compopgeneric_p.h", "blend2d/pipeline/reference/pixelgeneric_p.h", "blend2d/pipeline/reference/fixedpiperuntime.cpp", "blend2d/core/compopinfo.cpp", "blend2d/core/compopsimplifyimpl_p.h", "blend2d/pipeline/reference/fillgeneric_p.h", "blend2d/raster/rastercontext.cpp"],
 [("operator implementations and operator simplification tables", "compopgeneric_p.h, compopsimplifyimpl_p.h")], ["target image pixels"])
prop("C20", "Context state follows a stack of saved values",
 "After any sequence of state changes, saves and restores on a rendering context, every readable piece of state (transforms, styles, alphas, operator, rule, stroke options, hints, approximation options) and the clip equal those of a simple model with a stack, and invalid arguments or unmatched or wrongly-cookied restores are rejected without effect. Drawing after a restore gives the pixels that drawing with the restored values set explicitly gives, on synchronous and on multi-threaded contexts.",
 ["histories", "programs", "configurations"], "all sequences up to a depth of state setters with boundary arguments, transforms, clips, save and restore with and without cookies, on both context kinds",
 "context_test.cpp checks a dozen fixed sequences.",
 ["blend2d/raster/rastercontext.cpp", "blend2d/raster/statedata_p.h", "blend2d/raster/styledata_p.h", "blend2d/core/context.cpp"],
 [("lazily saved state partitions guarded by flags", "rastercontext.cpp")], ["BLContext getters and target image pixels"])
prop("C21", "Gradients, patterns and image blits sample what their definition says",
 "A pixel drawn with a pattern, image blit or gradient has the color that the definition gives at that pixel's centre: image content under the inverse transform with the selected extend mode and filter, or the interpolated stop color at the geometric offset with the selected extend mode, within the rounding of the fixed-point arithmetic. Whole-pixel moves of the drawing move the result without changing it and sub-images never show pixels outside their area.",
 ["inputs", "configurations"], "all small images x areas x extend mode pairs x integer and fractional offsets, scales and 90-degree rotations; all gradient types x extend modes x stop layouts over a grid of placements",
 "no test compares fetched pixels with a reference.",
 ["blend2d/pipeline/reference/fetchgeneric_p.h", "blend2d/pipeline/pipedefs.cpp", "blend2d/pixelops/interpolation.cpp", "blend2d/core/gradient.cpp", "blend2d/raster/renderfetchdata.cpp", "blend2d/raster/rastercontext.cpp"],
 [("fetch-data initialisation and fetchers", "pipedefs.cpp, fetchgeneric_p.h"), ("gradient lookup table interpolation", "pixelops/interpolation.cpp")], ["target image pixels"])
prop("C22", "Pixel conversion is exact for every format pair, length and alignment",
 "Converting pixels between any two supported formats yields, for every pixel, the color given by the formats' bit layouts (component scaling, premultiplication, demultiplication, palette, byte order), regardless of CPU features, row length, stride, alignment and gap, and writes nothing but the destination rows. Image format conversion agrees with it.",
 ["inputs", "configurations"], "all 8-bit component and alpha values, every built-in format pair and a family of custom masks, all row widths up to several SIMD widths, all alignments, strides of both signs, every selectable CPU feature level",
 "pixelconverter_test.cpp compares a few conversions at one CPU level.",
 ["blend2d/core/pixelconverter.cpp", "blend2d/core/pixelconverter_sse2.cpp", "blend2d/core/pixelconverter_ssse3.cpp", "blend2d/core/pixelconverter_avx2.cpp", "blend2d/core/pixelconverter_p.h", "blend2d/core/format.cpp", "blend2d/core/image.cpp"],
 [("converter selection and SIMD kernels", "pixelconverter*.cpp")], ["bl_pixel_converter_convert output bytes", "bl_image_convert"])
prop("C23", "Path geometry queries agree with geometry",
 "Hit testing a point against a path agrees with the winding number of the path around the point under the chosen fill rule, the bounding box of a path is the tight box of its curves and the control box that of its points, and transformations map every vertex by the matrix. Matrix operations compose, invert, classify and map points as linear algebra says, whatever CPU features are used.",
 ["inputs"], "all paths of up to three figures built from lines, quads, cubics and conics with control points on a small grid, all points of a finer grid; all matrices over a small coefficient set and every transform operation, array lengths and alignments",
 "path_test.cpp and matrix_test.cpp check a few fixed shapes and matrices.",
 ["blend2d/core/path.cpp", "blend2d/geometry/bezier_p.h", "blend2d/core/matrix.cpp", "blend2d/core/matrix_sse2.cpp", "blend2d/core/matrix_avx.cpp", "blend2d/core/matrix.h"],
 [("winding by monotone curve pieces", "path.cpp"), ("type-specialised transforms", "matrix*.cpp")], ["BLPath::hit_test/get_bounding_box/get_control_box/transform", "BLMatrix2D API"])
prop("C24", "Stroking covers the set of points within half the width of the path",
 "The area covered by stroking a path is the set of points within half the stroke width of its segments plus the selected joins and caps, transformed as requested: points clearly inside are covered, points clearly outside are not, for every combination of cap, join, miter limit and width, including repeated, reversed and collinear segments, segments shorter than the width, curves and closed figures (a figure of zero length strokes to nothing). Stroking as a drawing operation and converting a path to a stroked path agree, and the result never contains non-finite values for finite input.",
 ["inputs", "configurations"], "all polylines with up to four vertices on a small grid (with repeats), open and closed, crossed with all caps, joins, a set of widths and miter limits, and sampled at every point of a finer grid",
 "no test inspects stroked geometry.",
 ["blend2d/core/pathstroke.cpp", "blend2d/core/pathstroke_p.h", "blend2d/core/path.cpp", "blend2d/raster/rastercontextops.cpp"],
 [("stroker state machine producing two offset contours", "pathstroke.cpp")], ["pixels of stroked paths", "BLPath::add_stroked_path"])
# --- codecs ------------------------------------------------------------------------------------------------------
prop("C25", "Encoding an image and decoding it again returns the same image",
 "Any image written with the PNG, BMP or QOI encoder and read back has the same size and exactly the same colors (masks come back as gray levels from PNG and BMP and as white with that alpha from QOI), for every pixel format, memory layout, size, content and compression setting, whether it is stored in memory or in a file, and the codec is recognised from the data. The written file is well-formed, depends only on the pixels, and replaces what the destination held; the source image is not modified.",
 ["inputs", "configurations"], "all images up to a few pixels over a small color alphabet, all widths and heights up to a bound with structured content, every format and encoder option, images that exercise every run/index/difference/filter choice of the encoders",
 "codec_test.cpp round-trips randomly drawn images of a few fixed sizes.",
 ["blend2d/codec/pngcodec.cpp", "blend2d/codec/bmpcodec.cpp", "blend2d/codec/qoicodec.cpp", "blend2d/codec/pngops.cpp", "blend2d/codec/pngops_sse2.cpp", "blend2d/codec/pngops_avx.cpp", "blend2d/codec/pngopssimdimpl_p.h", "blend2d/core/imagecodec.cpp", "blend2d/core/imageencoder.cpp", "blend2d/core/imagedecoder.cpp", "blend2d/core/image.cpp"],
 [("filters, run-length/index operations, palette and alpha handling", "codec/*.cpp")], ["BLImage::write_to_data/read_from_data and file variants"])
prop("C26", "Image decoders are safe and deterministic on arbitrary input",
 "Decoding arbitrary bytes as PNG, APNG, JPEG, BMP or QOI terminates, never reads or writes outside the input and the decoder's own memory, and either reports an error or yields an image of the announced size that does not depend on uninitialised memory. Reading an image from data or a file leaves the image as it was when it fails, and truncated data yields an error or the same image as the complete data.",
 ["inputs", "fault_sequences"], "every truncation, every single-byte replacement by boundary values and every chunk/segment/row-level structural edit of a corpus of small valid files covering every format feature",
 "the tests decode only valid images produced by the library itself.",
 ["blend2d/codec/pngcodec.cpp", "blend2d/codec/jpegcodec.cpp", "blend2d/codec/jpeghuffman.cpp", "blend2d/codec/bmpcodec.cpp", "blend2d/codec/qoicodec.cpp", "blend2d/compression/deflatedecoder.cpp"],
 [("length and bounds checks before each access", "codec/*.cpp")], ["bl_image_decoder_read_info/read_frame, bl_image_read_from_data under a memory checker"])
prop("C27", "DEFLATE coding is lossless and standard-conforming",
 "Compressing any bytes at any level and format and decompressing them returns the same bytes; the compressed stream is accepted with the same result by an independent inflate implementation, and streams produced by an independent compressor are decoded exactly. Decoding gives the same bytes and the same verdict however the input is cut into pieces and however little output space is offered at first, and malformed streams are rejected rather than decoded differently.",
 ["inputs", "configurations", "fault_sequences"], "all byte strings up to a length over small alphabets, structured inputs around every window, length, distance and block boundary, every compression level and format, every cut point of the compressed stream, all fixed/dynamic/stored block edits of short streams",
 "deflate_test.cpp round-trips a set of fixed patterns through its own decoder.",
 ["blend2d/compression/deflateencoder.cpp", "blend2d/compression/deflatedecoder.cpp", "blend2d/compression/deflatedecoderfast.cpp", "blend2d/compression/deflatedecoderfast_avx2.cpp", "blend2d/compression/deflatedecoderutils.cpp", "blend2d/compression/matchfinder_p.h", "blend2d/compression/deflatedefs.cpp"],
 [("match finders, block splitting and Huffman construction; table-driven decoder with fast loop", "compression/*.cpp")], ["Deflate::Encoder/Decoder", "PNG IDAT/zTXt streams"])
prop("C28", "Checksums equal their mathematical definition for any input split",
 "CRC-32 and Adler-32 of any byte sequence equal their mathematical definitions, for every length, alignment and way of feeding the bytes in pieces, with every CPU feature level.",
 ["inputs", "configurations"], "all lengths up to several times the SIMD block and the modulo-reduction threshold, all alignments, all two-way splits, extreme contents, every implementation selectable on this CPU",
 "checksum_test.cpp compares implementations that share constants with each other.",
 ["blend2d/compression/checksum.cpp", "blend2d/compression/checksum_sse2.cpp", "blend2d/compression/checksum_sse4_2.cpp", "blend2d/compression/checksum_p.h", "blend2d/compression/checksumadler32simdimpl_p.h", "blend2d/compression/checksumcrc32simdimpl_p.h"],
 [("SIMD folding and delayed modulo", "compression/checksum*")], ["internal checksum entry points", "PNG chunk CRC acceptance"])
prop("C29", "Image decoders return the colors the file format defines",
 "Decoding any valid PNG (every color type, bit depth up to 8, filter, interlacing, transparency and chunk split; APNG frames with their offsets, disposal and source blending), BMP (every supported bit depth, header version, masks, compression and orientation) or QOI file returns exactly the pixels its specification defines; decoding a baseline or progressive JPEG returns the specified pixels within the tolerance of the inverse transform. The announced image information matches the file.",
 ["inputs", "configurations"], "all combinations of format features on small images built by independent encoders, every filter sequence for a few rows, every interlace pass size, every op sequence of QOI/RLE up to a length",
 "codec_test.cpp decodes only files the library's own encoders produced (8-bit, non-interlaced).",
 ["blend2d/codec/pngcodec.cpp", "blend2d/codec/pngops.cpp", "blend2d/codec/bmpcodec.cpp", "blend2d/codec/qoicodec.cpp", "blend2d/codec/jpegcodec.cpp", "blend2d/codec/jpegops.cpp", "blend2d/codec/jpegops_sse2.cpp", "blend2d/codec/jpeghuffman.cpp"],
 [("format-specific sample unpacking and color conversion", "codec/*.cpp")], ["bl_image_read_from_data pixels, bl_image_decoder_read_info"])
# --- text ----------------------------------------------------------------------------------------------------------
prop("C30", "Text decoding follows the Unicode encodings exactly",
 "UTF-8, UTF-16, UTF-32 and Latin-1 text given to the library is accepted exactly when it is well-formed by the Unicode standard, and then yields exactly the encoded code points at the right positions; ill-formed or truncated text is rejected with an error without reading beyond its end, and explicitly sized and NUL-terminated forms agree.",
 ["inputs"], "all code points; all sequences of up to four code units over an alphabet with one representative (and both boundaries) of every class of lead, continuation, surrogate and invalid unit",
 "unicode_test.cpp checks a few dozen fixed strings.",
 ["blend2d/unicode/unicode.cpp", "blend2d/unicode/unicode_p.h", "blend2d/core/glyphbuffer.cpp"],
 [("lead-byte tables and validating readers", "unicode_p.h")], ["bl_glyph_buffer_set_text", "file names and font names through string conversion", "Unicode converters"])
prop("C31", "Font loading and shaping are safe on arbitrary font data",
 "Loading a font face from arbitrary bytes, querying it and shaping or rendering any text with it terminates and never reads outside the font data or writes outside its own memory; a face that cannot be used is rejected with an error, glyphs that the font has no outline for give an error or an empty outline, a glyph whose outline cannot be decoded adds nothing to the path, and every result depends on the font data and the arguments only (not on what memory held before).",
 ["inputs", "fault_sequences"], "every truncation, every replacement of a byte, a 16-bit or 32-bit field by boundary values (alone, with a shorter table, and in pairs of near fields) and the removal of every table of a corpus of some 80 small synthesised fonts that contain every supported table format, each queried through the whole font interface",
 "tests load one well-formed font.",
 ["blend2d/opentype/otface.cpp", "blend2d/opentype/otcmap.cpp", "blend2d/opentype/otglyf.cpp", "blend2d/opentype/otglyfsimdimpl_p.h", "blend2d/opentype/otcff.cpp", "blend2d/opentype/otkern.cpp", "blend2d/opentype/otlayout.cpp", "blend2d/opentype/otname.cpp", "blend2d/opentype/otmetrics.cpp", "blend2d/opentype/otcore.cpp", "blend2d/core/fontdata.cpp"],
 [("table and sub-table size validation", "opentype/*.cpp")], ["bl_font_face_create_from_data, bl_font_shape, bl_font_get_glyph_outlines under a memory checker"])
prop("C32", "Glyph mapping, metrics, outlines and layout follow the font's tables",
 "For a font with valid tables, every code point maps to the glyph its character map (format 0, 4, 6, 10, 12 or 13) gives, or to the missing glyph, and character coverage reports exactly the mapped code points; every glyph has the advance, bounds and outline (TrueType simple or composite, or the CFF Type 2 charstring with its subroutines, also of CID fonts) that its tables describe, scaled by the font size and transformed by the given matrix, whatever CPU features are used. Positioning adds the horizontal kerning of the legacy kern table (formats 0, 2 and 3; Windows or Mac headers; without the rarely used minimum flag), or, where the font has one, of the kern feature: single and pair adjustments. Shaping applies exactly the lookups of the features enabled by default or by the settings, in the font's order, each replacing glyphs from the left by single, multiple, alternate (the first one) or ligature substitutions, with every resulting glyph keeping the cluster of the first glyph it replaces.",
 ["inputs", "configurations"], "all code points over synthesised character maps of every supported format with boundary segments; all flag/coordinate encodings of short simple and composite glyph outlines; all glyph sequences up to a length over fonts with each supported kerning and layout lookup, over all coverage sets, substitutions and class tables of a few glyphs",
 "font_test.cpp uses one real font and checks a few values.",
 ["blend2d/opentype/otcmap.cpp", "blend2d/opentype/otglyf.cpp", "blend2d/opentype/otglyfsimdimpl_p.h", "blend2d/opentype/otcff.cpp", "blend2d/opentype/otmetrics.cpp", "blend2d/opentype/otkern.cpp", "blend2d/opentype/otlayout.cpp", "blend2d/core/font.cpp", "blend2d/core/fontface.cpp"],
 [("format specific lookups and outline decoders", "opentype/*.cpp")], ["bl_font_shape/map_text_to_glyphs, get_glyph_advances/outlines/bounds, get_character_coverage"])
prop("C33", "Image scaling returns the filter-weighted average at every target pixel",
 "Scaling an image to any size with any filter gives an image of exactly that size in the source's format in which every pixel is the average of the source pixels weighted by the stretched filter around the mapped position (edge pixels repeated outside), within the rounding of 1/256 weights; uniform images stay uniform at any ratio, channels do not influence each other except to stay premultiplied, and memory layout, aliasing of source and target and sharing do not change the result. The source, other copies of the target and memory around the image stay untouched; invalid sizes and filters are rejected without changing anything.",
 ["inputs"], "all source and target sizes, filters and formats up to a size with every impulse and further contents, all row widths around the vector blocks, reductions and enlargements up to the maximum size",
 "No unit test scales images.",
 ["blend2d/core/imagescale.cpp", "blend2d/core/image.cpp"],
 [("ImageScaleContext weights, horizontal and vertical passes", "core/imagescale.cpp")], ["BLImage::scale"])
prop("C34", "Handles keep their value or shared instance through every life-cycle operation",
 "Every handle type (strings, arrays, bit arrays and sets, paths, stroke options, gradients, images, patterns, font feature and variation settings, variants, font data, faces, fonts, managers, image codecs, decoders, encoders, contexts, glyph buffers, pixel converters) can be initialised, copied, moved, assigned, assigned to itself, swapped, reset and destroyed in any order: a copy has the content of its source (for shared objects such as contexts and decoders it is the same instance), later edits of one value never show in another, moving from an object whose type has a default state leaves it in that state, equality is reflexive, symmetric and true for equal contents of value types and never for different contents, and every instance, with the external data it holds, is released exactly once when its last handle goes.",
 ["sequences"], "all histories of life-cycle operations and edits over two handles of each of 23 types up to a fixpoint of the reachable states",
 "Unit tests copy and move a few of the types in a few orders and do not account for memory.",
 ["blend2d/core/object.cpp", "blend2d/core/object_p.h", "blend2d/core/imageencoder.cpp", "blend2d/core/imagedecoder.cpp", "blend2d/core/imagecodec.cpp", "blend2d/core/context.cpp", "blend2d/core/fontmanager.cpp", "blend2d/core/pixelconverter.cpp", "blend2d/core/glyphbuffer.cpp", "blend2d/core/path.cpp"],
 [("reference counting and replacement of instances", "core/object_p.h ObjectInternal")], ["bl_*_init/init_move/init_weak/assign_move/assign_weak/reset/destroy/equals"])
if __name__ == "__main__":
    for p in P:
        print(json.dumps(p, ensure_ascii=False))
