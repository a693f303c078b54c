#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks; properties without a check go to not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "bounded explicit-state model checking of the implementation: all operation histories up to a depth, compared with a reference model after every step"
SMC = "stateless model checking of the compiled library: every schedule of its threads (and every fault and stale read) within preemption, fault and stale-read bounds, run under a controlled scheduler with happens-before state caching"
ENUM = "exhaustive enumeration of a bounded input and call-split space on the real code, every execution compared with an independent definition"
T = {
 # id: (command, technique, level, level_note)
 'C06': ('checks/simple.py C06', SEQ, 'model_checking', 'Breadth-first search over all histories of ~110 operations on two strings sharing storage, depth 4 (5 thorough), against std::string, on the real code under ASAN.'),
 'C07': ('checks/simple.py C07', SEQ, 'model_checking', 'Breadth-first search over all histories of ~105 operations on two arrays, depth 3-4 (2 for further item types), 18 item types, against a sequence of item ids, on the real code under ASAN with leak accounting.'),
 'C08': ('checks/simple.py C08', SEQ, 'model_checking', 'Breadth-first search over all histories of set operations on two bit sets placed around word, segment and range boundaries, depth 4 (5 thorough), against a set of integers, on the real code under ASAN.'),
 'C09': ('checks/simple.py C09', SEQ, 'model_checking', 'Breadth-first search over all histories of bit-array operations on two arrays, depth 4 (5 thorough), against a boolean vector, on the real code under ASAN.'),
 'C10': ('checks/simple.py C10', SEQ, 'model_checking', 'Breadth-first search over all histories of path edits on two paths (full operation set depth 3, core subset depth 5; one deeper in thorough), against a plain list of (command, vertex) records, on the real code under ASAN with leak accounting.'),
 'C12': ('checks/simple.py C12', SEQ, 'model_checking', 'Breadth-first search over all histories of settings operations on two objects (features depth 4, variations depth 5; one deeper in thorough), against an ordered map, on the real code under ASAN with leak accounting.'),
 'C11': ('checks/simple.py C11', SEQ, 'model_checking', 'Breadth-first search over all histories of gradient edits (full operation set depth 3, core subset depth 5) and pattern edits (depth 5) on two objects each, one deeper in thorough, against a list of stops plus fields, with drawing compared with a freshly built gradient after every step, on the real code under ASAN with leak accounting.'),
 'C13': ('checks/simple.py C13', SEQ, 'model_checking', 'All ordered pairs of variants built from the boundary values of every type (conversions, equality, predicates, assignment) plus a breadth-first search over all histories of variant operations, depth 8, against a reference model, on the real code'),
 'C28': ('checks/simple.py C28', ENUM, 'model_checking', 'Every length up to 420, all 16 alignments, every single bit and byte deviation up to 150 bytes, every two- and three-piece split of up to 200/72 bytes, every length around the chunk sizes with the largest sums, every CPU feature level, all implementations, against bitwise definitions (deeper in thorough)'),
 'C30': ('checks/simple.py C30', ENUM, 'model_checking', 'Every string over representatives of all byte or unit classes up to 4-5 bytes / 3 units, every two-byte string, every code point in every encoding, every destination size, sized and terminated forms, aligned and unaligned, against the Unicode definition of well-formedness (deeper in thorough)'),
 'C14': ('checks/simple.py C14', SEQ, 'model_checking', 'All histories to depth 5 (7) of 70+ operations over two images and a rendering context: creation, external memory (read-only, read-write, negative stride, padding, with and without callback), copies, moves, deep copies, writes, conversions, scaling, rendering by synchronous and threaded contexts while copies and resets happen; against pixel arrays with an explicit sharing model; guard bytes of external memory, number of callback calls, AddressSanitizer and leak check. Plus a table of all boundary sizes and formats.'),
 'C22': ('checks/simple.py C22', ENUM, 'model_checking', 'Every ordered pair of about 100 pixel formats (byte orders, component sizes 1-16, straight / premultiplied / no alpha, luminance, alpha only, byte-swapped, indexed with 4 depths and 6 palettes): every value of sources up to 16 bits and every (component, alpha) pair of larger ones, at every CPU level, rows of every length up to 35 (and around the chunk size), alignments, strides, gaps and vertical direction; compared with a conversion computed from the bit layouts; guard bytes and AddressSanitizer.'),
 'C16': ('checks/simple.py C16', 'exhaustive enumeration of operation histories x answers of the operating system, on the real code, conformance-checked against real files', 'model_checking', 'The file API runs over a virtual operating system in the harness (open, close, read, write, lseek, ftruncate, fstat, stat, mmap, munmap). Every history to depth 4 (5) of 30+ file operations and depth 2 (3) of 60+ whole-file, image and font-file operations, every call with every single deviating answer (short by any of three amounts, EINTR, EIO, ENOSPC, EMFILE, ..., a size that changes under the reader), up to two deviations per history, all pairs of deviations within one operation; results, counts, bytes, errors, flags passed, double closes, leaked descriptors and mappings and memory are judged. All histories without deviations are run on real files as well, which must agree with the virtual system.'),
 'C27': ('checks/simple.py C27', ENUM, 'model_checking', 'About 0.9 M streams: all short strings, static-code symbol sequences, dynamic code descriptions, block sequences, match grid, single-bit changes, decoded in one piece, cut at every byte, with every output space, scalar and AVX2, against an independent inflater; every level and format of the encoder over shaped inputs against zlib; under ASAN.'),
 'C01': ('checks/simple.py C01', SMC, 'model_checking', 'About 800 drawing scripts (every operation, pairs and triples of operations and state changes, long scripts with flushes, full command queues, failing threads) rendered with 1-3 threads, own or global pool, futex and portable synchronization, under every schedule with up to 1-2 preemptions; pixels at every flush and at the end and error flags are compared with the synchronous context; races, use after free, leaks, deadlocks and left threads are checked on every execution.'),
 'C02': ('checks/simple.py C02', SMC, 'model_checking', 'Two or three clients acquire, use and release threads of a pool (own and global, futex and portable) under every schedule with up to 2 preemptions and 2 failing thread creations, allocations, spurious wake-ups or time-outs; ownership, counts, reuse, leaks, races, use after free and deadlocks are checked on every execution.'),
 'C03': ('checks/simple.py C03', SMC, 'model_checking', 'Submitters, quitters and the worker (futex and portable) under every schedule with up to 4 preemptions, 2 faults and 2 stale reads; lost, duplicated or spurious work, sleeping with pending work, missing exit callbacks, races and use after free are checked on every execution.'),
 'C04': ('checks/simple.py C04', SMC, 'model_checking', 'Two or three threads read, copy, assign, modify, query lazily and destroy their own copies of one object of 27 kinds (all containers, images, patterns, gradients, font objects, settings, variants, converters, codecs; own and external storage) under every schedule with up to 3 preemptions and stale reads; content is compared with the same script on an unshared object, and leaks, double release, use after free and data races are detected on every execution.'),
 'C05': ('checks/simple.py C05', SMC, 'model_checking', 'Two or three threads add, remove and search codecs, add and query fonts and draw unique ids under every schedule with up to 3 preemptions and stale reads; every history must be linearizable against a list / font family model, ids must be distinct; plus all sequential histories of 4 (5) operations.'),
 'C20': ('checks/simple.py C20', SEQ, 'model_checking', 'About 730,000 histories of state changes, saves, restores (with and without cookies) and drawing, depth 3-7, in 17 groups of operations, synchronous and with two threads: every getter compared with a stack of values, and the pixels drawn compared with a fresh context on which the same state is set explicitly; leak accounting at the end of every history.'),
 'C15': ('checks/simple.py C15', 'exhaustive enumeration of allocation-failure points x operation histories on the real code, every outcome compared with the run without failures', 'model_checking', 'About 200 operations on 14 kinds of objects after every history of up to 2-3 operations: each allocation the operation makes is failed in turn (and every later one with it), on the real code under ASAN; the operation must report out-of-memory and leave the object as it was (or, where it drops to the default state by contract, empty and usable), or succeed with the exact result; nothing leaks and the object works afterwards.'),
 'C33': ('checks/simple.py C33', ENUM, 'model_checking', 'About 300,000 scalings: every source size up to 18 x target size up to 26 with every impulse, every pair of 2D sizes up to 6 -> 9, row widths in seven memory layouts, all uniform values, ratios up to 65535, with all filters and formats, against the filter definition in double precision (bound by 1/256 weights) and exact relations, under ASAN.'),
 'C29': ('checks/simple.py C29', ENUM, 'model_checking', 'About 290,000 files built by independent generators from known pixels (PNG: every color type, depth, filter pair, interlacing, key, chunk split, APNG frames; BMP: depths, headers, masks, RLE token sequences; QOI token sequences; JPEG: sequential and progressive, 15 sampling layouts, scan scripts, single coefficients and pairs, restart intervals, empty-block runs), decoded at every CPU level and compared with the specified pixels (JPEG: with a double precision decoder of the same coefficients within 1.3 gray / 4 color levels). 16-bit PNG, APNG blending OVER and delayed JPEG height are rejected by the library as unsupported and are not judged.'),
 'C26': ('checks/simple.py C26', ENUM, 'model_checking', '2.5 million damaged files (more in the thorough tier): all truncations, byte replacements, insertions, deletions, boundary values in every 2 and 4 byte field in both byte orders, pairs of header bytes, and removed, doubled, exchanged and foreign chunks of 50 small valid files of every kind, each decoded through the decoder (all frames) and read_from_data under ASan and MSan, with two fills of fresh memory and failing large allocations.'),
 'C25': ('checks/simple.py C25', ENUM, 'model_checking', 'About 600,000 images: every sequence of up to 5 colors of 9 that relate in all the ways the QOI forms distinguish, every pair of channel differences around the limits of these forms, runs up to 260 in one and several rows, all premultiplied alpha values, sizes up to 67 x 6, large images at all 13 compression levels, 3 formats x 3 codecs x 3 memory layouts, in memory and in files; files also parsed by an independent checker.'),
 'C17': ('checks/simple.py C17', ENUM, 'model_checking', 'About 2.3 million drawings against areas integrated in double precision: all triangles (36 points) and quads (25 points) around a 4x4 image under both rules through five calls, all rectangles (14 values per side) through ten calls, edges at every 1/256 position with 11 slopes, triangles across bands and far outside, up to 300 windings, stars and combs, quads, cubics and conics under four transforms, and the curved geometry calls.'),
 'C18': ('checks/simple.py C18', ENUM, 'model_checking', 'About 1.2 million drawings: 34 drawing calls at 64 placements around every image edge x styles x operators x formats, synchronous and queued, both row directions, under 20 clips (integer, fractional, transformed, nested in all pairs, empty, outside, restored) and with 15 extreme or non-finite coordinates, compared with the unclipped drawing, over a patterned background between guard bytes.'),
 'C19': ('checks/simple.py C19', ENUM, 'model_checking', 'About 0.7 million drawings with 320 million pixels compared: all 29 operators x 3 formats x every source alpha x 6 colors x every destination alpha at full coverage, every mask level, coverage from boxes and paths in 1/256 steps, all 256 global alphas x style alphas, 25 kinds of source of the same color x span position and length, and images of every alpha over every destination alpha; operators the static pipeline does not implement must report it and draw nothing.'),
 'C21': ('checks/simple.py C21', ENUM, 'model_checking', 'About 480,000 drawings in nine groups: patterns under every small translation x 9 extend modes x 2 filters x sub-areas, 18 affine matrices, user x pattern transforms; image blits whole / area / scaled under transforms; extreme placements with exact-size heap images under AddressSanitizer; linear, radial and conic gradients x 12 stop lists x extend modes x quality x 100 placements, each drawn four ways (fill-all, rectangle, path of separate spans, column), immediately and queued, compared with the mathematical definition at the pixel centre.'),
 'C23': ('checks/simple.py C23', ENUM, 'model_checking', 'About 430,000 shapes (all triangles, polygons on a 3x3 grid, pairs and triples of figures, all quadratic, cubic and conic curves on small grids, mixed figures) under four coordinate mappings with 18 million point tests against winding numbers, all boxes against exact extrema; all path and point-array transformations over every length, alignment, range, matrix kind and CPU level; all sequences of 4 matrix operations and 1.8 million matrices classified and inverted, against long double algebra.'),
 'C24': ('checks/simple.py C24', ENUM, 'model_checking', 'Independent geometric model (signed distances of segments, joins and caps) judges grid points against the winding number of the stroked outline.'),
 'C32': ('checks/simple.py C32', ENUM, 'model_checking', 'fonts synthesised from the OpenType specification: all small character maps, outline encodings, kerning and layout tables, CFF charstring operator sequences; every code point/short text against models and a reference charstring interpreter'),
 'C31': ('checks/simple.py C31', ENUM, 'model_checking', 'synthesised fonts with every truncation, boundary byte/field value, field pair and table removal; the whole font API twice under AddressSanitizer with differently filled memory'),
 'C34': ('checks/simple.py C34', SEQ, 'model_checking', 'All histories of life-cycle operations (init, init_weak, init_move, assign_weak, assign_move, reset, destroy, swap, build, edit) over two handles of each of 23 types to a fixpoint; contents, equality, moved-from state, leaks and external releases are checked after every step.'),
}
NA = {}
exec(open(os.path.join(V, 'tools', 'manifest_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'manifest_more.py')) else None
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=p['id'], quick_cmd='python3 ' + T[p['id']][0], thorough_cmd='VERIF_TIER=thorough python3 ' + T[p['id']][0],
                      evidence_file=f"evidence/{p['id']}.json", technique=T[p['id']][1], level=T[p['id']][2], level_note=T[p['id']][3])
                 for p in props if p['id'] in T],
         not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'No check built yet.')) for p in props if p['id'] not in T])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks;', len(m['not_applicable']), 'not applicable')
