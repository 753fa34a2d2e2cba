"""Per-property configuration of the harnesses (sources are harness/<id>*.cpp)."""
BASE = ["the compiler (g++ 9), libstdc++, AddressSanitizer and the explorer harness/mc_main.cpp are trusted",
        "values outside of the enumerated alphabets and sizes above the bounds are not covered"]
def check(bounds, technique, note="", libs=None, flags=None, repo_sources=None, assumptions=None, hang=15, asan=True):
    return {"bounds": bounds, "technique": technique, "note": note, "libs": libs or [], "flags": flags or [],
            "repo_sources": repo_sources or [], "assumptions": BASE + (assumptions or []), "hang": hang, "asan": asan}
CHECKS = {}
SMC = "stateless exhaustive enumeration of the real code (choice-tree DFS) against a reference model"
CHECKS["C01"] = check("quick: all shapes with lengths 0..5 (1-2 axes), 0..4 (3), 0..3 (4), 0..2 (5), fixed and variable dimension, 5 holders, "
  "8 pixel types, every position and every single-pixel write; thorough: lengths up to 7/5/4/3; domains of 1-5 axes with lengths among 1, 3, 255, 65537, 2^31-1, 2^31+5, 2^33+1 (up to 2^60 pixels, nothing allocated), at their remarkable positions; arrays of 300 and 70000 elements; the other supported types of values on smaller inputs", SMC)
CHECKS["C02"] = check("all shapes with lengths 0..9 (1 axis), 0..5 (2), 0..3 (3), 0..2 (4-5; fixed or variable), up to 2 (6), every position with coordinates in "
  "[-length-2, length+1], const and mutable; flat indices in [-2n-3, 2n+2] and extreme ones for sizes 0..12; thorough: lengths up to 20/8/4/3; domains of 1-5 axes with lengths among 1, 3, 255, 65537, 2^31-1, 2^31+5, 2^33+1 (up to 2^60 pixels, nothing allocated), at their remarkable positions and around", SMC)
CHECKS["C03"] = check("all boxes with fronts in {-1,0,2} and lengths -1..5 (1-2 axes), 0..3 (3), 0..2 (4), 1..2 (5-7), fixed and variable dimension, with each increment form; all raster "
  "domains with lengths 0..4 (up to 3 axes), 0..2 (4), 1..2 (5-8); all histories of 5-6 operations (pre/post-increment, copy, reset) over two iterators; thorough: lengths up to 7/4 and histories of 7-8; boxes of 1-4 axes with fronts up to +-2^62; boxes with one axis of 300, 65536 or 70001 positions, 1-3 axes and variable dimension", SMC)
CHECKS["C04"] = check("all boxes with fronts in [-2,2] and lengths 0..4 (1-2 axes) or 0..2 (3; 4-5 with fewer fronts), fixed and variable dimension, all box and vector operands over [-2,2], scalars {-4,1,6}; "
  "surround: all boxes with lengths 1..4 (1-2 axes), 1..2 (3-5), all margins with fronts -2..0 and backs 0..2 (thorough: 3); operators of boxes of 5-7 axes; clamping with up to 6 axes", SMC)
CHECKS["C05"] = check("dimensions 1-4, norms L1 and L2, radii 0..6.75 (1-2 axes), 0..3.75 (3), 0..2.75 (4) in steps of 1/4, centres with coordinates in [-1, 1..5], all shift forms, fixed and variable dimension; "
  "thorough: radii up to 12.75/5.75/3.75; L3 balls of 1-3 axes; radii which are the P-th root of an integer (up to 400, 150 or 40 in 1, 2, 3-4 axes; thorough: 2000/600/120) times 1 +- 1e-3, 1e-6, 1e-9 or 1e-12, with centres up to +-2^40; an L2 ball of 53 million positions with squared distances above 2^24; lengths and boxes of radii up to 1e15", SMC)
CHECKS["C06"] = check("all shapes with lengths 1..4 (1-3 axes), 1..3 (4) or 1..2 (5-6), fixed and variable dimension, all in-domain regions, all slice dimensions, a write on either side at every pixel; "
  "all sections (lengths 1..4) and nested sections down to dimension 1; thorough: lengths up to 5/4; regions of domains of 1-5 axes with lengths among 1, 3, 255, 65537, 2^31-1, 2^31+5, 2^33+1 (up to 2^60 pixels, nothing allocated), at their remarkable positions; empty regions, and regions shifted out of the domain, refused by slices", SMC)
CHECKS["C07"] = check("all shapes with lengths 1..6 (1 axis), 1..4 (2-3), 1..2 (4-6), fixed and variable dimension, all in-domain regions, const and mutable views, a write on "
  "either side at every pixel; all histories of 5 iterator operations (pre/post-increment, copy) over two iterators; thorough: lengths up to 5/3, histories of 7; regions of domains of 1-5 axes with lengths among 1, 3, 255, 65537, 2^31-1, 2^31+5, 2^33+1 (up to 2^60 pixels, nothing allocated), at their remarkable positions; the beginning of rows of up to 2^60 pixels; views over rasters with one axis of 300, 65536 or 70001 pixels; iterators copied by post-increment", SMC)
CHECKS["C09"] = check("all histories of 4 operations (thorough: 5) over two buffers among construction (3 sizes x 5 alignments, owning or sharing), copy, move, copy- and move-assignment, "
  "self-assignment, release, reset, element write, sharing of the other's data, for two element types; owning construction for sizes 0..9, 13 alignments and 5 element types; "
  "sharing for all pointer misalignments 0..130; construction, copy, assignment, move and release for sizes 0..3, 6 alignments, 7 element types (1 to 48 bytes) and all the addresses of the two "
  "blocks returned by malloc(), modulo 128 bytes (thorough: 512); sizes whose size in bytes overflows, for each remainder 0..26, 6 alignments and 4 element types; buffers of up to 70001 elements", SMC + ", with live heap block accounting and an allocator whose addresses are explored",
  libs=["-Wl,--wrap=malloc", "-Wl,--wrap=free"], assumptions=["AddressSanitizer traps double frees and out-of-block accesses"])
CHECKS["C08"] = check("all histories of 4 operations (thorough: 5) over two objects among constructions (from shape, list, iterable, pointer, moved container; 2-3 shapes), copy and move construction "
  "and assignment, self-assignment, element write, extraction and destruction, for vector, valarray, array and aligned holders, fixed and variable dimension; 5-6 operations for non-owning rasters "
  "and for coordinate vectors; all data sizes 0..6 against all shapes with lengths 0..4; sizes 0..4 (arrays: every wrong size and shape) against fixed capacities; non-owning rasters of the same or another shape and memory assigned to each other; all histories of 2 (thorough: 3) operations over pairs of rasters of 2 to 70001 pixels, 7 kinds of constructions", SMC + ", with live heap block accounting")
CHECKS["C10"] = check("all operators and increments on all pairs of operand vectors of size 0..3 over 6- (sizes 1, 2) or 3-letter alphabets per type, all scalars of the alphabet, 6 element types, 5 holders "
  "and coordinate vectors, with self- and element-aliasing; all straight-line programs of 4 instructions (thorough: 5) among 14 on two variables; all sizes 0..70 and those around powers of two and their halves up to 1100 (thorough: 0..280, up to 8800) with a dense content; all pairs of extreme magnitudes per type, 4 groups of operators, wherever defined; the operators, increments and extremes for all other supported types", SMC)
CHECKS["C11"] = check("all 39 functions, in place and new instance, with no, container, standard vector, scalar and self arguments, on all pairs of vectors of size 0..1 over a 12-letter alphabet "
  "(0, -0, fractions, infinities, NaN) and of size 2 over 5 letters (thorough: 12), float and double; 16 functions on 3 integer types; 14 plus real, imag, abs, arg, norm on complexes; all sizes 0..70 and those around powers of two and their halves up to 1100 (thorough: 0..280, up to 8800) with a dense content; extremes, infinities and NaN in all pairs; sequences of 0..2 elements of all other integer and extended types", SMC)
CHECKS["C12"] = check("fill, range and linspace with every pair of arguments among 6 values and the elements themselves, sizes 0..5 (linspace 0..9), 13 container and element types; "
  "generate and apply with 0..3 argument containers (self, vector, longer container, raster), sizes 0..4, as lvalue or temporary function; thorough: sizes up to 40, 12 and 9; all sizes 0..70 and those around powers of two and their halves up to 1100 (thorough: 0..280, up to 8800) with a dense content; signed zeros and NaN; fill, range and linspace between all pairs among 7 extreme bounds, sizes 0..13, 8 integer types; one size of 70001; fills, ranges and generations for all other supported types", SMC)
CHECKS["C13"] = check("all sequences of length 0..3 (thorough: 4) over 5 values per type (signed zeros, extremes), compared with all sequences of length 0..2 and all their own variations; 6 containers; "
  "lengths 0..12 (thorough: 24) for printing and extrema; all pairs of shapes with lengths 0..3 (1-3 axes); all sizes 0..70 and those around powers of two and their halves up to 1100 (thorough: 0..280, up to 8800) with a dense content with one difference at each remarkable index; all pairs of overlapping views of one memory; comparison of rasters of different value types over values of each which the other does not represent; the other supported types of values on smaller inputs", SMC)
CHECKS["C14"] = check("all value sequences of length 1..4 over 3 values with all histories of 2 (thorough: 3) among 12 queries then every query; of length 1..5 (thorough: 6) over 5 values with histories of 1; "
  "all permutations of up to 6 (thorough: 7) values; 7 element types; all sizes 1..71 and around powers of two up to 550 with 5 patterns, every rank; values of the order of 1e8 to 4e15 (2^28 to 2^62 for integers) with deviations 0..7; order statistics of all sequences of length 1..4 over 6 extremes; the other supported types of values on smaller inputs", SMC + "; floating point results within 64 ulp")
CHECKS["C15"] = check("all value sequences of length 0..4 (thorough: 5) over 6 values with all increasing sets of 1..4 (thorough: 6) edges among the same values, 5 pairs of value and edge types; "
  "histories of 2 (thorough: 3) among 9 queries, four kinds of bin containers; up to 7 (thorough: 10) bins with repeated values; sizes up to 550 with 1..257 bins of width 1, 2, 5; all sequences of length 0..3 over 7 extremes (infinities included) with all sets of edges among them, 8 types; up to 70001 values and hundreds of bins; the other supported types of values on smaller inputs", SMC)
CHECKS["C16"] = check("8 seeds; all histories of 4 (thorough: 7) generations, applications and copies for uniform noise (5 bounds, 5 types) and Gaussian noise; Poisson noises with 4 means and all histories of 4; "
  "stable Poisson on all pairs of sequences of length 1..3 over 5 values followed by equal ones; impulse noise with all 1..3 probabilities among 7, 40 (thorough: 200) draws; default arguments; 8 kinds of time-seeded generators at 12 times with 12 gaps (controlled clock); Poisson values bounded by tails of probability below 1e-18 in mixed histories of means; frequencies of 12 to 41 classes of values over 10000 or 20000 draws, for 2-4 seeds (thorough: 8), all kinds of noises, 4-9 parameters and all impulse probabilities, within 6 standard deviations; impulses of probability 1e-3, 1e-6 or all but those; time passes between the operations on seeded generators; the other supported types of values on smaller inputs; up to 16 impulses at once; rasters made of random values", SMC,
  assumptions=["the engines and distributions of the standard library are deterministic functions of their seed and parameters"])
CHECKS["C17"] = check("all shapes with lengths 1..6 (1 axis), 1..4 (2), 1..2 (3, 5), 1 (4), fixed and variable dimension, all positions with coordinates in [-2 length - 2, 3 length + 2] ([-length - 1, 2 length] with 5 axes), and far positions (1e9, 4e18) along "
  "all subsets of the axes, 3 methods, before and after every pixel change among 4; thorough: lengths up to 9/6/4; one axis of 300, 65536 or 70001 pixels; the other supported types of values on smaller inputs; all histories of replacements of the raster (shape, content, moves) under the extrapolator", SMC)
CHECKS["C18"] = check("all shapes with lengths 1..6 (1 axis), 1..3 (2), 1..2 (3-5, nearest up to 4; cubic: 2 or 4 with 4 axes), dense image and impulses at up to 6 pixels, none or 3 extrapolation methods, positions from -length - 2 to 2 length + 3 with 6 "
  "fractions (3 in 3D, 1-2 in 4-5D), nearest-neighbour (also variable dimension), linear and cubic methods; thorough: lengths up to 9/4/3; fractions 2^-10, 2^-20, 2^-30 and 1 minus those near the grid; all contents of 1..4 pixels over 4 extreme integers, 5 types, 3 methods; nearest neighbour of the grid and half-integers, the 1-3 units in the last place around them and 2^-20 or 2^-30 away, up to 2^52, against exact rounding; one axis of 300, 65536 or 70001 pixels; the other supported types of values on smaller inputs; all histories of replacements of the raster under the interpolator", SMC + "; floating point results within 2e-6 (float) or 1e-13 relative")
CHECKS["C19"] = check("all image shapes with lengths 1..6 (1 axis), 1..4 (2), 1..3 (3), all kernel shapes with lengths 1..5, 1..3, 1..3, all origins inside the kernel, 3 extrapolation methods, "
  "8 combinations of types; thorough: image lengths up to 9/6/4 and kernel lengths up to 9/4/3; images of 1, 20, 64, 257 pixels (1 axis), 3 or 24 (2), 2 or 9 (3) with kernels of 7..65, 1..17, 1..5, 3 origins per axis, 4 contents; long and long double products and sums beyond 2^53; fixed and variable dimension; windows of lengths 1..3, 1..2, 1..2 (1, 2, 3 axes) up to 8, 2, 1 positions away from the origin; one axis of 300, 65536 or 70001 pixels; the other supported types of values on smaller inputs; all histories of changes of the image, kernel and origin, null kernels included", SMC)
CHECKS["C21"] = check("all axis samplings with fronts -3..3, backs -6..7, steps 1..4 (times 1/4 for floating points), 4 types, and all histories of 3 iterator operations among 6; all data samples with sizes 0..7, "
  "strides 1..2, fronts 0..3, any back or the default one, steps 1..3, and histories of 2-3 operations; all histories of 4 moves among 8; position samplings of 1-3 axes, fixed and variable dimension; "
  "thorough: backs up to 12, sizes up to 12, strides up to 3, histories of 4 and 6; backs a billionth before or after a sample; samples and samplings of up to 70001 values; comparisons of all pairs of iterators in both orders; position samplings of 4 and 5 axes", SMC)
CHECKS["C20"] = check("line kernels of sizes 1..5 with all origins, lines of lengths 0..7 with all fronts, backs, steps 1..3, strides 1..2, all output layouts, 4 combinations of types; separable kernels of 1-3 "
  "components of sizes 1..3 (1..2 for 3 components) with all origins along 12 lists of axes (repeated axes included), rasters with lengths 0..6 (1 axis), 0..4 (2), 0..2 (3), fixed and variable dimension; "
  "all presets on a dense image and all impulses; thorough: sizes up to 7, lengths up to 10, 9/5/3; lines of 1..200 values with kernels of 8..65, 4 origins, 5 contents, fronts 0 and half, steps 1, 2, 7; long and long double products and sums beyond 2^53; origins outside of the kernels, up to 2 positions further than the line length, or 1..4 (separable); kernels of 300 elements and lines of 700; lines of 70001 values; maps from unsorted axes to kernels, with other axes along with that of the kernel; the other supported types of values on smaller inputs; kernels of up to 1025 elements; axes missing from maps refused", SMC)
CHECKS["C22"] = check("kernels of sizes 1..5 (lines) or 1..4 (planes) with all origins; lines of lengths 0..7 with all fronts, backs, steps 1..3, strides 1..2, all output layouts, 3 combinations of types; "
  "rasters with lengths 0..7 (1 axis), 0..5 (2), 0..3 (3), fixed and variable dimension, along each axis; images with lengths 1..4, all regions and steps 1..3, 4 combinations of types; "
  "thorough: sizes up to 7 and 5, lengths up to 10, 10/7/4, 5; lines of 1..200 values with kernels of 8..65, 4 origins, 5 contents, fronts 0 and half, steps 1, 2, 7; long and long double products and sums beyond 2^53; origins outside of the kernels, up to 1 position (plane) or 2 positions (lines) further than the length; kernels of 300 elements and lines of 700; lines of 70001 values, along each axis; the other supported types of values on smaller inputs; along each of 4 and 5 axes of lengths 1..2", SMC)
CHECKS["C23"] = check("all contents over 4 (1 axis, up to 5 pixels) or 3 letters (2 axes, up to 4 pixels) with windows with fronts -4..1 and lengths 1..5 (1 axis), -1..1 and 1..2 (2), 3 extrapolation methods; dense images with "
  "lengths 1..7 (1 axis), 1..4 (2), 1..2 (3), windows with fronts -4..1 and lengths 1..6, -2..1 and 1..4, -1..0 and 1..2 (same with 4 axes, the front varying along 2 axes), all or up to 3 regions per axis, an empty one and the interior without "
  "extrapolation, fixed and variable dimension; all radii 0..2; medians of all sequences of length 1..7 over 4 letters; thorough: up to 6 pixels and windows of length 3, lengths up to 9/5/3 with all regions, sequences up to 8 over 5 letters; all contents of 1..5 pixels over 4 extremes with windows of 1..9 positions, 5 types; windows of 65 to 330 positions on images of 5 to 300 pixels in 1-3 axes with 5 contents; one axis of 300, 65536 or 70001 pixels; the other supported types of values on smaller inputs", SMC)
CHECKS["C31"] = check("dimensions 0..5, fixed and variable, all coordinates over {-1, 0, 1, 2, infinity} and minus infinity (up to 3 axes), 4 types, built in 8 ways, all slices and extensions up to dimension 6 with two "
  "paddings; all shapes over {0, 1, 2, 3, 100003}; named vectors of 5 types", SMC)
CHECKS["C32"] = check("clamping of 12-21 values with all bounds among 4-7, 7 pairs of types; flooring of 12 integers plus 4 fractions and of their predecessors, 6 pairs of types, and of 801 quarters; limits and traits of the "
  "18 supported types; sequences (vector, list, tuple, array) of 0..4 elements (thorough: 5) over 4 values; heterogeneous tuples; all histories of 3 (thorough: 4) appends, copies and throws of exceptions; all bounds and values "
  "among 6-8, 4 types; all segments with fronts -5..5 and sizes 0..6; flooring of all the powers of two which fit the integers, their halves and neighbours; segments of up to 2^40 positions; messages of several or hundreds of characters and several lines; sizes up to 2^64 - 1", SMC)
CHECKS["C24"] = check("all shapes with lengths 1..16 (1 axis), 1..6 (2), 1..4 (3), 1..2 (4), fixed and variable dimension, impulses at every position and a dense content, real and complex, direct and inverse, convenience functions "
  "on 9 raster types, plans with own or user buffers, run twice; thorough: lengths up to 40/9/5/3; impulses in 4 and 5 dimensions; inverse plans of inverse plans; one axis of 256 to 1025 values", SMC + "; floating point results within 1e-11 relative", libs=["-lfftw3"])
CHECKS["C25"] = check("all histories of 4 (a 1D and a 2D shape) or 3 operations (thorough: 5 or 6) after the creation of a plan of one of 4 kinds with own, half own or user buffers, on 5 shapes of 1, 2 and 3 axes, fixed and variable dimension, among creation, inverse, "
  "composition with the 1-3 compatible kinds, filling, transform, normalization, move construction, move assignment and destruction, with up to 3 plans at a time; chains of plans on 45 larger shapes of 1-3 axes (up to 5000 values), 4 buffer configurations", SMC + ", with live heap block accounting", libs=["-lfftw3"],
  assumptions=["AddressSanitizer traps double frees and accesses to released buffers"])
CHECKS["C26"] = check("all histories of 6 (thorough: 7) operations among start, stop, reset with and without offset, with 4 clock advances, 4 time units; of 6 (thorough: 7) operations and copies on two chronometers, 2 units; "
  "all sequences of 1..6 (thorough: 8) increments among 4 neighbouring values, from 0 to 3e9 units, 3 units; negative initial offsets; 255 to 70001 increments; up to 24 (thorough: 40) increments with the smallest and largest at all places", SMC + " under a controlled clock; standard deviation within 1e-9 of the largest increment",
  assumptions=["the chronometer reads the clocks of the C++ standard library only"])
CHECKS["C27"] = check("all histories of 5 (thorough: 6) requests and resets on 4 graphs of 4 or 5 steps (chain, diamond, several roots, ladder; values, references and no return value), with up to 2 faults at any evaluation; "
  "of 4 (thorough: 5) requests, resets and copies on two pipelines with 1 fault, 2 graphs; durations from 0 to 3e9 ms", SMC + " under a controlled clock and a fault injector", assumptions=["durations are measured with the clocks of the C++ standard library only"])
CHECKS["C28"] = check("4 sets of declarations (all kinds and 5 value types) with all command lines of 0..4 (thorough: 5) tokens among 4-14; all subsets of 5 declarations in 5 orders with "
  "all command lines of 0..3 (thorough: 4) tokens among 6; all parse forms; all histories of 5 (thorough: 6) declarations, copies and destructions of two objects, with 4 command lines after each; lines of 5..1000 positional or repeated values, with flags before, in the middle or after; lines of 0..4 (thorough: 5) tokens among 8 for options with custom semantics (required, stored in a variable, notified, implicit value, composing); empty, quoted, blank and non-ASCII values of options and arguments in vectors and strings",
  SMC, libs=["-lboost_program_options"], assumptions=["Boost.ProgramOptions conventions for option syntax; ambiguous lines (an unknown option as a value) are left out"])
CHECKS["C29"] = check("all shapes with lengths 0..4 (1-2 axes), 0..3 (3), 1..2 (4-6; thorough: 11 axes) and 11 shapes around the size of blocks, 3 contents, 5 raster types, fixed and variable dimension; 7 kinds of unreadable files and 3 of unwritable ones; open file descriptors around every operation; "
  "truncation at one length out of 7 and all those near the blocks, cards and end of data (thorough: all lengths); a fault at every input or output call while reading and writing 4 images; all histories of 4 (thorough: 5) writes, "
  "reads, removals, truncations and copies over two files and three objects; images of up to 70001 pixels along one axis", SMC + " with fault injection, against an independent FITS decoder", libs=["-lcfitsio", "-ldl"],
  assumptions=["rasters of bytes", "faults are failures of the C library calls made by CFITSIO"])
CHECKS["C30"] = check("sides 0..4 (thorough: 6), 3 initial contents, all histories of 4 (thorough: 5) runs of the 8 strategies and changes of the inputs, with the output perturbed before each; all pairs of pixel values, each strategy; sides 5..64 and 131 (thorough: 257)", SMC,
  repo_sources=["LitlRun/src/lib/IterationBenchmark.cpp"])
CHECKS["C33"] = check("all pairs of 29 operations in two threads sharing their inputs, kernels and filters; every memory access of the instrumented code is monitored: for pairs without conflicting access, all single preemptions "
  "(thorough: all pairs of preemptions, where there are up to 250 points) at reads of the shared objects; for pairs with conflicts, all schedules with up to 2 (thorough: 3) preemptions at the conflicting accesses, too",
  "stateless exploration of the thread interleavings of the real code, instrumented at each memory access, under a controlled scheduler with a preemption bound and conflict-based partial-order reduction", asan=False,
  libs=["-Wl,--wrap=malloc,--wrap=free,--wrap=memmove,--wrap=memcpy,--wrap=memset,--wrap=pthread_mutex_lock"],
  assumptions=["accesses made inside precompiled libraries (other than memory copies) are not scheduling points", "sequential consistency"])
CHECKS["C37"] = check("43 operations over all of the library, in which each allocation fails in turn, and each pair of allocations in two consecutive runs; generate and apply with 0 or 1 argument container, 5 containers, sizes 0..5 "
  "(thorough: 12), with an exception thrown at each call in turn", SMC + " with fault injection and live heap block accounting", libs=["-Wl,--wrap=malloc", "-lfftw3", "-lboost_program_options"],
  assumptions=["allocations made inside FFTW and CFITSIO do not fail", "the standard library and Boost are exception-safe"])
CHECKS["C35"] = check("boxes with fronts -4..1 and lengths 1..5 (1 axis), -2..1 and 1..3 (2), -1..1 and 1..2 (3; 4 axes with one front), balls of radii 0..4 (1 axis) or 0..2.5 (2 axes) in steps of 1/2 with centres in [-1, 1], L1 and L2, images with lengths 1..7, "
  "1..4, 1..2, fixed and variable dimension, 3 extrapolation methods, whole, flat, cropped and empty regions; all contents over 4 (1 axis, up to 5 pixels) or 3 letters (2 axes, up to 4 pixels); all histories of 4 "
  "(thorough: 5) operations, changes of the image and copies with one element; all contents of 1..5 pixels over 4 extremes with windows of 1..9 positions, 5 types; windows of 65 to 330 positions on images of 5 to 300 pixels in 1-3 axes, with one extreme pixel at 12 (thorough: 60) positions; one axis of 300, 65536 or 70001 pixels; the other supported types of values on smaller inputs", SMC)
