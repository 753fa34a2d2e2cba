"""Hand-written parts of DESIGN.md: property -> (oracle, why tests cannot, cost of the quick tier)."""
TEXT = {
"C01": ("the offset `p0 + s0 (p1 + s1 (p2 + ...))` in 64-bit arithmetic over plain vectors of coordinates; each stored pixel has its own value, so that two positions which share a pixel, or a pixel which is never reached, are seen; a write through each form of access is read through all the others.",
  "the tests use a 3D raster with lengths 3, 4, 5: they have no flat or empty axis, one dimension and one holder. Domains of 2^31 pixels and more cannot be allocated by tests, but index arithmetic can be checked without memory.", "2 s."),
"C02": ("a position is valid if and only if each coordinate is in [-length, length-1]; the pixel is that of the wrapped position; anything else throws `OutOfBoundsError`, and a snapshot of the data is unchanged.",
  "each axis has four ranges (two valid, two invalid); their combinations over all axes, dimensions and degenerate lengths are what one test per range does not reach.", "3 s."),
"C03": ("nested loops over plain coordinates. Histories keep two iterators and their models (index in the list of positions).",
  "the behaviour depends on the interplay of axis lengths (carry over flat axes, empty axes) and on sequences of operations on copied iterators.", "5 s."),
"C04": ("coordinate-wise formulas on plain vectors; surrounding boxes are painted, box by box, in a map of the grown box: each position is covered once.",
  "the number of surrounding boxes and their corners depend on which margins are null on which sides: 9 cases per axis.", "15 s."),
"C05": ("exact integer comparison of the P-th power of distances and radius, over the bounding cube; for shells, radii near the P-th root of an integer, where the result depends on rounding only if it is wrong.",
  "errors appear for radii between or just around integers, and off-centre balls only.", "6 s."),
"C06": ("contiguity by comparison of the offsets of all the positions of the region with consecutive integers; aliasing by writing on either side at every pixel and comparing a snapshot of everything else.",
  "the contiguity rule is universally quantified over regions: one wrongly accepted shape silently returns other pixels.", "4 s."),
"C07": ("the list of parent offsets of the region, in storage order; every write is compared with a model of the whole parent.",
  "iteration restarts at each row: single-column, single-row and full-width regions, and 4D ones, take different paths.", "5 s."),
"C08": ("each object is modelled by its values and whether it shares memory; after each operation, everything is compared, and the number of live heap blocks is exact at the end. Addresses of constructed data tell whether something was shared or copied.",
  "aliasing shows only after sequences (copy, then write; move, then assign...), with each holder.", "18 s."),
"C09": ("a model of ownership (which buffer owns or shares which block), the values, and the number of live blocks. `malloc` is interposed: the address modulo the alignment and the failure are part of the choices.",
  "the alignment shift depends on the address returned by the allocator: tests see the one address they get. Ownership errors need histories.", "15 s."),
"C10": ("the scalar operator on each element, written out in the harness for each operator, bitwise equal (signed zeros and NaN included). Programs are interpreted on vectors in parallel.",
  "aliasing (operand is the container or one of its elements), expression temporaries and element types combine: tests do one of each.", "11 s."),
"C11": ("the standard function at each element and the order of the operands, bitwise.",
  "tests check each function at random values: neither signed zeros and infinities, nor aliased arguments.", "2 s."),
"C12": ("formulas in long double (linspace, within 2-4 ulp, bounds exact), repeated addition (range), recorded calls (generate and apply: order, number and arguments).",
  "sizes 0 and 1, integer and complex types, descending bounds, bounds which are elements.", "5 s."),
"C13": ("comparison of plain vectors; the first minimum and maximum; a printed text built independently.",
  "comparison shortcuts go wrong for prefixes, single differences at one index, views of the same memory, NaN.", "5 s."),
"C14": ("sorted copy of the values and long double formulas; each query is compared after each history of queries.",
  "queries partially sort the shared values: an error depends on which queries were made before.", "6 s."),
"C15": ("a naive count of the values per interval; memory around counts is watched by AddressSanitizer.",
  "values equal to an edge, below, beyond, repeated; edges of another type; earlier queries.", "4 s."),
"C16": ("two generators with the same parameters run in parallel over all histories; bounds, tail limits and exclusion rules. The standard distributions themselves are trusted.",
  "reproducibility is a property of pairs of histories (stable noise must forget what other pixels hold).", "10 s."),
"C17": ("clamping and floored modulo in 128-bit arithmetic.",
  "far positions on either side, all combinations of inside and outside per axis, changes of the raster after decoration.", "2 s."),
"C18": ("multilinear weights and Catmull-Rom polynomials in long double over pixels fetched by the naive extrapolation; exact at integer positions.",
  "fractions near the grid, both sides of every border, each axis swapped with another; a wrong weight of symmetric data is not seen by tests.", "13 s."),
"C19": ("the naive weighted sum in wide arithmetic over naive extrapolation; guard pixels and a snapshot of the input.",
  "the split between interior and borders depends on all of image shape, kernel shape and origin: 10^5 combinations.", "17 s."),
"C20": ("the naive cropped sum of each line, applied axis by axis; composition is compared with the successive application.",
  "lines shorter than the kernel, extreme origins, strides and steps are separate branches.", "6 s."),
"C21": ("the arithmetic sequence computed by a loop; addresses of the elements for data samples.",
  "empty, single and exactly-ending samplings, with every mix of iterator operations.", "3 s."),
"C22": ("the full cropped correlation, subsampled; outputs are pre-filled with a mark and surrounded by guards.",
  "combinations of region, step, kernel and image sizes.", "8 s."),
"C23": ("sort of the values in the window fetched by naive extrapolation.",
  "ties, even windows, off-centre windows, regions; the buffer of neighbours survives from one pixel to the next.", "9 s."),
"C24": ("the defining sums in long double; linear in the impulses, so that impulses at each position decide all contents up to rounding.",
  "tests compare with another library call at one shape: odd lengths, flat axes and 4 axes differ.", "4 s."),
"C25": ("a model of the buffers of each plan (which plan shares, owns or borrows which), with results of the defining sums; exact count of live blocks and FFTW plans.",
  "lifetimes across moves, composition and destruction are properties of histories.", "30 s."),
"C26": ("list of increments computed from the explored clock readings, in exact integers.",
  "elapsed times cannot be chosen in tests: the clock is explored here.", "4 s."),
"C27": ("a model of the dependency graph: which steps have been evaluated; evaluation log (order, number, thrown steps), durations from the explored clock.",
  "order of requests, resets, copies and exceptions at any evaluation.", "5 s."),
"C28": ("an independent parser of the documented conventions, predicting the value of each option or an exception.",
  "all orders of tokens: repeated options, flags before positional ones, missing and extra values.", "18 s."),
"C29": ("an independent FITS decoder and encoder in the harness, files in a scratch directory; with faults, either the exact image or an exception, and the object remains usable.",
  "truncation at each length and failure of each I/O call are not reproducible in tests.", "8 s."),
"C30": ("the sum of the inputs at each pixel, after each history of strategies.",
  "a strategy which skips pixels is hidden by an earlier one which wrote the same sums.", "3 s."),
"C31": ("plain vectors of coordinates, products in 64 bits.",
  "all coordinates decide the predicates; dimensions 0 to 6.", "2 s."),
"C32": ("case by case definitions in wider types; visitors record the visited elements.",
  "the extremes of each of 18 types and conversions between them.", "3 s."),
"C33": ("the results of the two operations run alone; races are reported only when the result differs or memory is damaged: benign races do not raise alarms.",
  "schedules cannot be chosen by tests.", "9 s."),
"C35": ("the same as for C23, with the positions of the box, or of the ball by exact integer arithmetic.",
  "off-centre and flat elements, fractional radii, histories of operations of one element.", "15 s."),
"C37": ("for each operation, the result without fault; with a fault: bad_alloc or that result, unchanged inputs, usable objects, no leak.",
  "each allocation of each operation fails in turn; callbacks throw at each call.", "7 s."),
}
INITIALLY_MISSED = {
    "c16-rare": "impulse probabilities were coarse; totals just below 1 over long rasters (`rareImpulses`) were added",
    "c13-mixed-equality": "== was only explored on equal types; mixed types added",
    "c21-near-back": "floating point samplings did not end just before a sample; added",
    "c07-row-width": "rows were narrow; huge shapes were added",
    "c06-shifted-rows": "regions out of the domain were never as long as the raster; added",
    "c18-small-fraction": "fractions below 1e-3 were not in the alphabet; added",
    "c05-single-sum": "radii were small; `wide` radii added",
    "c35-large-element": "structuring elements were at most 5 wide; `large` windows added",
    "c26-offset-min": "offsets were non-negative; added",
    "c27-float-total": "durations were short; `scale` added",
    "c08-pointer-copy": "assignment between non-owning containers was not explored; added",
    "c32-long-segment": "segments were at most 7 long; long segments added",
 "c11-hypot": "the alphabet had no values which overflow when squared; extremes were added",
 "c12-fill-zero": "negative zero was compared with ==; bitwise since then",
 "c24-odd-lines": "3D shapes were too small; lengths up to 4",
 "c32-floor-far": "flooring beyond 2^31 was added",
 "c23-odd-middle": "depends on earlier executions in the process; the engine now replays histories of executions",
 "c20-flat-axis": "did not compile in the harness; refused builds because of /repo are violations",
 "c05-float-radius": "`shells` and L3 balls were added",
 "c16-poisson-mean": "mixed histories of means with tail bounds were added",
 "c18-snap": "fractions near the grid were added",
 "c28-negative-positional": "negative numbers as positional values were added",
 "c35-dilate-negative": "the letters had no negative values; added",
 "c37-apply-snapshot": "leaks of throwing functions were not counted; every live object is counted since then",
 "c17-domain-copy": "rasters were only modified, never replaced, under their decorators; `replaced` added",
 "c19-null-flag": "kernels changed only after construction with non-null values; null ones added",
 "c22-stride-4d": "lines were explored up to 3 axes; 4 and 5 added",
 "c32-multiline": "logged texts had no line feed; added",
 "c28-empty-argument": "values were never empty; added",
 "c20-map-order": "maps of kernels were in the order of the axes; others added",
 "c21-iterator-order": "iterators were compared in one order only; both added",
 "c16-seed-bits": "seeds fitted 32 bits; wider seeds added",
 "c25-compose-out": "chains of larger plans were added",
}
TAIL = """
## Mutation campaigns

Beside the planted bugs, a script applies one-token mutations (comparisons, arithmetic and logical operators, constants, deleted statements, begin/end...) to each library header in a copy, and runs
the checks of the header's properties (quick tier). Refused builds and violations count as caught. Survivors are examined one by one: they are equivalent mutants, message texts which no document specifies, or gaps which were then closed
(wrong sizes for array-backed holders; default arguments of structuring elements, noises, balls and projections).

## Defects

@FIXED@ `fixed:` lines in `KNOWN_FINDINGS`, one per repaired defect and property, with the `fix:` commits. The two known findings which are not repaired (C10, C11) come from the meaning of copies of non-owning rasters: `a + b`
copies `a`, and the copy of a `PtrRaster` shares its memory; changing the result type of operators of non-owning containers would change the interface.

False alarms corrected during development: C32 expected `isIterable<Box>` (not documented), C26 compared standard deviations too tightly, and C28 predicted lines which Boost.ProgramOptions leaves ambiguous.

## What is left out

* Not compiling or unfinished at this commit, with nothing to execute: `SeparableKernel::correlateSamples(To)`, `Ball<N, 0>` iterators, a `StepperPipeline` step whose prerequisite is a 1-tuple, `Matrix`/`Affinity` (C34), `Mask` (C38), `Png`/`Tiff` (C36); benchmark programs need the Elements
  framework, which is not installed. `Kernel1d::sparseCorrelate2dTo` is for 2D images only; `Fits` handles bytes only.
* Unspecified, and thus not judged: values of re-parsed `ProgramOptions` (Boost keeps the first ones), the size of an `ArrRaster` of null shape, named vectors of variable dimension (one coordinate by design), `Linear` and `Cubic` interpolation in variable dimension and of complex pixels other than linearly with `complex<double>` (do not compile), a `BallIterator` which outlives the centre of its ball.
* Boost leaks a value description passed to `add_options` when memory runs out: excluded from C37. FFTW planning is not thread-safe: transforms are excluded from C33.
"""
