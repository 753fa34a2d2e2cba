#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
R = "LitlRaster/LitlRaster/"; C = "LitlContainer/LitlContainer/"; T = "LitlTransforms/LitlTransforms/"
Y = "LitlTypes/LitlTypes/"; U = "LitlRun/LitlRun/"; I = "LitlIo/LitlIo/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": observe or [], "hook_needed": hook}})

p("C01", "Pixel positions map one-to-one to storage, first axis fastest",
  "For every raster, of fixed or run-time dimension and whatever memory holder, each in-domain position designates exactly one stored pixel, "
  "position p being at offset p0 + s0*(p1 + s1*(p2 + ...)), so that access by position, by flat index and by iteration always reach the same pixel, for reading and for writing. "
  "Shape, per-axis length, dimension, domain, number of pixels and position containment tests all agree with the shape given at construction.",
  ["inputs", "configurations"], "all shapes with axis lengths 0..4 (fixed dimension 1-5 and variable dimension), all positions, all holders and several pixel types",
  "Tests index a couple of random 3D/4D shapes with random values; they do not compare every position of every small shape, anisotropic lengths of 1, or the variable-dimension path.",
  [R+"Raster.h", R+"impl/Raster.hpp", R+"Vector.h"], [("row-major index recursion (fixed and variable dimension)", R+"impl/Raster.hpp"), ("shape size and stride", R+"Vector.h")],
  observe=["Raster::index", "Raster::operator[]", "Raster::contains", "Raster::domain", "Raster::begin"])

p("C02", "Checked access: negative indices wrap, anything outside throws",
  "Checked element access accepts, along every axis, exactly the coordinates from minus the length to the length minus one, negative ones counting from the end, and returns the pixel that the equivalent non-negative position designates. "
  "Any other coordinate, along any axis, raises the out-of-bounds exception and leaves the data untouched; the same holds for one-dimensional checked access by flat index.",
  ["inputs"], "all small shapes (fixed and variable dimension), all positions with each coordinate in [-length-2, length+1], const and mutable access",
  "The tests check a few backward positions of one raster; bounds errors are a per-axis, off-by-one kind of property.",
  [R+"impl/Raster.hpp", C+"DataContainer.h", Y+"Exceptions.h"], [("bounds test then wrap, per axis", R+"impl/Raster.hpp"), ("bounds test then wrap, flat", C+"DataContainer.h"), ("throwing helper", Y+"Exceptions.h")],
  observe=["Raster::at", "DataContainer::at"])

p("C03", "Iterating over a box visits every position once, in storage order",
  "Iterating over a box or over a raster's domain yields every position of the box exactly once, in increasing storage order, and then ends, including for boxes which are flat or empty along some axes (an empty box yields nothing), with negative fronts, in fixed or variable dimension. "
  "This holds for every mix of pre- and post-increment, dereference, copy, reset and end-comparison on the iterators, and several iterators over one box do not influence each other.",
  ["inputs", "histories"], "all boxes with fronts in {-1,0,2} and per-axis lengths 0..4 (1-4 axes, fixed and variable), all iterator operation sequences up to a bound",
  "The tests iterate over one 3D box; emptiness along one axis, single-pixel axes and iterator-operation histories are not enumerated.",
  [R+"BoxIterator.h", R+"Box.h"], [("carry propagation and end encoding in the position iterator", R+"BoxIterator.h")],
  [("current position", "where the iterator is; the end is encoded as a position outside of the box", R+"BoxIterator.h")], ["begin/end on Box", "Box::Iterator"])

p("C04", "Box arithmetic is coordinate-wise and surround boxes tile the margin",
  "Box shape, length, size, shifting, growing and shrinking by a margin, projection, negation, comparison and clamping of a position are coordinate-wise exact: a new-instance operation never modifies its operands and an in-place one modifies exactly its target. "
  "The boxes created around a box for a margin are non-empty, pairwise disjoint, disjoint from the box, and together with it cover exactly the box grown by the margin.",
  ["inputs"], "all small boxes (1-3 axes, fixed and variable dimension) and all margins with front in -2..0 and back in 0..2; all operators",
  "One 2D example is checked; disjointness and exact cover are universally quantified over boxes and margins.",
  [R+"Box.h"], [("front/back bookkeeping while peeling the margin axis by axis", R+"Box.h"), ("boost operator generation", R+"Box.h")], observe=["Box operators", "Box::surround", "project", "clamp"])

p("C05", "Iterating over a ball visits exactly the positions within its radius",
  "Iterating over a ball with the L1 or L2 norm visits exactly the integer positions whose distance to the centre is at most the (real) radius, once each and in increasing storage order, whatever the centre. "
  "The ball's bounding box, shape and lengths are the smallest ones enclosing these positions, its size is their number, and shifting a ball shifts the visited positions.",
  ["inputs"], "dimensions 1-4, radii 0..3 in steps of 1/4, several centres including negative coordinates, norms L1 and L2",
  "Tests look at a few integer radii around fixed centres and print the rest.",
  [R+"Ball.h", R+"BallIterator.h"], [("skip positions of the bounding box farther than the radius", R+"BallIterator.h"), ("bounding box from truncated radius", R+"Ball.h")], observe=["begin/end on Ball", "Ball::size", "Ball::box"])

p("C06", "Slices and sections alias exactly the requested contiguous region",
  "A slice is granted exactly for the regions which are contiguous for the requested dimension (full span along all axes before the last one, flat along all axes after) and refused with an exception otherwise. "
  "A slice or section has the region's shape and its pixel at q is the parent's pixel at front + q, sharing memory: writes on either side are seen by the other and no other pixel is touched. "
  "Sections can be nested, in fixed and variable dimension.",
  ["inputs", "histories"], "all shapes with lengths 1..3 (1-4 axes), all regions inside them, all slice dimensions, nested sections, read and write histories",
  "The tests section one raster at a few indices; acceptance and refusal is a statement over all regions.",
  [R+"Raster.h", R+"impl/Raster.hpp"], [("contiguity test", R+"impl/Raster.hpp"), ("non-owning view built at the region front", R+"impl/Raster.hpp")], observe=["Raster::isContiguous", "Raster::slice", "Raster::section"])

p("C07", "A subraster is an exact view of its region, for access and iteration",
  "A subraster over any in-domain region has the region's shape and size, its pixel at q is the parent's pixel at front + q (same memory), and iterating over it visits the region's pixels once each in storage order, then ends. "
  "Reads and writes through the view and through the parent are mutually visible and never touch a pixel outside of the region.",
  ["inputs", "histories"], "all shapes with lengths 1..3 (1-4 axes, fixed and variable), all regions inside them, const and mutable views, iterator operation sequences",
  "Tests iterate over a single 3D region of one raster.",
  [R+"Subraster.h", R+"SubrasterIterator.h", R+"BoxIterator.h"], [("row-wise pointer walk with jumps driven by a position iterator", R+"SubrasterIterator.h")],
  [("current/end-of-row pointers", "walk the region row by row", R+"SubrasterIterator.h")], ["Subraster::operator[]", "begin/end on Subraster"])

p("C08", "Containers have value semantics for every holder and history",
  "Every history of constructions (from shape, list, iterable, pointer or moved container), copies, moves, assignments, element writes and container extraction leaves each owning container with exactly its own size and values: copies are independent, moved-to containers hold the source's values, assignment replaces everything, self-assignment is harmless. "
  "Non-owning containers share the memory they were given, nothing is leaked or freed twice, and constructing from data whose size does not match the shape raises an exception.",
  ["histories", "inputs"], "all histories of length up to 4 over 2-3 objects, for vector, valarray, array, pointer and aligned holders, fixed and variable dimension",
  "Tests check individual constructors; aliasing after a sequence of copies and moves is a property of histories.",
  [C+"Holders.h", C+"DataContainer.h", C+"Sequence.h", C+"AlignedBuffer.h", R+"Raster.h"], [("holders", C+"Holders.h"), ("defaulted copy/move of data containers", C+"DataContainer.h"), ("raster constructors", R+"Raster.h")],
  observe=["Raster/Sequence constructors", "operator=", "moveTo", "data()"])

p("C09", "Aligned buffers: alignment, ownership and lifetime over any history",
  "Over any history of construction (owning or sharing, any power-of-two alignment), copy, move, assignment, release and reset, an aligned buffer's data meets its alignment requirement, its values are those last given, and every allocated block is freed exactly once by the end, except released blocks, which are left to the caller. "
  "Copies of an owning buffer own an independent copy, moves transfer ownership, a moved-from or reset buffer is empty and owns nothing. "
  "Sharing a pointer which is not aligned as required raises the alignment exception.",
  ["histories", "inputs"], "all operation histories up to length 4-5 over two buffers; element types of several sizes; sizes 0..5; alignments 1..64 and defaults; all pointer misalignments below 64",
  "Tests construct a handful of buffers; leaks and double frees appear only after particular sequences of copy, move and release.",
  [C+"AlignedBuffer.h"], [("over-allocation and rounding up", C+"AlignedBuffer.h"), ("container pointer as ownership flag", C+"AlignedBuffer.h")],
  [("container/data/size/alignment", "unaligned block (null if not owned), aligned pointer, size, requirement", C+"AlignedBuffer.h")], ["AlignedBuffer", "AlignedRaster"])

p("C10", "Pixelwise arithmetic equals the scalar operation at every element",
  "Every arithmetic operator between containers, or between a container and a scalar on either side where offered, gives at each element the result of the scalar operation on the operands' original elements, whatever the holder, pixel type and size, and also when the operand is the container itself or one of its own elements. "
  "In-place operators modify and return their target only; new-instance operators leave operands unchanged, with the shape of the container operand; increments, decrements, unary plus and minus likewise.",
  ["inputs", "programs"], "all operators x all small operand vectors from an integer/float/complex alphabet, sizes 0..4, holders, aliasing patterns, and operator programs up to length 3 on two variables",
  "Tests use a few fixed values per operator and never alias the scalar with an element.",
  [C+"Arithmetic.h"], [("in-place transforms and boost operators", C+"Arithmetic.h")], observe=["operators of Raster, Sequence, Vector"])

p("C11", "Pixelwise math functions equal the standard functions at every element",
  "Every pixelwise mathematical function, nullary, with a scalar or with a container argument, gives at each element exactly the corresponding standard function of that element (and argument), first operand first. "
  "The in-place form modifies its target only and the new-instance form leaves its input unchanged and keeps its shape; real, imaginary, absolute value, argument and norm of complex rasters likewise.",
  ["inputs"], "all functions x all pairs of elements from an alphabet including 0, -0, negatives, fractions, infinities and NaN, float/double/int/complex, with scalar, raster, vector arguments and self-aliasing",
  "Tests compile the functions and compare a few values.",
  [C+"Math.h", R+"Raster.h"], [("macro-generated transforms", C+"Math.h"), ("complex to real maps", R+"Raster.h")], observe=["math member and free functions"])

p("C12", "Fill, range, linspace, generate and apply write the documented values",
  "Filling sets every element to the value; a range starts at the minimum and adds the step exactly each time; a linear space starts and ends exactly at its bounds with evenly spaced values in between, for any size including 0 and 1, any element type, ascending or descending, even when the arguments are elements of the container. "
  "Generating or applying a function calls it exactly once per element in order, with the corresponding elements of every argument container, and stores its result there and nowhere else.",
  ["inputs"], "sizes 0..6, element types char to double, bounds and steps from a signed alphabet, aliasing of arguments, stateful functions with 0-3 arguments",
  "Tests use one size, and ascending bounds.",
  [C+"DataContainer.h", Y+"SeqUtils.h"], [("range/linspace/generate/apply loops", C+"DataContainer.h"), ("iterator tuples", Y+"SeqUtils.h")], observe=["fill", "range", "linspace", "generate", "apply"])

p("C13", "Comparison, extrema, element access and printing agree with the elements",
  "Two containers are equal if and only if they have the same size (and shape) and the same elements, inequality being the opposite, across holders. "
  "The minimum and maximum refer to the first smallest and largest elements, front, back, iterators and emptiness agree with the element sequence, and streaming prints all elements up to 7 and otherwise the first three and last three.",
  ["inputs"], "all pairs of containers of size 0..3 over a 3-letter alphabet, all shapes with equal sizes, all sizes 0..10 for printing, all holders",
  "A few equal and unequal pairs are tested.",
  [C+"ContiguousContainer.h", C+"DataContainer.h", R+"Raster.h"], [("equality operators", C+"ContiguousContainer.h"), ("raster equality", R+"Raster.h"), ("min/max/minmax", C+"DataContainer.h"), ("stream insertion", C+"ContiguousContainer.h")],
  observe=["operator==", "operator!=", "min", "max", "minmax", "operator<<"])

p("C14", "Data distribution parameters do not depend on the history of queries",
  "The size, minimum, maximum, sum, mean, n-th smallest value, linearly interpolated quantile, median, variance and median absolute deviation of a distribution are those of the multiset of values it was built from, whatever queries (or sorting) were made before and in whatever order. "
  "Quantiles 0, 1/2 and 1 are the minimum, the median and the maximum, and later changes of the source container have no effect.",
  ["histories", "inputs"], "all value vectors of size 1..5 over a small signed alphabet (with ties), int and double, all query histories of length up to 3",
  "Tests query sorted data in one order; the partial sorting state makes results history-dependent if wrong.",
  [C+"DataDistribution.h"], [("partial sort on demand with a sorted flag and cached sums", C+"DataDistribution.h")],
  [("partially sorted values, sorted flag, sums", "mutated by queries", C+"DataDistribution.h")], ["DataDistribution methods", "DataContainer::distribution"])

p("C15", "Histograms count each in-range value in exactly one bin",
  "A histogram has one count per interval of consecutive bin edges: each value belongs to the bin whose lower edge it reaches and whose upper edge it does not, values equal to the last edge belong to the last bin, and values outside of the edges are ignored. "
  "This holds for any increasing edges and any values, in any order, before or after other queries, and no memory is touched outside of the counts.",
  ["inputs", "histories"], "all value vectors of size 0..5 over -1..4 and all increasing edge lists drawn from -1..4 (2 edges or more), int and double edges, with preceding queries",
  "One histogram with values strictly inside is tested.",
  [C+"DataDistribution.h"], [("single merge pass over sorted values and edges", C+"DataDistribution.h")], observe=["DataDistribution::histogram"])

p("C16", "Seeded noise is reproducible, bounded and stable where promised",
  "A noise generator built from a given seed yields the same values whenever it is built again, applying an additive noise adds exactly the value that generation would have produced, uniform values lie within the bounds, and impulse noise yields either one of its impulse values or the untouched input (never the input when the probabilities sum to 1 or more, always the input when they are all null). "
  "Stable Poisson noise applied to two containers gives identical results wherever they hold equal values, whatever the other values. In the long run, each value occurs as often as the documented distribution says (uniform, Gaussian, Poisson, impulse probabilities normalized by their sum if above 1), for values generated and for noise applied, and for both parts of complex noise. Without a seed, generators built at different times give different values.",
  ["inputs", "histories"], "all noise classes x types x a set of seeds and parameters x all small containers of values; all pairs of containers for stability",
  "Tests compare two containers for one seed; the stability statement is over all pairs of containers.",
  [C+"Random.h"], [("engine seeding", C+"Random.h"), ("reseeding per noise drawing", C+"Random.h"), ("discrete distribution with the null hypothesis", C+"Random.h")],
  [("engine and seeder state", "advanced by drawings", C+"Random.h")], ["UniformNoise", "GaussianNoise", "PoissonNoise", "StablePoissonNoise", "ImpulseNoise"])

p("C17", "Extrapolators return the right pixel for every integer position",
  "Reading through an extrapolator at an in-domain position returns the raster's pixel there; outside, the constant method returns its constant, the nearest-neighbour method the pixel at the position clamped along each axis, and the periodic method the pixel at the position modulo the lengths, for positions arbitrarily far on either side. "
  "The decorated raster is never copied or modified and later changes to it are seen.",
  ["inputs"], "all shapes with lengths 1..4 (1-3 axes, variable dimension), all positions with coordinates in [-2*length-1, 3*length+1], all methods and factory forms",
  "Tests sample a few outside positions near one corner.",
  [T+"Interpolation.h", T+"InterpolationMethods.h", R+"Box.h"], [("per-axis clamp", R+"Box.h"), ("positive modulo", T+"InterpolationMethods.h"), ("containment test", R+"Raster.h")], observe=["Extrapolator::operator[]", "extrapolate"])

p("C18", "Interpolators reproduce pixels and interpolate correctly between them",
  "At integer positions every interpolator returns the pixel itself; between them, the linear method is the multilinear combination of the surrounding pixels weighted by proximity, the cubic method the tensor product of Catmull-Rom cubics, and the nearest-neighbour method the pixel at the closest integer position, as long as all pixels are finite. "
  "With an extrapolator underneath this holds for positions on either side of the domain, negative ones included.",
  ["inputs"], "1-3 axes, lengths 2..4, positions on a 1/4 (or 1/8) grid from -3 to length+3, all pixel contents from a basis of impulses and ramps, all interpolators over all extrapolators",
  "Tests interpolate at mid-points of ramps, where reversed weights or wrong floors are invisible.",
  [T+"Interpolation.h", T+"InterpolationMethods.h", Y+"TypeUtils.h"], [("recursive per-axis interpolation", T+"InterpolationMethods.h"), ("floor", Y+"TypeUtils.h")], observe=["Interpolator::operator()", "interpolate"])

p("C19", "Kernel correlation equals the windowed weighted sum at every pixel",
  "Correlating an extrapolated raster with a kernel gives, at every pixel, the sum over the kernel window of kernel value times the extrapolated input at the shifted position, for kernels of any dimension matching the raster, any shape and any window, whether it contains the origin or not, whatever the relative sizes of kernel and raster. "
  "The input is left unchanged, every output pixel is written and nothing outside the input, kernel and output is read or written.",
  ["inputs"], "1-3 axes; all image lengths 1..5 x kernel lengths 1..4 x origins; all extrapolation methods; impulse-basis kernels and images plus generic ones",
  "One 2D test compares a constant kernel on a constant-ish image; border/inner split depends on sizes and origin.",
  [T+"Kernel.h", R+"Box.h", T+"Interpolation.h"], [("inner box without extrapolation, surrounding boxes with", T+"Kernel.h"), ("surrounding boxes", R+"Box.h")], observe=["Kernel::operator*", "Kernel::correlateTo", "kernelize"])

p("C20", "Line and separable correlations equal the cropped weighted sums",
  "Correlating a sampled line with a line kernel gives at each sample the sum of the kernel values falling inside the line times the corresponding inputs, for any kernel size and origin (inside of the kernel or not), line length, front, back, step and stride. "
  "A separable kernel applied to a raster equals the successive line correlations along its axes, in any axis order; smoothing-derivative presets and composition into a single kernel are consistent with it.",
  ["inputs"], "kernel sizes 1..5 with all origins, line lengths 1..7 with all front/back/step/stride; rasters of 1-3 axes with lengths 1..4 and all orientations",
  "Tests use kernels of size 3 on long lines.",
  [T+"LineKernel.h", T+"SeparableKernel.h", Y+"Segment.h"], [("backward-cropped, central, forward-cropped loops", T+"LineKernel.h"), ("application along successive axes", T+"SeparableKernel.h")], observe=["LineKernel::correlate", "SeparableKernel::operator*", "SeparableKernel::compose"])

p("C21", "Samplings enumerate exactly front, front+step, ... up to back",
  "A sampling of indices or scalars yields front, front+step, front+2*step... while not past back, as many as its size says, and nothing when back precedes front; data samples are the elements at these indices times the stride, for reading and for writing, with the default back meaning the end of the data. "
  "Iterators support every mix of pre- and post-increments and jumps, and moving the samples moves the underlying data pointer only; position samplings report the number of samples along every axis.",
  ["inputs", "histories"], "all (front, back, step) with small signed values, data lengths 0..8, strides 1..3, iterator operation sequences; 1-4 axes and variable dimension",
  "One sampling is printed by the tests, and its data-sample test does not pass.",
  [R+"Sampling.h"], [("size formula and iterators", R+"Sampling.h")], observe=["AxisSampling", "PositionSampling", "DataSamples"])

p("C22", "Sparse 1D and 2D correlations equal the full one, subsampled",
  "Correlating along any axis, or along the first two axes of a raster, for any region and step, gives at each output sample the value of the full cropped correlation at the corresponding input position, for any kernel size and origin (inside of the kernel or not). "
  "Each output sample is written exactly once and nothing outside of the input and output is accessed, whatever the relation between kernel, region and image sizes.",
  ["inputs"], "kernel sizes 1..5 with all origins; images of lengths 1..7 (1D) and 1..5 per axis (2D, 3D along each axis); all regions and steps 1..3",
  "Tests use one image of a comfortable size and a few regions.",
  [T+"Convolution.h", R+"Sampling.h"], [("cropped loops over samples", T+"Convolution.h"), ("two-pass sparse correlation with intermediate buffer", T+"Convolution.h")], observe=["Kernel1d::correlateAlong", "sparseCorrelate1dTo", "sparseCorrelate2dTo", "correlate2dTo"])

p("C23", "Median filtering yields the exact median of every neighbourhood",
  "Median filtering yields at each pixel of the requested region the median of the (extrapolated) input values in the window around it - the middle value for odd counts and the mean of the two middle values for even counts - for any window, any values with or without ties, and any extrapolation method. "
  "The input and the output pixels outside of the region are left unchanged, and the default region is the whole output.",
  ["inputs"], "all images of 1-2 axes with up to 6 pixels over a 3-4 letter alphabet, 3D samples, all windows of up to 3x3 with any origin, all extrapolators, all regions",
  "One 3x3 constant-window test; even-sized windows are not tested.",
  [T+"MedianFilter.h"], [("neighbourhood gathering and partial sort", T+"MedianFilter.h")], observe=["MedianFilter::apply", "MedianFilter::applyTo", "MedianFilter::median"])

p("C24", "Discrete Fourier transforms and their inverses are exact and consistent",
  "Real and complex transforms of a raster of any shape and dimension equal the defining sums over the logical domain (half spectrum along the first axis for real input), and the normalized inverse gives back the input, for even and odd lengths and axes of length 1. "
  "The convenience functions leave their input unchanged, agree with the plans and return independent data.",
  ["inputs"], "all shapes with lengths 1..5 (1-3 axes), all impulses at every position plus generic contents, forward/inverse, real/complex, plan and convenience forms",
  "Tests transform a few shapes with constant or Gaussian contents and compare round trips.",
  [T+"Dft.h", T+"DftPlan.h"], [("shape reversal and half-spectrum shape", T+"Dft.h"), ("normalization", T+"DftPlan.h")], observe=["realDft", "inverseRealDft", "complexDft", "inverseComplexDft", "DftPlan"])

p("C25", "Transform plans share, keep and release their buffers correctly",
  "Over any history of creating plans (with own or user buffers), inverse plans and composed plans, filling, transforming, normalizing, moving and destroying them in a valid order, the output of one plan is the input buffer of the next, each transform reads and writes only its own two buffers, and results equal those of independently computed transforms. "
  "Every buffer and plan resource is released exactly once.",
  ["histories"], "all histories of up to 4-5 plan operations on 1D and 2D shapes, real and complex, with externally provided or owned buffers, move construction and assignment included",
  "Tests compose one forward/inverse pair.",
  [T+"DftPlan.h", T+"DftMemory.h", C+"AlignedBuffer.h"], [("non-owning aligned rasters over the sibling's buffers", T+"DftPlan.h"), ("plan ownership", T+"DftMemory.h")],
  [("in/out buffers and plan handle", "owned or shared memory and transform descriptor", T+"DftPlan.h")], ["DftPlan", "DftPlan::inverse", "DftPlan::compose"])

p("C26", "Chronometer statistics are exact for every start/stop/reset history",
  "For every history of starts, stops and resets and every sequence of clock readings, each stop returns and records the time since the last start in the chronometer's unit, the elapsed time is the offset plus the sum of increments since the last reset, and running status, count, last, mean, standard deviation, minimum and maximum are those of the recorded increments. "
  "A restart discards the previous start; a reset forgets all increments.",
  ["histories"], "all histories of length up to 6-7 over start/stop/reset(with and without offset) with clock advances from a small alphabet, three time units",
  "Tests sleep for a few milliseconds and check inequalities only; exact values need a controlled clock.",
  [U+"Chronometer.h"], [("tic/toc, increments list and elapsed accumulator", U+"Chronometer.h")],
  [("tic, toc, running, increments, elapsed", "chronometer state", U+"Chronometer.h")], ["Chronometer methods"])

p("C27", "Pipelines evaluate each step at most once, after its prerequisites",
  "For every history of step requests, each step is evaluated at most once until reset, after all of its direct and indirect prerequisites and only if requested directly or as a prerequisite, and each request returns the step's computed value. "
  "A step whose evaluation throws is not considered evaluated and is evaluated again on the next request; elapsed times are reported for evaluated steps only (-1 otherwise) and the total is their sum.",
  ["histories", "fault_sequences"], "all request/reset histories up to length 4-5 on diamond-, chain- and multi-root-shaped pipelines, with a throw injected at every evaluation point, and a controlled clock",
  "Tests request steps in two orders and never throw.",
  [U+"StepperPipeline.h"], [("lazy evaluation with a map of evaluated steps", U+"StepperPipeline.h")],
  [("evaluated steps and durations", "which steps were run", U+"StepperPipeline.h")], ["StepperPipeline::get", "evaluated", "milliseconds", "reset"])

p("C28", "Program options parse every command line into the declared values",
  "For every set of declared positional, named and flag options and every command line, each declared option reads back the value given on the command line, or its default, with flags defaulting to false and true when present; undeclared or malformed arguments and missing values raise an exception. "
  "All forms of parsing (argument count and array, vectors, single string) agree and copies of the options parse independently.",
  ["inputs", "configurations"], "all command lines of up to 4-5 tokens over an alphabet of long, short and positional tokens, for several declaration sets; all parse entry points; copies",
  "Tests parse a few fixed command lines.",
  [U+"ProgramOptions.h"], [("declaration wrappers and token conversion", U+"ProgramOptions.h")], observe=["ProgramOptions::parse", "ProgramOptions::as", "ProgramOptions::has"])

p("C29", "FITS files read back exactly what was written, or fail visibly",
  "Reading a FITS file written from a raster of bytes gives a raster of the same shape and pixels, for every shape and dimension, with fixed or variable dimension, through the same or another file object and whatever file operations that object did before. "
  "A file which cannot be created, does not exist, is not a valid image of the dimension of the raster, or is truncated at any point of its data, and any failure of an input or output operation, raises an exception instead of yielding made-up pixels; an existing file is never modified by a failed write, no operation leaves the file open, and the file object is usable again after a failure.",
  ["inputs", "histories", "fault_sequences"], "all shapes with lengths 1..4 (1-4 axes), byte patterns, all write/read histories of length up to 4 over two files, all truncation points of a file by block and around the data",
  "One round trip of one raster is tested.",
  [I+"Fits.h"], [("CFITSIO calls with a shared status", I+"Fits.h")], [("status", "CFITSIO error status carried from call to call", I+"Fits.h")], ["Fits::read", "Fits::write"])

p("C30", "All documented ways of looping over pixels compute the same result",
  "Every benchmarked strategy to loop over a 3D raster's pixels (nested coordinates in either order, positions, positions with precomputed index, flat indices, value iterators, operators, generation from a function) writes the same sum of the two inputs at every pixel, leaves the inputs unchanged, and returns a duration, that of this call only. "
  "This holds for any side length including 0 and after any sequence of the other strategies.",
  ["histories", "inputs"], "side lengths 0..4, all sequences of up to 2-3 strategies with the output perturbed in between",
  "Each strategy is run once from the same initial output for one side length; a stale output would go unnoticed.",
  ["LitlRun/src/lib/IterationBenchmark.cpp", U+"IterationBenchmark.h"], [("the eight loops", "LitlRun/src/lib/IterationBenchmark.cpp")], observe=["IterationBenchmark methods"])

p("C31", "Coordinate vectors: constructors, predicates, strides, slices, extensions",
  "Null, unit and infinite vectors satisfy exactly their own predicate, constructing from a list or iterable keeps all coordinates in order, slicing keeps the first ones, extension keeps all of them and takes the others from the padding. "
  "The stride along an axis is the product of the previous lengths and the shape size the product of all (0 in dimension 0), for fixed and variable dimension.",
  ["inputs"], "dimensions 0..5 fixed and variable, all coordinates over {-1,0,1,2,max}, all slice/extension dimensions, integer and floating types",
  "Tests check zero/one and one slice.",
  [R+"Vector.h"], [("named constructors and predicates", R+"Vector.h"), ("stride and size accumulation", R+"Vector.h")], observe=["Vector", "shapeStride", "shapeSize"])

p("C32", "Type, sequence and exception utilities do what their contracts say",
  "Clamping returns the nearest value in the bounds, flooring the largest integer not above the input, limits and scalar makers the documented values for every supported type. "
  "Sequence utilities visit each element of tuples, arrays and containers once, in order, and pass or return their values unchanged; exceptions report their documented messages and are thrown exactly when the condition holds.",
  ["inputs"], "all supported types; exhaustive small value grids for floor and clamp; tuples and containers of 0..4 elements; all bound/value combinations",
  "Tests cover a few values per utility, none with negative integers for floor.",
  [Y+"TypeUtils.h", Y+"SeqUtils.h", Y+"Exceptions.h", Y+"Segment.h"], [("utilities", Y+"TypeUtils.h"), ("tuple and sequence algorithms", Y+"SeqUtils.h")], observe=["Litl::floor", "Litl::clamp", "Limits", "seqForeach", "seqTransform", "tupleAs", "Exception"])

p("C33", "Operations on distinct outputs are independent across threads",
  "When several threads run library operations (filtering, correlation, interpolation, statistics, arithmetic, noise generation) at the same time on shared inputs, kernels, filters and interpolators, and their own outputs and generators, each thread obtains exactly the result it would obtain alone, for every interleaving of their memory accesses. "
  "Shared inputs are never modified.",
  ["schedules"], "all interleavings, up to a bounded number of preemptions, of two threads each running one operation of the real code, instrumented at every memory access, under a controlled scheduler",
  "No test uses threads; a shared scratch buffer or cache would break only under particular interleavings.",
  [T+"Kernel.h", T+"MedianFilter.h", T+"LineKernel.h", T+"InterpolationMethods.h", C+"DataContainer.h", C+"DataDistribution.h", R+"BoxIterator.h"], [("all state is local or in the objects (no shared scratch)", T+"Kernel.h")], observe=["results of operations per thread"])

p("C34", "Affine transforms map positions and rasters consistently",
  "Composing translations, scalings and rotations transforms positions as the corresponding matrix product, the inverse undoes it, and transforming a raster samples the interpolated input at the transformed positions.",
  ["inputs"], "small sets of transforms and positions in dimensions 1-3",
  "The only test is a placeholder.",
  [T+"Affinity.h", R+"Matrix.h"], [("matrix product", T+"Affinity.h")], observe=["Affinity"])

p("C35", "Structuring elements filter exactly the positions they select",
  "Eroding, dilating or median-filtering an extrapolated raster with a structuring element (a box or a ball of positions) gives, at each pixel of the requested region, the minimum, maximum or median of the input values at exactly the positions that the element selects around the pixel. "
  "The input and the output pixels outside of the region are unchanged, the default region is the whole output, and results do not depend on the operations made before with the same element.",
  ["inputs", "histories"], "small boxes and balls at any place around the pixel, small images, all regions and extrapolation methods; all short histories of operations with one element",
  "No test exists for this header. The gathered neighbours are kept in the element from one operation to the next.",
  [T+"StructuringElement.h"], [("gathering of neighbours", T+"StructuringElement.h")], state=[("neighbors", "values gathered around a pixel, reused", T+"StructuringElement.h")],
  observe=["StructuringElement::erodeTo", "StructuringElement::dilateTo", "StructuringElement::medianTo", "StructuringElement::median"])

p("C36", "PNG and TIFF files read back exactly what was written",
  "Reading an image file in PNG or TIFF format written from a raster gives a raster with the same shape, channels and pixels.",
  ["inputs"], "small shapes and channel counts",
  "No test exists for these headers.",
  [I+"Png.h", I+"Tiff.h"], [("file readers", I+"Png.h")], observe=["Png", "Tiff"])

p("C37", "Failures reach the caller and leave neither leak nor damage",
  "When an allocation fails at any point of a construction, copy, assignment, computation, filtering, transform or parsing, or when a function given to generate or apply throws at any call, the exception reaches the caller (or the operation completes with the right result). "
  "Nothing is leaked or freed twice, inputs are unchanged, elements which were not reached are untouched, and the objects involved can still be assigned, used again with right results, and destroyed.",
  ["fault_sequences", "histories"], "every allocation of every operation, one or two failures; every call of a user function",
  "Tests never make an operation fail; each failure point is a different path through constructors and destructors.",
  [C+"AlignedBuffer.h", C+"Holders.h", C+"DataContainer.h", T+"DftPlan.h", T+"Dft.h", U+"StepperPipeline.h"], [("malloc of aligned memory", C+"AlignedBuffer.h"), ("plan creation", T+"Dft.h")],
  observe=["exceptions", "heap blocks", "results after a failure"])

p("C38", "Iterating over a mask visits exactly its flagged positions",
  "Iterating over a mask visits exactly its flagged positions, once each and in storage order, its size is their number, and shifting a mask shifts them.",
  ["inputs"], "all small binary masks",
  "No test exists for this header.",
  [R+"Mask.h"], [("mask iteration", R+"Mask.h")], observe=["Mask"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
