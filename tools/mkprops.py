import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
R="LitlRaster/LitlRaster/"; C="LitlContainer/LitlContainer/"; T="LitlTransforms/LitlTransforms/"; U="LitlRun/LitlRun/"; I="LitlIo/LitlIo/"; Y="LitlTypes/LitlTypes/"

add("C01","Row-major bijection between positions and storage",
"For a raster of any shape, of fixed or run-time dimension, the index of a position is its first coordinate plus, for each further axis, its coordinate times the product of the lengths of the preceding axes, so that valid positions map one-to-one onto 0..size-1 in storage order. Element access by position, by index, by iterator and through the raw data all designate the same pixel, for reading and for writing, on const and mutable rasters, and the size is the product of the lengths. A position whose dimension differs from that of a variable-dimension raster is rejected with an error.",
["inputs","configurations"],"Every shape (any dimension, including axes of length 1 and index values beyond 32 bits), every position, every pixel type and data holder, const and mutable access.",
"Tests check one or two small shapes; the bijection must hold for every shape and dimension, and the fixed- and variable-dimension paths are separate code.",
[R+"Raster.h",R+"impl/Raster.hpp",R+"Vector.h"],[("compile-time recursion and run-time loop computing the index",R+"impl/Raster.hpp:17"),("stride and size products",R+"Vector.h:200")],
[("shape","lengths along each axis","Raster::m_shape"),("data","flat row-major pixel values","data holder")],["Raster::index","Raster::operator[]","Raster::data","Raster::begin"])

add("C02","Checked access: bounds errors and backward indexing",
"Checked access with a coordinate c along an axis of length s (or an index c in a container of s elements) designates element c when 0<=c<s, element c+s when -s<=c<0, and otherwise throws an out-of-bounds error without modifying anything. This holds independently for each axis of a position, for const and mutable rasters and for one-dimensional containers, including writing through the returned reference.",
["inputs","configurations"],"Every shape and dimension, every coordinate vector in and out of bounds (each axis separately), every container kind.",
"Tests try a few positions in one shape; each boundary of each axis for each dimension is a separate case.",
[R+"impl/Raster.hpp",C+"DataContainer.h",Y+"Exceptions.h"],[("per-axis bound check then wrap",R+"impl/Raster.hpp:100"),("index bound check then wrap",C+"DataContainer.h:100")],None,["Raster::at","DataContainer::at","OutOfBoundsError"])

add("C03","Box iteration visits each position once in storage order",
"Iterating over a box yields every position between its front and back (both included) exactly once and no other, with the first coordinate varying fastest, and terminates, including for boxes of one position, boxes with negative coordinates, boxes of any dimension, and boxes of run-time dimension. A box with no position (some length null or negative, such as the domain of an empty raster) yields nothing. The number of positions visited equals the advertised size of a non-empty box, and visiting a raster domain follows the storage order.",
["inputs","configurations"],"All fronts and backs in any dimension, including degenerate, negative and empty boxes.",
"Tests iterate over a handful of boxes; carry propagation depends on dimension, on lengths of one, and on sign.",
[R+"Box.h",R+"BoxIterator.h"],[("odometer increment with carry",R+"BoxIterator.h:88"),("end position sentinel",R+"BoxIterator.h:32")],[("current","current position","Box::Iterator::m_current")],["begin(box)","end(box)","Box::size","Raster::domain"])

add("C04","Subraster views designate exactly the region's pixels",
"Iterating over the subraster of a raster in a region yields, in storage order, a reference to each parent pixel whose position is in the region, exactly once, and no other pixel. Access to a subraster by position is relative to the region's front; writing through a subraster changes exactly the designated parent pixels and is visible in the parent, and changes in the parent are visible through the subraster.",
["inputs","histories"],"Every raster shape and dimension, every region inside the domain, and every interleaving of reads and writes through the parent and one or several (overlapping) subrasters.",
"Tests check one region of one raster; row jumps depend on shape, region width and dimension.",
[R+"Subraster.h",R+"SubrasterIterator.h"],[("row-wise pointer walk with jump at end of line",R+"SubrasterIterator.h:76"),("offset by region front",R+"Subraster.h:70")],[("region","viewed box","Subraster::m_region")],["Raster::subraster","begin(subraster)","Subraster::operator[]"])

add("C05","Sections and slices alias the parent; non-contiguous ones are refused",
"A region is reported contiguous as an M-dimensional slice if and only if it spans the full length of the first M-1 axes and is flat along every axis from M on; requesting a slice of a region which is not contiguous throws and creates no view. A slice or section which is created has the region's shape, and its i-th element is the same memory as the parent's pixel at the i-th position of the region: sections apply to the last axis, compose recursively, never copy, and writes through either side are seen by the other.",
["inputs","histories","configurations"],"Every shape, region, slice dimension, section index range, fixed and run-time dimension, const and mutable parents, and every interleaving of writes through views.",
"Tests check a few regions; contiguity is a conjunction over axes and a wrong answer silently yields a view on other pixels.",
[R+"Raster.h",R+"impl/Raster.hpp"],[("contiguity predicate",R+"impl/Raster.hpp:214"),("slice and section construction",R+"impl/Raster.hpp:128")],None,["Raster::isContiguous","Raster::slice","Raster::section"])

add("C06","Value semantics of owning containers, view semantics of pointers",
"After any sequence of constructions, copies, moves, assignments, swaps, data takeovers and element writes, a container which owns its data never shares pixels with another one: a copy equals its source at the time of the copy and is independent afterwards. A container built on a user pointer, and all its copies, always designate that user memory and never copy, free or reallocate it; moving transfers contents without copying the pixels for dynamically allocated holders, and moving a container into or out of a raster or sequence checks the size.",
["histories","configurations"],"Every operation history over several objects, for each holder kind (dynamic vector, value array, fixed array, raw pointer, aligned buffer), element type and for rasters and sequences.",
"Aliasing, stale data and lost ownership appear only after particular combinations of operations on several objects.",
[C+"Holders.h",C+"DataContainer.h",C+"AlignedBuffer.h",R+"Raster.h"],[("holder copy/move semantics",C+"Holders.h:60"),("defaulted copy and move of rasters",R+"Raster.h:145"),("buffer copy and move",C+"AlignedBuffer.h:135")],[("contents","element values of each object","holders"),("owner","memory each object designates","holders")],["Raster/Sequence copy and move","StdHolder::moveTo","data()"])

add("C07","Aligned buffers: alignment, ownership and release discipline",
"An aligned buffer built without external data owns fresh memory aligned as required (64 bytes by default) and frees it exactly once, unless it was released, in which case the caller gets the memory to free and the buffer still designates the data without owning it. A buffer built on external data never owns or frees it, and throws if the data does not meet the required alignment; the reported requirement and actual alignment are correct. Copy, move, assignment, self-assignment, reset and destruction preserve this over any history: copies of owners are deep, moves transfer ownership and leave an empty non-owning source, and no memory is lost, freed twice or used after being freed.",
["histories","inputs"],"Every sequence of constructions, copies, moves, assignments, releases, resets and destructions over several buffers, every size and alignment.",
"Leaks, double frees and lost ownership depend on operation sequences; tests only build and destroy.",
[C+"AlignedBuffer.h"],[("constructor, copy, move, assignments, release and reset",C+"AlignedBuffer.h:100")],[("m_container","unaligned owned memory or null",C+"AlignedBuffer.h"),("m_as","alignment requirement",C+"AlignedBuffer.h"),("m_data","aligned data",C+"AlignedBuffer.h"),("m_size","number of elements",C+"AlignedBuffer.h")],["owns","data","size","alignmentReq","alignment","release","malloc/free"])

add("C08","Construction contents and size-mismatch rejection",
"A raster or sequence constructed from a shape or size, optionally with a list, an iterable, a pointer or a moved container, has exactly that shape, the product of lengths as size, and the given values in the given order. If the number of given values differs from the product of the lengths (or the product from a fixed capacity), construction throws instead of producing an inconsistent object; this holds for fixed and run-time dimensions.",
["inputs","configurations"],"Every shape including empty ones and axes of length 0 or 1, every number of provided values, each holder, fixed and variable dimension.",
"Tests build matching shapes and values in a few ways only.",
[R+"Raster.h",C+"DataContainer.h",C+"Holders.h",C+"Sequence.h",R+"Vector.h"],[("size checks",C+"Holders.h:20"),("constructors",R+"Raster.h:150")],None,["Raster constructors","rasterize","Sequence constructors"])

add("C09","Element-wise arithmetic and math functions",
"Each arithmetic operator and each mathematical function between containers, or between a container and a scalar on either side, yields at each index exactly the scalar operation on the elements at that index, with operands in the written order. Arithmetic operators compute in the element type's own arithmetic; mathematical functions are those of std on the elements and the operand as given (which may have another type), converted to the element type. The in-place form modifies only its left operand and returns it, the new-instance form (of containers which own their data) equals the in-place form applied to a copy and modifies no operand, and both remain right when operands are the same object.",
["inputs","histories","configurations"],"Every operator and function, every size, element type and values, self-application, and chains of operations.",
"Tests use a few values per operator; operand order, aliasing and untouched operands are not checked for all operators and types.",
[C+"Arithmetic.h",C+"Math.h",R+"Raster.h"],[("in-place transforms generating the binary operators",C+"Arithmetic.h:16"),("math function macros",C+"Math.h:35")],None,["operators","math functions"])

add("C10","Fill, range, linspace, generate, apply and extrema",
"Filling sets every element and nothing else; a range sets element i to the start plus i steps; a linear space of n real or integer elements starts at the first bound, ends at the last one and is evenly spaced, increasing or decreasing (one element is one of the bounds, and no element is no failure). Generating calls the given function itself (not a copy) exactly once per element in storage order with the corresponding elements of each input and stores its result; applying does the same with the current element as first argument; extrema queries return references to the first least and first greatest element.",
["inputs","configurations"],"Every size including 0 and 1, element type, function (including stateful ones) and number of input containers.",
"Tests sample one size; corner sizes, stateful functions and multiple inputs are not covered.",
[C+"DataContainer.h",Y+"SeqUtils.h"],[("modifiers",C+"DataContainer.h:120"),("iterator tuple application",Y+"SeqUtils.h:180")],None,["fill","range","linspace","generate","apply","min","max","minmax"])

add("C11","Box algebra is consistent with sets of positions",
"Growing or shrinking a box by a margin moves its front and back by those of the margin, shifting moves both by the vector or scalar, projecting flattens exactly one axis to its front, and adding then subtracting the same operand restores the box; new-instance forms leave operands unchanged. Surrounding a box with a margin returns non-empty disjoint boxes, none overlapping the input, at most two per axis, whose union with the input is exactly the grown box. Length, shape, size, equality, construction from a shape or centre, and clamping of positions to a shape agree with the set of positions between front and back; the unlimited box contains every position.",
["inputs","configurations"],"All boxes and margins (fronts non-positive and backs non-negative for surrounding), all dimensions, fixed and variable, negative coordinates.",
"Tests check a few boxes of one dimension; partition holes or overlaps depend on which margins are null.",
[R+"Box.h",R+"Vector.h"],[("surround",R+"Box.h:145"),("operators",R+"Box.h:190")],None,["Box::surround","Box operators","project","clamp"])

add("C12","Ball membership and iteration",
"A ball of a given Lp norm, centre and radius contains exactly the positions whose norm of the difference with the centre is at most the radius, for the supported norms (1 and higher). Iterating over a ball yields every such integer position exactly once in storage order and no other, starting at the first one, and terminates, also for balls of radius zero, of fractional radius, and for single-position balls.",
["inputs","configurations"],"Every centre, radius (integer or fractional), norm and dimension.",
"Tests check small balls of one or two radii; membership on the boundary and skipping of empty rows depend on norm and dimension.",
[R+"Ball.h",R+"BallIterator.h"],[("norm power and distance",R+"Ball.h"),("box walk skipping outside positions",R+"BallIterator.h")],None,["Ball::operator[]","Ball::size","Ball::box","begin(ball)"])

add("C13","Regular sampling of axes, grids and data",
"Sampling an axis or a grid from a front to a back with a step yields exactly front, front+step, ... up to the back included when reached, once each, in order, and the advertised count equals the number of samples visited. Sampled data give access, by sample number, by iterator and by conversion to a vector, to exactly those elements of the underlying data, in order, for reading and writing, for any element type.",
["inputs","configurations"],"All fronts, backs, steps (including steps larger than the interval or not dividing it), sizes and element types.",
"Tests check one step; off-by-one counts and end conditions depend on divisibility.",
[R+"Sampling.h",Y+"Segment.h"],[("count and iterators",R+"Sampling.h")],None,["AxisSampling","GridSampling","DataSamples"])

add("C14","Extrapolation outside the domain",
"An extrapolated raster gives, at any integer position inside the domain (each coordinate non-negative and smaller than the length), the raster's own value, and outside: the constant for constant extrapolation, the value at the closest in-domain position (each coordinate clamped independently) for nearest-neighbour extrapolation, and the value at the position wrapped modulo the length along each axis for periodic extrapolation. This holds however far the position is. It never modifies the raster and follows its later modifications.",
["inputs","histories","configurations"],"Every shape and dimension, every position, however far on either side and along any combination of axes.",
"Tests check a few positions near one border; several periods away and mixed axes are not exercised.",
[T+"Interpolation.h",T+"InterpolationMethods.h"],[("out-of-domain methods",T+"InterpolationMethods.h")],None,["Extrapolator::operator[]","extrapolate"])

add("C15","Interpolation at real positions",
"Interpolating at a real position which coincides with an integer position gives the raster (or extrapolated) value there. Nearest-neighbour interpolation gives the value at the closest integer position, linear interpolation the multilinear combination of the surrounding pixels with weights equal to the opposite fractional distances, and cubic interpolation the Catmull-Rom combination of the four nearest positions per axis, on either side of the origin; linear and cubic methods (which are for fixed dimensions) reproduce affine images. Interpolation composes with extrapolation outside the domain.",
["inputs","configurations"],"Every raster, dimension, real position (inside and, with extrapolation, outside the domain, negative included) and method.",
"Tests sample mid-points where swapped weights are invisible.",
[T+"Interpolation.h",T+"InterpolationMethods.h",Y+"TypeUtils.h"],[("recursive per-axis interpolation",T+"InterpolationMethods.h"),("floor",Y+"TypeUtils.h")],None,["Interpolator::operator()","interpolate"])

add("C16","N-dimensional correlation matches its definition",
"Correlating an image with a kernel yields an image of the same shape whose value at each position, borders included, is the sum over the kernel window of the kernel value times the (extrapolated) input value at the position shifted by the offset to the kernel origin. This holds for every kernel window (whether or not it contains the origin), for images smaller than the kernel, for each extrapolation, whichever way the correlation is called, and the input is not modified.",
["inputs","configurations"],"Every image shape and values, kernel shape, origin and values, dimension and border handling.",
"Inner region and borders are handled by different code paths whose split depends on kernel and image shapes; tests use one square kernel.",
[T+"Kernel.h",T+"Convolution.h",T+"Interpolation.h"],[("inner/border split",T+"Kernel.h"),("kernel construction",T+"Kernel.h")],None,["Kernel::correlate","Kernel::correlateTo","correlation","convolution"])

add("C17","One-dimensional, sparse and separable correlation",
"Filtering data along one axis with a one-dimensional kernel gives at each sample the sum of kernel values times input samples at the shifted positions, with samples beyond the ends handled by the chosen border rule (cropping drops the terms outside), for every data length (shorter than the kernel included), origin (one of the kernel values, or before or after them) and input or output stride. Separable kernels along distinct axes equal the N-dimensional kernel which is the outer product of their line kernels, filtering along different axes commutes, and the usual kernels (Sobel, Prewitt, Scharr, Laplacian) have their usual coefficients; kernels report the window and origin they have, and copies or kernels made from line kernels are independent of them.",
["inputs","configurations"],"Every data length, kernel length and origin, sampling front, back and step for input and output, axis, dimension and composition of kernels along distinct axes.",
"Tests use a few kernels with unit step and long data.",
[T+"Convolution.h",T+"LineKernel.h",T+"SeparableKernel.h"],[("backward, central and forward loops",T+"Convolution.h"),("line-by-line application",T+"LineKernel.h")],None,["Kernel1d","LineKernel","SeparableKernel"])

add("C18","Median filtering",
"Median filtering yields at each position the median of the extrapolated values over the window centred there: the middle value of the sorted window for odd sizes and the mean of the two middle values, converted to the pixel type, for even sizes. This holds at borders, for every window shape, whatever the order in which pixels are visited, and the input is unchanged.",
["inputs","configurations"],"Every image, dimension, window shape (1, 2, even, odd, flat along some axes) and extrapolation.",
"Tests use one odd window; parity and ties decide which order statistics are used.",
[T+"MedianFilter.h"],[("partial sort of the neighbourhood",T+"MedianFilter.h")],None,["MedianFilter"])

add("C19","DFT plans: shared buffers, round trip and normalization",
"A DFT plan transforms its input buffer into its output buffer by the discrete Fourier transform of its logical shape, whatever earlier plans were executed; its inverse, composed to share its buffers, restores the input multiplied by the size, and exactly the input after normalization. Chained plans read and write the very buffers of the plans they were created from, for real, complex and Hermitian-symmetric transforms of even and odd lengths; plans keep working after being moved and after others are destroyed; and buffer shapes match the transform kind.",
["histories","configurations","inputs"],"Every graph of composed and inverted plans, execution order, moves and destructions; every shape and dimension; real, complex and Hermitian transforms.",
"Buffer sharing and ownership across chains of plans depends on creation, execution and destruction order.",
[T+"Dft.h",T+"DftPlan.h",T+"DftMemory.h"],[("plan composition and buffer sharing",T+"DftPlan.h"),("transform kinds and buffer shapes",T+"Dft.h")],None,["DftPlan::in","DftPlan::out","transform","normalize","inverse","compose"])

add("C20","Statistics do not depend on the queries made before",
"For any data set, the minimum, maximum, median, quantiles, sum, mean, variance, median absolute deviation and histogram equal their textbook values for the multiset of values (linear interpolation between order statistics for quantiles), whatever sequence of queries was made before on the same object, and the source data is not modified. Histogram counts attribute each value to exactly the bin containing it (bins include their lower edge, and the last one also its upper edge), and their sum is the number of values within the bins.",
["histories","inputs"],"Every data set (signed, unsigned, floating), every sequence of queries on one distribution, every quantile, bin layout.",
"Queries partially reorder a shared internal copy; a test makes few queries in one order.",
[C+"DataDistribution.h",C+"DataContainer.h"],[("in-place nth-element on an owned copy",C+"DataDistribution.h")],[("data","owned copy, reordered by queries",C+"DataDistribution.h")],["distribution queries"])

add("C21","Random generators are reproducible and within their support",
"Two generators of the same kind built with the same parameters and seed produce the same sequence of values, whatever happens between calls, copies continue identically from the copied state, and different (32-bit) seeds give different sequences. Uniform values lie in the given bounds, impulse noise values are either the input or one of the two extreme values, additive noises applied to a value equal the value plus the noise, Poisson noise outputs are non-negative integers, and stable Poisson noise depends only on the seed, the position in the sequence and the input value at that position; means, deviations and frequencies over many draws are those of the parameters. A reset distribution starts afresh, and random containers are filled with uniform values of the given range, by default between half the lowest and half the highest values of the type.",
["histories","inputs"],"Every seed, parameter, element type, interleaving of several generators, and number of draws.",
"Tests check one sequence; hidden state shared across generators or stale cached values only shows in interleavings.",
[C+"Random.h"],[("engine and distribution per generator",C+"Random.h")],[("engine","pseudo-random state",C+"Random.h")],["UniformNoise","GaussianNoise","PoissonNoise","ImpulseNoise","StablePoissonNoise"])

add("C22","Pipelines evaluate each needed step once, prerequisites first",
"Getting the value of a step of a pipeline runs that step and all its direct and indirect prerequisites that were not run yet, each exactly once and after its own prerequisites, and no other step; getting it again runs nothing and returns the same value. A step which fails with an exception is not considered as evaluated and can be retried, completed prerequisites are not rerun, the time reported for a step is negative if it was not evaluated and the time of its own evaluation otherwise, the total being their sum, and resetting makes every step to be evaluated again.",
["histories","fault_sequences"],"Every acyclic step graph, sequence of gets, resets and timing queries, and every failure placement.",
"Memoization and ordering over diamonds, repeated gets, failures and resets combine into histories a few tests do not cover.",
[U+"StepperPipeline.h"],[("recursive evaluation of prerequisites with memoization",U+"StepperPipeline.h")],[("milliseconds","per-step elapsed time or not evaluated",U+"StepperPipeline.h")],["get","milliseconds","reset"])

add("C23","Chronometer accounting",
"Each start followed by a stop appends exactly one increment, equal to the time spent in between and expressed in the chronometer's unit, and returns it; the elapsed time is the initial offset plus the sum of all increments, never decreases, and the count, last, minimum, maximum, mean and standard deviation are those of the recorded increments. Resetting clears increments and sets the given offset; starting a running chronometer only restarts the current lap, and copies are independent.",
["histories"],"Every sequence of starts, stops, resets and queries, with any offset and time unit.",
"Tests run one start/stop sequence.",
[U+"Chronometer.h"],[("start/stop state",U+"Chronometer.h")],[("increments","list of laps",U+"Chronometer.h"),("running","whether started",U+"Chronometer.h")],["start","stop","reset","elapsed","increments"])

add("C24","Program options: values come from the command line or the defaults",
"For any declared set of positional, named (long and short) options, options with default or implicit values, and flags, parsing a valid command line gives each option the value written for it, or its default if absent; flags are true exactly when present, positional arguments are attributed in declaration order. Missing mandatory options, unknown options and ill-typed values are reported as errors, flags never take a value, queries of presence agree with the parsed values, parsing again reflects the last command line only, and copies are independent.",
["inputs","histories"],"Every declaration set, and every ordering and spelling (long, short, separate or attached values) of the command line.",
"Tests parse two or three command lines.",
[U+"ProgramOptions.h"],[("declaration and parsing",U+"ProgramOptions.h")],None,["positional","named","flag","parse","as","has"])

add("C25","FITS files give back what was written",
"Reading an image from a FITS file returns exactly the shape and pixel values last written to that file, for each pixel type (plain integers and real numbers) and dimension, or for another integer type when it can hold the values, and other FITS readers see the same image. Writing does not modify the raster; failed operations (missing or damaged file, existing file when creating, wrong dimension, no space left) raise an error which names the file and the cause, leave existing files and rasters untouched, leave no file open and do not prevent later operations from succeeding.",
["histories","inputs","fault_sequences"],"Every sequence of writes and reads over several files, every shape, dimension, pixel type and extreme pixel values.",
"Tests write and read one small image.",
[I+"Fits.h"],[("cfitsio session and status",I+"Fits.h")],[("status","cfitsio status code",I+"Fits.h")],["Fits::write","Fits::read"])

add("C26","Equality, emptiness and text output of containers",
"Two containers compare equal if and only if they have the same number of elements (for rasters, the same shape) and equal elements at each index, whatever their holders and capacity; inequality is the negation, and comparison modifies nothing. A container is reported empty exactly when it has no element. Text output lists every element in order, separated by commas and enclosed in brackets, or only the first three and last three, with an ellipsis, beyond seven elements.",
["inputs","configurations"],"All pairs of containers of equal or different sizes, shapes and values; every size around the abbreviation threshold; all holders.",
"Tests compare a few rasters; same data with different shapes, prefixes, or threshold sizes are untested.",
[C+"ContiguousContainer.h",R+"Raster.h"],[("comparison operators",C+"ContiguousContainer.h"),("abbreviated insertion",C+"ContiguousContainer.h")],None,["operator==","operator!=","operator<<","emtpy"])

add("C27","Threads using distinct or read-only objects do not affect one another",
"Threads which work on distinct objects (rasters and other containers, regions, kernels, filters, distributions, random generators, pipelines, chronometers, Fourier plans, sets of options, image files, errors), or on distinct pixels of a common raster, and which only read the objects they share (rasters, boxes, extrapolators, interpolators, separable kernels, parsed options), get the very results they would have got one after the other, whatever the interleaving: no operation leaves or looks for anything in hidden common memory, common objects are unchanged by being read, and creating, running and destroying Fourier plans concurrently is safe.",
["schedules","histories"],"Every number of threads, mix of operations, interleaving of their steps and start times.",
"Tests run in a single thread: a scratch buffer made static, a cache in a const method or a planner used without its lock changes nothing until two threads meet.",
[T+"DftMemory.h",T+"MedianFilter.h",T+"Kernel.h",C+"Random.h",R+"Box.h",U+"StepperPipeline.h"],[("lock around FFTW's planner",T+"DftMemory.h"),("local scratch memory of each operation",T+"MedianFilter.h")],None,["DftPlan","MedianFilter","Kernel","UniformNoise","Raster::section","Box::Iterator"])

add("C28","Key values, clamping and flooring of number types",
"For every supported type (Boolean, integers, reals, complexes), the key values are what they are called: zero, one (1 + i for complexes), lowest and highest values, infinity (or the highest value), halves of the lowest and highest (rounded up for integers), difference between consecutive values, values next to the lowest and highest integers; scalars make complexes with twice the scalar, functions of scalars are called once per component; clamp gives the nearest value within bounds, floor the greatest integer not above a real number; slices and extensions of vectors keep coordinates, segments have the size they were made with, and the constant pi is that number in every real type.",
["inputs"],"Every supported type, every value and bounds (small and extreme), every dimension.",
"Extreme values, negative reals, Booleans and complexes each take a different path, and tests look at a few values of a few types.",
[Y+"TypeUtils.h",Y+"Segment.h",R+"Vector.h"],[("Limits, clamp, floor",Y+"TypeUtils.h")],None,["Limits","TypeTraits","clamp","floor","Segment","Vector::slice","Vector::extend"])

add("C29","Sequence utilities call functions in order; errors say what failed",
"A function applied to a tuple or to a sequence is called once per element, in order, on the element itself (changes are kept) or on a read-only one, and transformed or converted sequences hold the results in the same order; a function applied to a tuple of iterators gets the pointed elements, and then every iterator has advanced by one. Serialized arguments are separated by commas. An exception says its prefix and message, followed by the appended lines with their indentations, and so do its copies, independently of the original; bounds are included in the accepted values, and errors of bounds, sizes, alignments and null pointers are thrown exactly when they should be and name what was wrong.",
["inputs","histories"],"Every tuple and sequence type, every function (with state, with or without result), every history of iterators and exceptions.",
"Order of calls, references kept or lost, and messages are not looked at by tests, which only see final values of pure functions.",
[Y+"SeqUtils.h",Y+"Exceptions.h",C+"Holders.h",C+"AlignedBuffer.h"],[("pack expansions in braces evaluate in order",Y+"SeqUtils.h"),("message accumulated in the exception",Y+"Exceptions.h")],None,["seqForeach","seqTransform","tupleApply","iteratorTupleApply","serialize","Exception::append","OutOfBoundsError::mayThrow"])

add("C30","User-defined pixel types, holders and channel layouts",
"Containers of a user-defined pixel type ask of it only the operations of the methods which are called, once per pixel, in storage order, with the operands in the order in which they are written (up to commutativity of sums and products with a scalar on the left); pixels which own memory are never used before or after their lives and live exactly as long as the containers which hold them, whatever the history of operations, copies, moves and swaps. User-defined holders get the arguments given after the shape and are asked for size and data only. Pixels with several channels have the same values, whatever is done channel by channel or pixel by pixel, whether channels are members of a structure, the first axis or the last one, and the memory of the first two is the same. Rasters of rasters behave as rasters and are copied deeply.",
["inputs","histories","configurations"],"Every pixel type with the required operations, every holder, every history of operations, every number of channels.",
"Numbers hide the order of operands, double evaluations and lifetimes: unit tests use numbers, and the demonstrations with structures look at one pixel.",
[C+"DataContainer.h",C+"Arithmetic.h",C+"Holders.h",C+"Math.h",R+"Raster.h",Y+"SeqUtils.h"],[("element-wise transforms",C+"Arithmetic.h"),("generate and apply",C+"DataContainer.h"),("forwarding constructors",R+"Raster.h")],None,["Raster::generate","Raster::apply","Raster::operator+","Raster::section","DataContainer::min"])

add("C31","All ways of looping over pixels are equivalent",
"Nested loops over coordinates (in whichever order), loops over the positions of the domain, over indices (forward or negative ones), over iterators (constant or not, prefix or postfix), over ranges, raw pointers, sections or a subraster of the whole domain, standard algorithms, in-place application, generation and pixelwise operators all visit every pixel exactly once and compute the same raster; all but the nested loops with the last axis inside visit pixels in the order of memory. The looping benchmark of the library sets its output to the sum of its inputs whichever strategy is selected, and leaves its inputs alone.",
["inputs","histories","configurations"],"Every shape, dimension, holder and pixel type, every strategy after every other one.",
"Each access path is tested alone, on one shape; equivalence over all shapes and sequences of strategies is not.",
[U+"IterationBenchmark.h","LitlRun/src/lib/IterationBenchmark.cpp",R+"BoxIterator.h",R+"Raster.h",R+"SubrasterIterator.h",C+"ContiguousContainer.h",C+"DataContainer.h"],[("row-major-inverse index",R+"Raster.h"),("strategies of the benchmark","LitlRun/src/lib/IterationBenchmark.cpp")],None,["Raster::operator[]","Raster::domain","begin","cbegin","Raster::generate","Raster::apply","Raster::section","IterationBenchmark"])

with open("/verif/properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80,p["id"]
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
