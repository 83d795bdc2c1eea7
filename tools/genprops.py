import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
NT="No existing test touches this code; "
p("P01","FITS pixels load exactly, however the byte stream is delivered",
 "Loading any well-formed FITS image (8/16/32/64-bit integers, 32/64-bit floats, any BSCALE/BZERO, one to three axes, plain or gzip-compressed) yields exactly the axis lengths stated in the header and, in file order, the pixel values BZERO+BSCALE*raw. The result does not depend on how the underlying source splits its reads, including short reads and a final read that returns data together with end-of-file. Header values that are legal FITS (exponents, large offsets such as 2^31, comments, strings) are understood and never corrupt the pixels.",
 ["inputs","fault_sequences"],"for every sample format, image size around the decoder's buffer boundaries, scaling pair and every pattern of short reads up to a deviation bound",
 NT+"a unit test delivers the file in one piece, so the carry-over logic between partial reads is never exercised.",
 ["internal/fits/read.go","internal/fits/fits.go"],[("header card parser","internal/fits/read.go: readHeader/readLine"),("per-format block decoders with carried-over partial samples","internal/fits/read.go: readInt*/readFloat*")],["Image.Data","Image.Naxisn","Image.Header"])
p("P02","Damaged FITS input is rejected, never half-loaded and never a crash",
 "If a FITS (or gzip-compressed FITS) stream ends early at any byte, fails with a read error at any byte, or has an unusable header (missing or contradictory SIMPLE, BITPIX, NAXIS or NAXISn, non-positive or overflowing axis lengths), loading reports an error. It never crashes the process and never reports success for an image whose pixels were not all read from the stream.",
 ["fault_sequences","inputs"],"for every truncation point, every failing read position, and every single-card header mutation from a fixed alphabet",
 NT+"the quantifier runs over every cut point and fault position of a file.",
 ["internal/fits/read.go","internal/fits/fits.go"],[("error returns of header and data readers","internal/fits/read.go"),("mandatory keyword validation","internal/fits/read.go: Read")],["returned error","process liveness"])
p("P03","Saving a FITS image and loading it back preserves it",
 "After an image has been saved as FITS (plain or gzip) and loaded again, its axis lengths, every pixel value (including infinities, denormal and extreme numbers; NaN is stored as zero), its exposure time and its header keywords (strings, numbers, booleans, dates) are the same as before. This holds for any history of earlier saves to the same path, including overwriting a longer file.",
 ["histories","inputs"],"for every sequence of saves and loads over a small set of images and target names up to a depth, and every header value from an alphabet that includes quotes, long strings, large and tiny numbers",
 NT+"round trips through an existing file, and header values whose printed form needs exponent or quote handling, are never tried.",
 ["internal/fits/write.go","internal/fits/read.go"],[("header and data writer with block padding","internal/fits/write.go: WriteFile/Write"),("header regular expression","internal/fits/read.go: readLine")],["file contents","Image.Data","Image.Header"])
p("P04","A save that could not be completed is reported as an error",
 "When the storage stops accepting data at any byte of an output file (FITS, gzip-compressed FITS, TIFF or JPEG), or the file cannot be created, the save step reports an error to the caller instead of claiming success. When the save reports success, the complete file can be read back.",
 ["fault_sequences"],"for every output format, image shape and every byte offset at which the file system stops accepting data",
 NT+"needs an injected write fault at each offset, in particular inside the last buffered block and the trailer.",
 ["internal/fits/write.go","internal/fits/tiff16.go","internal/fits/writejpg.go","internal/ops/operator.go"],[("error propagation from buffered and compressed writers","internal/fits/write.go: WriteFile"),("save operator error wrapping","internal/ops/operator.go: OpSave.Apply")],["returned error","file contents"])
p("P05","Preview exports map tones as documented and TIFF images load back",
 "Exported 16-bit TIFF and 8-bit JPEG previews map the chosen value range linearly (then by the chosen output gamma) onto the full output range, clamp values outside it, turn NaN into black, and keep every pixel and colour channel at its place, for mono and RGB images of any size. A TIFF written by the program, and any 8- or 16-bit gray or RGB TIFF, can be loaded back with the same dimensions and sample values; the file type is selected by the suffix of the output name, and frame numbers replace the number placeholder in it.",
 ["inputs","configurations"],"for all image shapes up to a bound, all export modes and gammas of an alphabet, and pixel values at, inside and outside the range limits including NaN and infinities",
 NT+"export/import agreement is a relation over all shapes and values.",
 ["internal/fits/tiff16.go","internal/fits/writejpg.go","internal/ops/operator.go"],[("tone mapping loops","internal/fits/tiff16.go, internal/fits/writejpg.go"),("TIFF reader","internal/fits/tiff16.go: ReadTIFF"),("suffix and mode dispatch","internal/ops/operator.go: OpSave.Apply")],["output file"])
p("P06","Image statistics always describe the image's current pixels",
 "Minimum, maximum, mean, standard deviation and noise reported for an image or for one colour channel equal their definitions over exactly the pixels of that image or channel, for any length and width and on either the vector or the portable code path. They stay correct after every processing step: whatever sequence of steps was applied and whatever statistics were asked for before, asking afterwards gives the value for the current pixels.",
 ["inputs","histories"],"for all lengths and widths up to a bound with the extreme value at every position, and all sequences of operations and statistics queries up to a depth",
 NT+"stale caches need a particular query/modify/query history, and vector-tail errors need particular lengths.",
 ["internal/stats/stats.go","internal/stats/stats_amd64.go","internal/stats/noise.go","internal/fits/pixelops.go","internal/ops/pre/preprocess.go","internal/ops/stretch/stretch.go"],[("lazy statistics cache and invalidation","internal/stats/stats.go"),("cache maintenance in pixel operations","internal/fits/pixelops.go")],["Stats.Min/Max/Mean/StdDev/Noise/Location/Scale"],None,[("cached statistics","lazily computed values with validity flags","internal/stats/stats.go: Stats")])
p("P07","Median and order-statistic selection are exact for every input",
 "Selecting a quantile or median, and sorting, return the value that full sorting would give, for any length, order and multiplicity of equal values, and only permute the input. The 3x3 median filter gives every interior pixel the exact median of its nine neighbours, keeps border pixels within the values of their neighbourhood, and gives the same result on the vector and the portable code path for every image width and height.",
 ["inputs"],"for all arrays up to a length over an ordered alphabet that realises every relative order, and all image sizes up to a bound",
 "The existing test sorts one permutation family; the quantifier is over all orderings, multiplicities and image sizes.",
 ["internal/qsort/qsort.go","internal/median/median3x3.go","internal/median/median3x3_amd64.go","internal/median/gather.go","internal/star/qsort.go"],[("quickselect partitioning","internal/qsort/qsort.go"),("median networks","internal/median/median3x3.go"),("AVX2 tail handling","internal/median/median3x3_amd64.go")],["return values","output image"])
p("P08","Calibration applies the dark and flat frame to every light exactly once",
 "Each calibrated light frame equals light minus dark, then divided by the flat and multiplied by the flat's maximum, pixel by pixel, with pixels whose flat value is not positive left undivided. The dark and flat frames are loaded at most once per run however many lights are processed concurrently and in whatever order; frames whose dimensions do not match are rejected with an error rather than processed partially, and an unreadable dark or flat frame makes every light fail.",
 ["schedules","inputs"],"for every interleaving (up to a preemption bound) of concurrent calibrations, and all pixel triples and dimension pairs of a small domain",
 NT+"the lazy shared load is only wrong under particular interleavings.",
 ["internal/ops/pre/preprocess.go","internal/ops/pre/badpixels.go"],[("mutex-protected lazy load","internal/ops/pre/preprocess.go: OpCalibrate.init"),("element-wise subtract and divide","internal/ops/pre/badpixels.go: Subtract/Divide")],["frame pixels","errors"],"source-instrumented copy of the package via go build overlay")
p("P09","Bad-pixel removal replaces only outliers, by their local median",
 "Bad-pixel removal changes exactly the pixels that deviate from their local 3x3 median by more than the configured number of standard deviations of those deviations, and replaces each by the median of its valid neighbours; all other pixels keep their value. For colour-filter-array data only same-coloured neighbours are used and only the selected colour's pixels can change; hot pixels on edges and corners are treated like any others.",
 ["inputs","configurations"],"for every position of one or two outliers in images of every small size, every sigma pair of an alphabet and every CFA/channel",
 "The existing tests use three fixed colour-filter images; positions, sizes and threshold combinations are not covered.",
 ["internal/ops/pre/badpixels.go","internal/ops/pre/badpixels_bayer.go","internal/ops/pre/preprocess.go","internal/median/gather.go"],[("median-difference threshold map","internal/ops/pre/badpixels.go: BadPixelMap"),("gather-and-median replacement","internal/median/gather.go"),("bayer-aware correction","internal/ops/pre/badpixels_bayer.go")],["frame pixels"])
p("P10","Debayering keeps measured samples and interpolates the rest correctly",
 "For every colour-filter arrangement and every colour, debayering keeps each pixel measured in that colour unchanged and fills every other pixel with the bilinear average of its nearest same-coloured neighbours that lie inside the image. The output has the documented dimensions, covers every pixel, and is independent of the samples of other colours; unknown colours or arrangements are rejected.",
 ["inputs","configurations"],"for all four arrangements, three colours, all image sizes up to a bound (even and odd) and a unit impulse at every position (the operation is linear)",
 "The existing tests use one or two fixed images; impulse responses at every position and size are not covered.",
 ["internal/ops/pre/debayer.go","internal/ops/pre/preprocess.go"],[("bilinear interpolation loops","internal/ops/pre/debayer.go"),("operator dispatch","internal/ops/pre/preprocess.go: OpDebayer")],["output image"])
p("P11","Binning and pixel-wise operations touch every pixel exactly once",
 "NxN binning yields, for each output pixel, the average (normalised sum) of its NxN input block and halves nothing else; scale/offset, normalisation, gamma, partial gamma, midtones, black-point shift and per-channel variants apply their formula exactly once to every pixel of the image or selected channel and leave other channels untouched. The outcome does not depend on how many processors or threads share the work.",
 ["inputs","configurations","schedules"],"for all image sizes around the work-splitting boundaries, 1..16 processors, every operation and channel, and values at the formula's case boundaries",
 NT+"pixels lost or processed twice only show at particular size/processor combinations.",
 ["internal/fits/pixelops.go","internal/fits/fits.go","internal/ops/pre/preprocess.go"],[("parallel batch splitting","internal/fits/pixelops.go: ApplyPixelFunction*"),("binning","internal/fits/fits.go: NewImageBinNxN")],["Image.Data"])
p("P12","Background extraction subtracts exactly the modelled background",
 "Automatic background extraction leaves an image of the same size in which each pixel equals the original minus a smooth background model value; a constant image becomes (nearly) constant with its typical level kept or removed consistently, a linear gradient under stars is removed to within a small tolerance, and stars masked out do not raise the model near them. Any image size, grid spacing and star list works without crashing, including grids larger than the image and cells fully covered by stars, and the optional background file receives the model.",
 ["inputs","configurations"],"for all image sizes, grid spacings and clip counts up to a bound, over constant, gradient and masked images",
 NT+"crashes and index errors depend on particular size/grid/star combinations.",
 ["internal/ops/pre/background.go","internal/ops/pre/preprocess.go"],[("grid cell fitting with masks","internal/ops/pre/background.go: FitCell"),("bilinear/spline rendering and subtraction","internal/ops/pre/background.go: Render/Subtract")],["frame pixels","background file"])
p("P13","Star detection reports real, separated stars inside the image",
 "Every reported star lies inside the image and has a brightness above the detection threshold, a positive mass and a half-flux radius no larger than the search radius, no two reported stars are closer than the search radius, and stars are ordered by decreasing mass. An isolated bright round star well inside the image is always found, within half a pixel of its true centre, wherever it is placed; images of any size, with bright pixels at any edge or corner, never crash the detection.",
 ["inputs"],"for every placement of one or two stars and bright edge pixels in images of every small size and sizes around the internal grid size",
 NT+"placement-dependent defects (edges, corners, internal grid borders) need every position.",
 ["internal/star/findstars.go","internal/star/qsort.go","internal/ops/pre/preprocess.go"],[("overlap filter on a coarse grid","internal/star/findstars.go: filterOutOverlaps"),("centre-of-mass iteration","internal/star/findstars.go: shiftToCenterOfMass"),("half-flux radius filter","internal/star/findstars.go: calcAndFilterHalfFluxRadius")],["Image.Stars","Image.HFR"])
p("P14","Star matching recovers the true shift and rotation between frames",
 "Given a reference star field and the same field moved by any shift and rotation, with stars listed in any order of brightness ranks and with a minority of stars missing or spurious, alignment returns the transformation that maps each star onto its reference within a fraction of a pixel and a correspondingly small residual. The nearest-neighbour lookups used for matching always return a closest point, transformations built from three point pairs map those points exactly, and inverting a transformation really undoes it or reports that no inverse exists.",
 ["inputs"],"for all point sets on small grids against brute force, all triples on a lattice, and every shift/rotation/star-removal combination of a finite menu",
 NT+"exactness of nearest-neighbour trees and of the transformation algebra is a statement about all point sets.",
 ["internal/star/align.go","internal/star/kdtree2.go","internal/star/kdtree3p.go","internal/star/coord.go"],[("pointerless kd-trees","internal/star/kdtree2.go, internal/star/kdtree3p.go"),("triangle matching and refinement","internal/star/align.go"),("transform algebra","internal/star/coord.go")],["Transform2D","residual"])
p("P15","Registration resamples frames correctly and drops only misfits",
 "Projecting a frame with the identity reproduces it, with a whole-pixel shift moves it exactly, and with any other transformation gives each output pixel the bilinear mix of the four source pixels its position maps to; output pixels that map outside the source get the configured fill (NaN, reference location or own location). A frame whose alignment residual exceeds the limit, or which cannot be aligned, is left out without affecting other frames, and a frame of the reference's geometry is always output in the reference's dimensions.",
 ["inputs","configurations"],"for all small image sizes, all quarter-pixel shifts within a range, 90-degree rotations and flips, and every residual/threshold relation",
 NT+"off-by-one errors show only at particular shifts and borders.",
 ["internal/fits/project.go","internal/ops/post/postprocess.go"],[("inverse-mapped bilinear resampling","internal/fits/project.go: Project"),("residual threshold and fill modes","internal/ops/post/postprocess.go: OpAlign")],["output frame"])
p("P16","The reference frame is the one the selection rule names",
 "Reference selection hands every later step the frame its rule names: the best stars-to-HFR frame, the frame of median location, the frame with the given number, the red/green/blue reference, or the given file; ties and frames that were filtered out or have no stars never select a missing frame. Every input frame is still delivered downstream exactly once and in order, the choice does not depend on thread timing, and when no reference can be found every frame fails with an error rather than silently continuing.",
 ["inputs","schedules","configurations"],"for all assignments of star counts, HFRs and locations from a small domain to up to five frames, every subset filtered out, all rules, and every interleaving up to a preemption bound",
 NT+"the combination of filtered frames, rules and concurrency is not sampled anywhere.",
 ["internal/ops/ref/refframe.go","internal/ops/ref/filter.go"],[("mutex-protected one-time selection","internal/ops/ref/refframe.go: OpSelectReference"),("minimum star filter","internal/ops/ref/filter.go")],["Context.AlignStars","Context.MatchHisto","delivered frames"],"source-instrumented copy of the package via go build overlay")
p("P17","Every stacking mode computes its defined combination per pixel",
 "For each pixel, stacking combines exactly the valid (non-NaN) values of the frames at that pixel by the selected rule: median, (weighted) mean, sigma clipping, winsorised sigma clipping, MAD clipping, or linear-fit clipping, rejecting exactly the values the rule rejects; pixels with no valid value take the fill value. The result lies within the range of the valid inputs, ignores frame order, pairs each weight with its own frame, and does not depend on image size, other pixels or the number of threads.",
 ["inputs","configurations"],"for all value vectors over a small alphabet including NaN for up to seven frames (and boundary frame counts beyond), all modes, weightings and sigma pairs of an alphabet",
 NT+"each rule is a function of all value vectors; clipping defects need particular multisets.",
 ["internal/ops/stack/stack.go","internal/ops/stack/stackfindsigma.go"],[("per-mode gather/clip loops","internal/ops/stack/stack.go"),("weights","internal/ops/stack/stack.go: getWeights"),("automatic mode and sigma search","internal/ops/stack/stackfindsigma.go")],["stacked image"])
p("P18","Batched stacking uses every input frame exactly once",
 "Splitting a stack into memory-limited batches assigns every input frame to exactly one batch, never exceeds the memory budget by more than the documented allowance, and the final image equals the frame-count-weighted average of the batch results; with mean stacking it equals stacking all frames at once. Frames dropped inside a batch are not counted, the total exposure and frame accounting match the frames actually used, and a failing batch makes the whole stack fail.",
 ["inputs","configurations","histories"],"for all combinations of frame count, memory budget, thread count and frame size up to a bound, with every single frame dropped or failing",
 NT+"lost frames appear only for particular frame-count/memory/thread combinations.",
 ["internal/ops/stack/stackbatches.go","internal/ops/stack/stack.go"],[("batch partitioning","internal/ops/stack/stackbatches.go: partition"),("incremental weighted combination","internal/ops/stack/stack.go: StackIncremental")],["stacked image","which frames were loaded"])
p("P19","Concurrent materialisation runs each promise once and loses nothing",
 "Evaluating a set of frame promises runs each promise exactly once, never runs more of them at the same time than the configured limit, returns the non-empty results in input order, and reports every distinct failure. It always terminates, whatever the order in which promises finish or fail, and one failing or empty promise never hides another's result or error.",
 ["schedules","fault_sequences"],"for every interleaving of up to five promises and limits one to four, with every assignment of success, empty result and error",
 NT+"ordering, limit and termination are statements over all schedules.",
 ["internal/ops/operator.go"],[("limiter channel and error channel","internal/ops/operator.go: MaterializeAll"),("nil removal","internal/ops/operator.go: RemoveNils")],["returned frames and error","concurrently running promises"],"source-instrumented copy of the package via go build overlay",[("limiter","bounded channel acting as semaphore","internal/ops/operator.go: MaterializeAll")])
p("P20","Pipeline results do not depend on thread timing",
 "Running the same job on the same inputs gives the same images, statistics table and errors for every thread interleaving and every thread limit: shared state such as calibration frames, the reference frame, the aligner and the statistics file is initialised once, completely, and before use. No interleaving deadlocks, and no two threads access shared pipeline state without synchronisation.",
 ["schedules"],"for every interleaving up to a preemption bound of pipelines that combine the shared-state steps over two to four frames",
 NT+"the tests are single-threaded.",
 ["internal/ops/operator.go","internal/ops/pre/preprocess.go","internal/ops/ref/refframe.go","internal/ops/ref/exportstats.go","internal/ops/post/postprocess.go","internal/ops/stack/stack.go"],[("per-operator mutexes around lazily built shared state","internal/ops/pre/preprocess.go, internal/ops/ref/*.go, internal/ops/post/postprocess.go"),("promise limiter","internal/ops/operator.go")],["output frames","statistics file","errors"],"source-instrumented copy of the packages via go build overlay")
p("P21","Jobs survive serialisation unchanged",
 "Writing any job (any nesting of steps with any parameter values) as JSON and reading it back gives a job that behaves identically, parameters missing from the JSON take the documented defaults, and every step kind the program offers can be named in a job. Reading the same text twice gives independent jobs whose steps use their own parameters, and unknown step kinds or malformed text are rejected with an error.",
 ["programs","inputs"],"for every registered step kind, every parameter perturbed or omitted, and all nestings of sequences up to a depth",
 NT+"the guarantee covers every step kind and every subset of parameters.",
 ["internal/ops/operator.go","internal/ops/pre/preprocess.go","internal/ops/stack/stackbatches.go","internal/ops/hsl/hsl.go","internal/ops/rgb/rgb.go"],[("operator factory registry","internal/ops/operator.go: SetOperatorFactory"),("per-operator UnmarshalJSON with defaults and method rebinding","internal/ops/**"),("polymorphic sequence encoding","internal/ops/operator.go: OpSequence")],["JSON text","operator behaviour"])
p("P22","Jobs cannot load files outside the working directory",
 "Whatever file names, wildcard patterns, dark, flat or reference names a job contains, loading never reads a file by an absolute path or through a parent-directory component; such names are refused or skipped. Names inside the working directory tree that the rule allows are loaded, numbered consecutively from zero in the order listed, and a job that matches no file is an error.",
 ["inputs"],"for all path strings up to a length over the alphabet of separators, dots, letters and wildcards, for each step that takes an input file name",
 NT+"confinement is a statement about all strings.",
 ["internal/ops/operator.go","internal/ops/pre/preprocess.go","internal/ops/ref/refframe.go"],[("path check","internal/ops/operator.go: isPathAllowed"),("pattern expansion","internal/ops/operator.go: OpLoadMany")],["files opened","errors"])
p("P23","Tone stretching keeps order, range and target",
 "For normalised images, range normalisation maps the darkest pixel to 0 and the brightest to 1, gamma, partial gamma, midtones, black shift and automatic stretching never reverse the brightness order of two pixels, keep values inside [0,1], keep white white, and do nothing at their neutral setting. Black-point scaling moves the histogram location to the requested value when it is above it, and automatic stretching always terminates.",
 ["inputs","configurations"],"for a grid of pixel values and parameter combinations at and around all case boundaries, checked pairwise",
 NT+"monotonicity and range are relations over all value pairs and parameters.",
 ["internal/ops/stretch/stretch.go","internal/fits/pixelops.go","internal/ops/hsl/hsl.go"],[("pixel formulas","internal/fits/pixelops.go"),("iterative stretch loop","internal/ops/stretch/stretch.go: OpStretchIterative")],["Image.Data"])
p("P24","Blurring and sharpening conserve flat areas and respect limits",
 "Gaussian blurring uses a symmetric kernel of weights summing to one, leaves constant images constant, conserves total brightness with mirrored borders, and its impulse response is the same wherever the impulse is placed away from borders and for either axis. Unsharp masking leaves pixels below the threshold untouched, never leaves the given minimum and maximum, and equals original plus gain times (original minus blurred) elsewhere; images of any size and any positive sigma work.",
 ["inputs","configurations"],"for all image sizes up to a bound including sizes smaller than the kernel, all sigmas and gains of an alphabet, and an impulse at every position",
 "Existing tests check two kernels and one small image; sizes below the kernel radius and tiny sigmas are not covered.",
 ["internal/ops/stretch/usm.go","internal/ops/stretch/stretch.go","internal/ops/hsl/hsl.go"],[("separable convolution with reflection","internal/ops/stretch/usm.go"),("kernel construction","internal/ops/stretch/usm.go: GaussianKernel1D")],["output image"])
p("P25","Colour adjustments change only what they name and stay in gamut",
 "Converting an RGB image to the hue/saturation/luminance working space and back reproduces every colour, including black, white and grays, with no NaN. Each colour adjustment (chroma gamma, selective saturation, hue rotation, green-noise reduction, background neutralisation, luminance replacement and luminance curves) changes only the channel and the pixels its parameters select, blends between its low and high limits where documented, keeps values finite, and is the identity at its neutral setting.",
 ["inputs","configurations"],"for an RGB lattice including all gamut corners and grays, all hue ranges (with and without wrap-around), thresholds and factors of an alphabet",
 NT+"range and identity statements quantify over all colours and parameters.",
 ["internal/fits/pixelops.go","internal/fits/oklab.go","internal/ops/hsl/hsl.go","internal/ops/rgb/rgb.go"],[("colour conversions","internal/fits/pixelops.go, internal/fits/oklab.go"),("chroma/hue pixel functions","internal/fits/pixelops.go")],["Image.Data"])
p("P26","Colour combination keeps channel order and balances to the targets",
 "Combining mono frames gives an image whose red, green and blue planes are the first, second and third input rescaled by one common linear map onto [0,1], with an optional fourth input kept as luminance; any other number of inputs, or inputs of different size, is rejected. Colour balancing applies one linear map per channel that takes the darkest block to the shadow tint and the selected stars to the highlight tint.",
 ["inputs","configurations"],"for all small three- and four-frame value combinations, orders and size mismatches, and every darkest-block position",
 NT+"channel mix-ups and mismatched inputs are not exercised.",
 ["internal/fits/rgb.go","internal/ops/rgb/rgb.go"],[("channel interleave","internal/fits/rgb.go: NewRGBFromChannels"),("black/white point adjustment","internal/fits/rgb.go: SetBlackWhitePoints")],["Image.Data","Context.LumFrame"])
p("P27","Histogram matching gives frames the reference's location and scale",
 "After matching, a frame's pixels are one linear function of its previous pixels such that its location (and, if selected, its scale) equals the reference frame's, for location-only, location-and-scale and black-point modes; with matching off the frame is unchanged. The statistics reported afterwards are those of the new pixels, and matching a frame to itself changes nothing.",
 ["inputs","configurations"],"for all pairs of small frames over a value alphabet, all modes and estimators",
 NT+"the relation must hold for every pair of frames.",
 ["internal/ops/post/postprocess.go","internal/fits/pixelops.go","internal/stats/stats.go"],[("linear map","internal/fits/pixelops.go: MatchHistogram"),("cached statistics update","internal/stats/stats.go: UpdateCachedWith")],["Image.Data","Image.Stats"])
p("P28","Debanding removes row or column offsets and nothing else",
 "Horizontal (vertical) debanding multiplies or shifts each row (column) as a whole so that, within its window, all rows (columns) agree in the chosen percentile of their background pixels; a band-free image stays unchanged, an image with a pure row (column) offset pattern becomes band-free, and bright objects above the threshold do not influence the correction. Any image size, percentile and window works without crashing or producing NaN, and vertical debanding equals horizontal debanding of the transposed image.",
 ["inputs","configurations"],"for all small image sizes, windows and percentiles, every single-row/column offset, and transposition",
 NT+"window borders and empty rows need particular sizes.",
 ["internal/ops/pre/banding.go"],[("percentile per row/column with sigma exclusion and moving window","internal/ops/pre/banding.go")],["frame pixels"])
p("P29","The job server answers every request and survives failing jobs",
 "Each posted job is parsed, echoed and executed, and its log including the final error, if any, is returned to that client; malformed jobs get a client-error status and nothing is executed. A failing or malformed job never stops the server or changes the outcome of later or concurrent jobs, and the health check keeps answering.",
 ["histories","schedules"],"for all request sequences up to a depth over a menu of good, failing, malformed and concurrent jobs",
 NT+"the package is not even compiled by the tests.",
 ["internal/rest/serve.go","internal/ops/operator.go"],[("request handlers","internal/rest/serve.go: postJob")],["HTTP responses","files written by jobs"])
p("P30","The exported statistics list every frame once",
 "A statistics export contains exactly one header, one row per processed frame with that frame's own number, dimensions, location, scale, noise, star count and HFR, and one footer, complete on disk when the last frame has been processed, for any number of frames and any processing order or interleaving. Failing to create or write the file is reported.",
 ["schedules","histories","fault_sequences"],"for every interleaving up to a preemption bound of up to four frames, all formats, and repeated runs on the same target",
 NT+"row loss and premature footers need particular interleavings.",
 ["internal/ops/ref/exportstats.go"],[("mutex-protected writer and frame counter","internal/ops/ref/exportstats.go: OpExportStats")],["statistics file"],"source-instrumented copy of the package via go build overlay")
p("P31","The command line runs the job its flags describe",
 "Each command builds the documented processing chain with the values given by its flags, derives automatic output names from the output file's name, loads exactly the files named on the command line, and exits with success only if every step including all saves succeeded. Running the JSON job printed by a command reproduces that command's output.",
 ["configurations","programs"],"for each command and every single flag set to a non-default value, and every single missing or damaged input",
 NT+"the command is not compiled or run by the tests.",
 ["cmd/nightlight/main.go","internal/ops/operator.go"],[("flag to operator mapping","cmd/nightlight/main.go: main"),("exit status","cmd/nightlight/main.go: main")],["exit status","output files","printed job"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    s=x['statement']; 
print(len(P))
