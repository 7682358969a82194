DEMO = "The repository's test programs print results and pass whenever they exit with 0; "
PBT = "Randomised exploration with a fixed number of generated cases per seed; no proof. Trusts the reference model in the harness, g++ and AddressSanitizer."

prop("C01", "MinMaxHeap acts as a double-ended priority queue in every history",
     "After any sequence of pushes, popTop and popBottom, the heap holds exactly the pushed items minus the popped ones; popTop removes a minimum and popBottom a maximum under the given comparator. top, bottom, nextTop and nextBottom always equal the smallest, largest, second smallest and second largest of the held items (the only item when one is held), including with duplicate and equivalent keys. size, empty and iteration agree with the held items.",
     ["histories", "inputs"], "all push/pop histories, key multisets and strict weak orders",
     DEMO + "test_min_max_heap runs one random history and prints.", [CI + "min_max_heap.h"],
     [("heapUp restores the order after a push", CI + "min_max_heap.h:heapUp"), ("heapDownMin/heapDownMax restore it after a pop", CI + "min_max_heap.h:heapDownMin"), ("second extreme lookup", CI + "min_max_heap.h:nextTop,nextBottom")],
     ["MinMaxHeap public methods and iterators"],
     "model-based stateful property testing against std::multiset, plus exhaustive small histories", PBT)

prop("C02", "DisjointSet is the partition generated by the joins made so far",
     "After any sequence of construction, initSets, makeSet, join, find and size calls, two nodes have the same representative exactly when a chain of joins connects them, the representative is a node of that set, setNum and nodeNum count sets and nodes, size(n) counts the nodes of n's set, and parents lists each representative once. join returns the representative of the merged set, or a value that is not a node when nothing is merged. Invalid ids are refused without changing the partition (find and join give a value that is not a node, size gives 0).",
     ["histories"], "all histories of operations with valid and invalid node ids",
     DEMO + "no test program uses this class.", [CI + "disjoint_set.h", CS + "disjoint_set.cpp"],
     [("union by rank", CS + "disjoint_set.cpp:join"), ("path compression", CS + "disjoint_set.cpp:find")], ["DisjointSet public methods"],
     "model-based stateful property testing against a naive partition", PBT)

prop("C03", "LabelSet behaves as a mathematical set of integers",
     "After any history of insertions, removals, clears, copies and set operations, a label set holds each label at most once and lists its labels in increasing order; inside, size and empty agree with it, and insert returns true exactly when the label was already in. unionSet, intersectionSet and differenceSet (with a set or a label) return the set-theoretic result and leave their operands unchanged. Two label sets are equal exactly when they hold the same labels, and != is the negation of ==.",
     ["histories", "inputs"], "all histories over several sets, all pairs of operands",
     DEMO + "test_label_set prints a few sets.", [CI + "label_set.h", CS + "label_set.cpp"],
     [("set algebra on std::set", CS + "label_set.cpp:unionSet,intersectionSet,differenceSet"), ("comparison", CS + "label_set.cpp:operator==")], ["LabelSet public methods"],
     "model-based stateful property testing against std::set; all pairs of small subsets enumerated", PBT)

prop("C04", "Leading zeros, log2 and power-of-two rounding are exact on every integer type",
     "For every value of each signed and unsigned 8, 16, 32 and 64 bit type: nlz is the number of leading zero bits (the full width for 0); log2Mod(i) is the l with 2^l <= |i| < 2^(l+1) for i != 0; floorPow2/ceilPow2 are the nearest signed power of two not above / not below i, and 0 for 0, whenever that power is representable in the type (the most negative 32 and 64 bit values excepted). The free functions nlz*, flp2u* and clp2u* agree with them on unsigned values.",
     ["inputs"], "every value of the eight integer types",
     DEMO + "test_numeric_traits prints some values.", [CI + "bit_manip.h", CS + "bit_manip.cpp", CI + "numeric_traits.h"],
     [("binary search for the leading bit", CS + "bit_manip.cpp:nlz8..nlz64"), ("bit smearing", CS + "bit_manip.cpp:flp2u*,clp2u*"), ("per type dispatch", CI + "numeric_traits.h:IntegerTraits")], ["nlz, log2Mod, floorPow2, ceilPow2, nlz*, flp2u*, clp2u*"],
     "exhaustive (8/16 bit, 32 bit in thorough) and boundary-biased random differential testing against a 128-bit reference", PBT)

prop("C05", "Floating point decomposition and recomposition are exact inverses",
     "For every finite or infinite float and double, decompose gives the sign, the unbiased exponent and the mantissa field such that (-1)^s (1 + m 2^-M) 2^e is the value of a normal number, and compose of these three gives back the same bits; compose followed by decompose gives back every in-range triple. The layout constants of the traits (mantissa, exponent and sign masks, exponent range, implicit bit) describe exactly those fields for both types.",
     ["inputs"], "every bit pattern of float and double (NaN payloads only for the fields)",
     DEMO + "test_numeric_traits prints some decompositions.", [CS + "bit_manip.cpp", CI + "numeric_traits.h"],
     [("field extraction", CS + "bit_manip.cpp:getMantissaExpSignF,getMantissaExpSignD"), ("field packing", CS + "bit_manip.cpp:setMantissaExpSignF,setMantissaExpSignD"), ("layout constants", CI + "numeric_traits.h:FloatTraits")], ["FloatTraits, getMantissaExpSign*, setMantissaExpSign*"],
     "round-trip and value-formula property testing over bit patterns (all floats enumerated in thorough)", PBT)

prop("C06", "Integer Morton order equals bit interleaving, with correct level and split",
     "For integer vectors of every width, signed and unsigned, in dimension 1 to 4 and beyond: MortonTraits::compare(a,b) holds exactly when the bit-interleaved code of a (coordinate 0 most significant in each row, values ordered by <) is smaller than that of b, extremes and sign changes included; distance is the level of the smallest aligned power-of-two block holding both (0 when equal) and is symmetric. intervalPow2Int and split give, per coordinate, the smallest aligned power-of-two block holding both values and its midpoint; the mid point separates the two vectors in Morton order.",
     ["inputs"], "all pairs of integer vectors of the supported types and dimensions",
     DEMO + "test_morton_order prints sorted random points.", [CI + "morton_sort.h", CI + "numeric_traits.h"],
     [("most significant differing bit", CI + "morton_sort.h:msb,lessMSB,MortonTraits"), ("block of two values", CI + "morton_sort.h:intervalPow2Int")], ["MortonTraits<Scalar,Dim>::compare/distance/split, intervalPow2Int"],
     "differential property testing against explicit bit interleaving; 8-bit pairs and small 2-d points enumerated; libFuzzer in thorough", PBT)

prop("C07", "Floating point Morton order is a strict weak order matching fixed-point bits",
     "For finite float and double vectors, MortonTraits::compare orders two vectors as the bit-interleaved two's complement fixed-point expansions of their coordinates do (coordinate 0 first), so that on integer-valued coordinates it agrees with the integer Morton order. It is a strict weak order whose equivalence is equality (signed zeros equal), invariant under scaling by a power of two. distance is symmetric and gives the binary exponent of the highest differing bit; split gives low <= a,b <= upp and low <= mid <= upp per coordinate, with mid separating a coordinate in which a and b differ and, when no coordinate is negative in both, lying after the smaller vector and not after the larger one in Morton order.",
     ["inputs"], "all pairs and triples of finite floating point vectors, extreme exponents and subnormals included",
     DEMO + "test_morton_order prints sorted random points.", [CI + "morton_sort.h", CI + "numeric_traits.h"],
     [("exponent and mantissa comparison", CI + "morton_sort.h:msb,MortonTraits"), ("block of two values", CI + "morton_sort.h:intervalPow2Float")], ["MortonTraits<float/double,Dim>::compare/distance/split, intervalPow2Float"],
     "property testing against an exact fixed-point reference, order axioms on tuples, metamorphic scaling; libFuzzer in thorough", PBT)

prop("C08", "MortonTree keeps its items and its box searches are exact",
     "After any history of insertions (single, range, converted; with or without keeping ids), sorts and searches, the tree holds exactly the inserted items with their values, data and ids (position of insertion when ids are reset); after sort or a search they are in Morton order. findItem returns the first item not before the query in Morton order. searchInBox (two corners or centre and range) returns every item inside the closed box once and no other item. computeLevel of an interval (sorted first if need be) is the level of the smallest subtree holding its items: the largest Morton distance from the first one. An item built from a list holds its values and id and prints them as [v0,v1,...](id n).",
     ["histories", "inputs"], "all histories of insertions and searches, all boxes",
     DEMO + "no test program searches the tree.", [CI + "morton_tree.h", CI + "morton_sort.h"],
     [("lazy sort", CI + "morton_tree.h:sort"), ("pruned recursion over Morton blocks", CI + "morton_tree.h:searchInBox")], ["MortonTree public methods"],
     "model-based stateful property testing against a list with brute-force search; libFuzzer in thorough", PBT)

prop("C09", "Raster and boustrophedon iteration visit every cell once in the defined order",
     "For every index interval of any dimension, minimum and size: raster iteration visits all its cells once with coordinate 0 fastest, starting at the minimum; boustrophedon iteration visits all cells once, each step moving to an adjacent cell (one coordinate changes by 1), starting at the minimum with coordinate 0 fastest. Iterating backwards visits the reverse sequence, and an empty interval has no cells. getPos and getIndices of the raster indexers are inverse to each other and give the position in raster order; BoustrophedonIndexer::getIndices gives the cell at a position of its order.",
     ["inputs"], "all interval dimensions, minima and sizes",
     DEMO + "test_interval_indices prints two small intervals.", [CI + "interval_indices.h"],
     [("position to indices", CI + "interval_indices.h:RasterIndexer,StaticRasterIndexer,BoustrophedonIndexer"), ("iterators", CI + "interval_indices.h")], ["IntervalIndices iterators, RasterIndexer, StaticRasterIndexer, BoustrophedonIndexer"],
     "property testing against nested counting and reflected order, all small shapes enumerated", PBT)

prop("C10", "IntervalIndices is the algebra of integer boxes",
     "However an interval is built (bounds, centre and half size, min and max, default), inside(p) holds exactly for the points between min and max included, size counts them, empty holds when there are none, and first, last (one past), min, max and dimensions describe the same box. intersect is the set intersection (empty when disjoint), stacked(d, n) is the slab of |n| cells next to the box along d (after it for n >= 0, before it for n < 0), translate moves the box; a non-empty box prints as [min:max,...] and indices as [i,...]; const operations leave the operands unchanged.",
     ["inputs"], "all boxes, offsets and points", DEMO + "test_interval_indices prints a few intervals.", [CI + "interval_indices.h"],
     [("initialisers and algebra", CI + "interval_indices.h:initBounds,initCentered,initMinMax,intersect,stacked,translate")], ["IntervalIndices public methods"],
     "model-based property testing against point membership on a surrounding cube", PBT)

prop("C11", "Grid is a map from each index of its domain to its own value",
     "After the domain of a grid is set in any way, each index of the domain has a cell of its own: a write through value(indices), value(pointer) or value(position) is read back through all three at that index and changes no other cell; fill sets all cells; copies are independent. getPos and getIndices are inverse bijections between the domain and 0..size-1, and inside holds exactly on the domain.",
     ["histories", "inputs"], "all domains and all histories of writes",
     DEMO + "no test program writes cells of a grid and reads them back.", [CI + "grid.h", CI + "interval_indices.h"],
     [("linear storage with raster indexing", CI + "grid.h:value,getPos")], ["Grid public methods"],
     "model-based stateful property testing against std::map", PBT)

prop("C12", "PeakFinderD reports exactly the strict peaks of the map",
     "For every map over a box domain, every peak window (larger than the domain included), with or without a threshold and for maxima, minima and any other comparator given, detect reports a cell exactly when its value is strictly better than that of every other domain cell in the window around it and, with the threshold enabled, strictly better than the threshold. Each peak is reported once, best value first; the map is only evaluated inside the domain, and a finder gives the same answer when used again.",
     ["inputs"], "all maps, domains, windows and thresholds", DEMO + "test_peak_finder_d prints the peaks of one map.", [CI + "peak_finder_d.h"],
     [("sliding window candidates", CI + "peak_finder_d.h:detect"), ("threshold", CI + "peak_finder_d.h:enableFilterPeakMin")], ["PeakFinderD::setDomain*, setPeakWindow, enableFilterPeakMin, detect"],
     "differential property testing against a brute-force scan, all short 1-d maps enumerated; libFuzzer in thorough", PBT)

prop("C13", "ParamMap is the map defined by everything read and set so far",
     "After any history of reading streams, files and command lines, setting, getting, clearing and writing, the map holds for each name the last value given: in text, the first word of a line is the name and the second its value (lines with fewer than two words or whose first word starts with # are skipped; indentation, further words, line length and a missing final newline do not matter); on a command line, -name value (name starting with a letter, value not itself such an option). getParam of a missing name stores and returns the default. write lists 'name value' lines sorted by name, with the given prefix; writing to a file and reading it gives the same map; missing files and unwritable paths are reported by a false return and change nothing.",
     ["histories", "inputs"], "all histories of reads, writes and sets; all texts and argument vectors",
     DEMO + "test_param_map prints a map read from its command line.", [CI + "param_map.h", CS + "param_map.cpp"],
     [("line parser", CS + "param_map.cpp:read(std::istream&)"), ("command line parser", CS + "param_map.cpp:read(int argc, char** argv)"), ("dump", CS + "param_map.cpp:write")], ["ParamMap::read, write, setParam, setParamString, getParam, clear"],
     "model-based stateful property testing against std::map and an independent parser; libFuzzer in thorough", PBT + " Files are made in a scratch directory.")

prop("C14", "Typed parameters, lists and home paths are read back as they were set",
     "For every integer, bool, char, string and floating point value, setParam followed by getParam gives the value back (floating point within the 6 printed digits), whatever other parameters exist; a missing parameter gives the default, now and at the next read; text that is not a number leaves a numeric variable and the map unchanged. getParamContainer fills a range with the items of a delimited list in order, completing it with the default item when the list is short and ignoring what exceeds it, for default and custom delimiters and also from the default text; the inserter version appends exactly the items; an item that is not a number ends the list there. adaptTildeInPaths replaces the leading ~ of every value that is ~ or starts with ~/ by the home directory and leaves every other value and name unchanged (all of them when HOME is not set).",
     ["inputs"], "all values, list texts, delimiters, range sizes and maps",
     DEMO + "test_param_map prints some parameters.", [CI + "param_map.h", CS + "param_map.cpp"],
     [("conversion by streams", CI + "param_map.h:getParam,setParam"), ("tokeniser", CI + "param_map.h:getParamContainer"), ("tilde expansion", CS + "param_map.cpp:adaptTildeInPaths")], ["ParamMap::setParam, getParam, getParamContainer, getParamContainerInserter, adaptTildeInPaths"],
     "round-trip property testing with generated values, lists and maps", PBT)

prop("C15", "Profiler statistics are those of the measurements, timers cover their scope",
     "For every interleaved series of measurements over labels, the printed statistics of each label are its arithmetic mean, its unbiased sample variance (0 for one value), its minimum, maximum and count. A ScopedTimer adds exactly one measurement to its label, when its scope ends, of the milliseconds elapsed since its construction, and elapsedTimeMs is the time elapsed so far; the scoped timer macro measures until the end of the enclosing scope, labelled with file and function. The ROFL_VARn debug macros print each argument's text with its own value.",
     ["histories", "inputs"], "all series of measurements and all nestings of timers",
     DEMO + "no test program checks statistics.", [CI + "profiler.h", CS + "profiler.cpp", CI + "macros.h"],
     [("running mean and variance", CS + "profiler.cpp:updateStat"), ("RAII timer", CS + "profiler.cpp:ScopedTimer"), ("macro", CI + "profiler.h:ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE")], ["Profiler::updateStat, printStats, ScopedTimer, ROFL_VARn"],
     "property testing against batch statistics in extended precision; clock-bracketed timers", PBT)

prop("C16", "Fast trigonometric functions stay within their accuracy everywhere",
     "For every angle (any number of turns) fastCosSin and fastCosSinf give cosine and sine within 1.2e-3 (plus the float rounding of the argument); fastAtan and fastAtanf on [-1,1] are within 1.3e-5 of arctan and fastAtan is odd; fastAtan2(x, y) and its float version are within 1.3e-5 (1.5e-5) of the angle of the point (x,y) in [-pi,pi] for every point but the origin, axes and diagonals included. normalize360 gives the congruent angle in [0, 2pi] and normalize180 the angle congruent modulo pi in [0, pi].",
     ["inputs"], "all finite angles and points of the plane, float and double",
     DEMO + "no test program checks these functions.", [CI + "functions.h", CS + "functions.cpp"],
     [("quadrant reduction", CS + "functions.cpp:fastCosSin"), ("octant reduction", CS + "functions.cpp:fastAtan2"), ("normalisation", CS + "functions.cpp:normalize360,normalize180")], ["fastCosSin(f), fastAtan(f), fastAtan2(f), normalize360, normalize180"],
     "differential property testing against libm in extended precision with inputs biased to reduction boundaries; libFuzzer in thorough", PBT)

prop("C17", "Interval bounds of cosine and Fourier series enclose and are tight",
     "For every interval, given in either order and of any length and position, findLUCos returns the exact minimum and maximum of the cosine on it. evaluateFourier is sum_k c[2k] cos(k t) + c[2k+1] sin(k t). findLUFourier returns, for the series sum_k c[2k] cos(2k t) + c[2k+1] sin(2k t), the sum of the exact ranges of its harmonics on the interval; hence every value of that series on the interval lies between its bounds.",
     ["inputs"], "all intervals and coefficient vectors",
     DEMO + "no test program checks the bounds.", [CI + "functions.h", CS + "functions.cpp"],
     [("case analysis on the period", CS + "functions.cpp:findLUCos"), ("phase and amplitude", CS + "functions.cpp:findLUFourier"), ("series value", CS + "functions.cpp:evaluateFourier")], ["findLUCos, findLUFourier, evaluateFourier"],
     "differential property testing against exact ranges and sampled values in extended precision; libFuzzer in thorough", PBT)

prop("C18", "PNEBI values and look-up tables approximate 2 exp(-x) I_k(x)",
     "For every order k and |x| up to 1e6, evaluatePnebiVector gives 2 exp(-|x|) I_k(|x|) within 1.5e-7 for all orders up to the requested one, satisfies the three term recurrence, is non-negative and does not increase with the order; evaluatePnebi0Polynom agrees for order 0. A PnebiLUT of order n >= 1 and tolerance tol, freshly built or re-initialised, is within tol of these values for every x, from order 0 to n included, changes continuously with x, and its single-order and all-orders evaluations are equal and are the values that printLUT lists for its samples.",
     ["inputs"], "orders, arguments of either sign, table orders and tolerances",
     DEMO + "no test program checks these functions.", [CI + "functions.h", CS + "functions.cpp"],
     [("downward recursion", CS + "functions.cpp:evaluatePnebiVector"), ("adaptive table", CS + "functions.cpp:PnebiLUT::init"), ("interpolation", CS + "functions.cpp:PnebiLUT::eval")], ["evaluatePnebi0Polynom, evaluatePnebiVector, PnebiLUT"],
     "differential property testing against a spectrally accurate quadrature, recurrence and monotonicity relations", PBT)

prop("C19", "estimateTranslationTls minimises the truncated least squares cost",
     "For every list of values with ranges whose interval ends value-range, value+range are distinct, the estimate is the weighted mean (weights 1/range^2, at most 1e12) of a set of values whose intervals share a point, and this set minimises sum over it of (estimate - value)^2 plus the sum of the ranges of the other values. inliers marks exactly the values closer to the estimate than their range. A group of equal values wins against isolated values, and shifting all the values shifts the estimate. The input is unchanged.",
     ["inputs"], "all value and range lists (distinct interval ends)",
     DEMO + "test_tls_scalar_consensus prints one estimate.", [CI + "tls_scalar_consensus.h"],
     [("sweep over interval ends with incremental sums", CI + "tls_scalar_consensus.h:estimateTranslationTls")], ["estimateTranslationTls on float and double"],
     "differential property testing against brute-force minimisation in extended precision, metamorphic shift", PBT)

prop("C20", "Directory listings and stamped names reflect the directory and the clock",
     "getDirectoryFiles lists exactly the regular files of a directory (links to files included; sub-directories, their content, links to directories, dangling or looping links and fifos excluded), as directory/name; files already in the given list are kept and the whole list is sorted. generateStampedString(prefix, postfix) is prefix + YYYYMMDD_hhmm_ss in local time + postfix for every instant and time zone, with zero-padded fields and prefix and postfix unchanged.",
     ["inputs"], "all directory contents; all instants, zones and affixes",
     DEMO + "no test program lists a directory.", [CI + "io.h", CS + "io.cpp"],
     [("directory iteration", CS + "io.cpp:getDirectoryFiles"), ("time formatting", CS + "io.cpp:generateStampedString")], ["getDirectoryFiles, generateStampedString"],
     "generated scratch directories against the entries made; generated instants with a replaced clock", PBT + " Directories are made under a scratch directory; time() is interposed inside the harness.")

prop("C21", "Planar poses, angle intervals and orientation are exact up to rounding",
     "poseToIsometry2 (both overloads) gives the rigid motion p -> R(theta) p + (x,y). normalizeAngle2Pi gives the same angle in [0,2pi]. insideAngleInterval(a, begin, end) holds exactly when a lies counter-clockwise from begin (included) before end (excluded), insideAngleIntervalEq includes the end; both work for intervals across 0 and angles of any number of turns, and the AngleInterval overload agrees. ccw is twice the signed area of the triangle: positive for counter-clockwise points, invariant under rotation of the points and negated by swaps. VectorN has N components; Polygon2 takes open rings whose area is positive when the points are counter-clockwise; K_PI and K_2PI are pi and 2 pi.",
     ["inputs"], "all poses, points, angles, intervals and triangles",
     DEMO + "no test program checks them.", [GI + "base_geometry2.h", GS + "base_geometry2.cpp", GI + "types.h"],
     [("rigid motion", GS + "base_geometry2.cpp:poseToIsometry2"), ("angle interval", GS + "base_geometry2.cpp:insideAngleInterval,insideAngleIntervalEq"), ("orientation", GS + "base_geometry2.cpp:ccw")], ["poseToIsometry2, normalizeAngle2Pi, insideAngleInterval(Eq), ccw"],
     "differential property testing in double and integer arithmetic", PBT)

prop("C22", "Geographic conversions follow WGS84 and invert each other",
     "convertLatLonAltToECEF gives the WGS84 position within 5 m (plus the float rounding of the altitude) for every latitude, longitude and altitude. meterPerDegLat and meterPerDegLon give the length of a degree at a latitude, by the documented harmonics within 5 cm and on the ellipsoid within 30 m. convertLatLonToLocalXY gives the east and north displacement from the origin, with the lengths of a degree at the latitude of the origin, within 5 cm per degree (0 0 at the origin), and convertLocalXYToLatLon is its inverse.",
     ["inputs"], "all geodetic positions, origins and nearby points",
     DEMO + "no test program checks them.", [GI + "gis.h", GS + "gis.cpp"],
     [("geodetic to cartesian", GS + "gis.cpp:convertLatLonAltToECEF"), ("length of a degree", GS + "gis.cpp:meterPerDegLat,meterPerDegLon"), ("local plane", GS + "gis.cpp:convertLatLonToLocalXY,convertLocalXYToLatLon")], ["convertLatLonAltToECEF, meterPerDegLat/Lon, convertLatLonToLocalXY, convertLocalXYToLatLon"],
     "differential property testing against the ellipsoid formulas in double precision, round trips", PBT)

prop("C23", "BoxRegistration associates nearest points and takes optimal rigid steps",
     "For every box and query point in 2D and 3D, associate returns a point of the box surface at minimum distance from the query (inside, outside, on faces, edges and corners). computeTransform returns a proper rotation and translation that minimise the sum of squared distances between the moved associated box points and the cloud, so the distance of the cloud from the box surface never grows over the steps. estimateInitTranform gives a proper rotation whose axes are principal axes of the cloud, the larger spread on the longer box side, and the centroid as translation (identity for fewer than two points).",
     ["inputs"], "all boxes, query points, clouds and starting poses",
     DEMO + "test_box_registration prints one registration.", [GI + "box_registration.h"],
     [("nearest surface point", GI + "box_registration.h:associate"), ("SVD alignment", GI + "box_registration.h:computeTransform"), ("principal axes", GI + "box_registration.h:estimateInitTranform")], ["BoxRegistration<double/float, 2/3>"],
     "differential property testing against brute-force nearest points and closed-form/quaternion Procrustes optima, monotone error over steps", PBT)

prop("C24", "Correspondence association returns all maximum coherent matchings",
     "For every source and destination distance function, tolerance and minimum distance, associate returns exactly the largest sets of (source, destination) pairs in which every two pairs are coherent: distinct items on both sides, source distance greater than the minimum, and source and destination distances that differ by less than the tolerance. Each set is returned once, as label sets (isrc * numDst + idst) and as lists of pairs alike. An object can be used again with new items, tolerance or minimum, and earlier uses do not influence the answer.",
     ["inputs", "histories"], "all distance matrices and all histories of insertions and associations",
     DEMO + "test_correspondence_graph prints one association.", [GI + "correspondence_graph_association.h", GS + "correspondence_graph_association.cpp"],
     [("compatibility graph", GS + "correspondence_graph_association.cpp:associate"), ("Bron-Kerbosch enumeration", GS + "correspondence_graph_association.cpp:executeBronKerbosch")], ["CorrespondenceGraphAssociation public methods"],
     "model-based property testing against exhaustive enumeration of matchings, multi-round histories", PBT + " Up to 5 items per side (8 for planar points, 24 against 2, 12 with few coincidences).")

prop("C25", "HoughPlaneDetector counts votes exactly and reports the peaks",
     "For all bin numbers, parameter ranges and points, after any history of init, setZero and insert: the transform at (theta, phi, rho) is the number of inserted points whose distance n(theta,phi).p lies in the bin [rhoMin + irho rhoRes, rhoMin + (irho+1) rhoRes[, points outside the range counting nowhere; the spectrum is the sum over rho of its squares. Inserting points accumulates, inserting by iterators starts from zero. findSpectrumMax, findNormalMax, findParallelPlanes and findPlanes return exactly the strict local maxima over the peak window of the spectrum and, for these directions, of the transform, best first, and the plane parameters (n, -rho) of those bins.",
     ["inputs", "histories"], "all bin configurations, point sets and histories of inserts",
     DEMO + "test_hough_plane_detector prints one detection.", [GI + "hough_plane_detector.h", GS + "hough_plane_detector.cpp"],
     [("voting", GS + "hough_plane_detector.cpp:insert"), ("peaks", GS + "hough_plane_detector.cpp:findSpectrumMax,findPlanes"), ("parameters", GS + "hough_plane_detector.cpp:getPlaneParam")], ["HoughPlaneDetector public methods"],
     "model-based property testing against recounted votes and brute-force peaks", PBT)

prop("C26", "HoughLineDetector counts votes exactly and reports the peaks",
     "For all bin numbers, parameter ranges and points, after any history of init, setZero and insert: the transform at (theta, rho) is the number of inserted points whose distance x cos(theta) + y sin(theta) lies in the rho bin, points outside the range counting nowhere; the spectrum is the sum over rho of its squares. The spectrum maxima (as indices, angles and normals) are exactly the strict local maxima over the peak window, best first, and findLines returns, for these angles, exactly the strict local maxima of the transform over rho, as bins and as parameters (cos, sin, -rho).",
     ["inputs", "histories"], "all bin configurations, point sets and histories of inserts",
     DEMO + "no test program uses it.", [GI + "hough_line_detector.h", GS + "hough_line_detector.cpp"],
     [("voting", GS + "hough_line_detector.cpp:insert"), ("peaks", GS + "hough_line_detector.cpp:findSpectrumIndicesMax,findLines")], ["HoughLineDetector public methods"],
     "model-based property testing against recounted votes and brute-force peaks", PBT)

prop("C27", "PointCloudPlaneAligner is a rigid motion that takes the plane normal to +Z",
     "For every plane (any orientation, sign and scale of the coefficients) and cloud, the plane is oriented toward the origin, the computed transform is a proper rigid motion that maps its unit normal to +Z, the height of each transformed point is the projection of the point on the normal, distances are preserved, and the centroid of the points within the tolerance of the plane is moved to x = y = 0 (without such points the origin stays there). The transformed cloud has the same number and order of points, with their intensities; an aligner can be used again for other clouds and planes.",
     ["inputs"], "all planes, tolerances and clouds",
     DEMO + "no test program uses it.", ["pcl/include/rofl/pcl/point_cloud_plane_aligner.h"],
     [("frame from the normal", "pcl/include/rofl/pcl/point_cloud_plane_aligner.h:compute"), ("orientation", "pcl/include/rofl/pcl/point_cloud_plane_aligner.h:setPlaneCoeffs")], ["PointCloudPlaneAligner<PointXYZ>, <PointXYZI>"],
     "property testing of rigid motion invariants with generated planes and labelled inliers", PBT)

prop("C28", "VectorArray arithmetic is componentwise",
     "For every scalar type and dimension, x + y, x - y, x * y, x / y, x * k, x += y, x *= y and x *= k are computed component by component, the compound forms return the updated vector, also when an operand is the vector itself or one of its components; the other operands are unchanged, a new vector is zero, and operator() and operator[] access the same component.",
     ["inputs"], "all vectors and sequences of operations",
     DEMO + "no test program uses it.", [CI + "vector_array.h"],
     [("operators", CI + "vector_array.h:operator+,operator-,operator*,operator/")], ["VectorArray operators"],
     "model-based property testing against plain arrays", PBT)
