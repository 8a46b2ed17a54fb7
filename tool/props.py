import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,obs):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs)))
C01=json.loads(open('/verif/properties.jsonl').readline()); assert C01["id"]=="C01"
P.append(C01)
prop("C03","Inputs whose sizes disagree are rejected",
"A library function whose arguments must correspond (values and the grid or points they belong to, several fields, lists of points, ensembles, curves, scale fields) raises an exception when any of their extents disagree; no such call returns normally. This holds for every extent that has to agree (rows, columns, points, members, levels), for longer as well as shorter arguments, and for every overload.",
["inputs"],"all combinations of sizes of all arguments (each at least one) of every public function with more than one sized argument",
"Tests try one or two wrong sizes for a few arguments; whether each of some 300 pairs of extents, in both directions, is compared on every path to a normal return can only be settled over all sizes at once.",
["src/api/util.cpp","src/api/gradient.cpp","src/api/oi.cpp","src/api/oi_ensi.cpp","src/api/oi_ensi_multi.cpp","src/api/bilinear.cpp","src/api/nearest.cpp","src/api/humidity.cpp","src/api/structure.cpp","src/api/curve.cpp","src/api/points.cpp","src/api/grid.cpp"],
[("compatible_size overloads","src/api/util.cpp"),("size comparisons at the start of each public function that throw std::invalid_argument","src/api/*.cpp")],["whether the call returns or raises"])
prop("C04","Elements are only accessed inside their arrays, for all sizes and parameters",
"In every library function, each index into an array, field, matrix or list that is computed from loop counters, array extents and scalar parameters (window and neighbourhood limits, first and last elements, row and column order of non-square fields, ensemble members) is at least zero and below the extent it indexes. This holds for all sizes of the inputs (each dimension at least one) and all values of the half-widths, window lengths, numbers of points and other scalar parameters.",
["inputs","configurations"],"all sizes (at least one per dimension) and all scalar parameters of every public function",
"The tests use small, mostly square fields and default parameters, and an access just outside a vector goes unnoticed without instrumentation.",
["src/api/neighbourhood.cpp","src/api/window.cpp","src/api/calc_gradient.cpp","src/api/neighbourhood_search.cpp","src/api/fill.cpp","src/api/doping.cpp","src/api/oi.cpp","src/api/oi_ensi.cpp","src/api/oi_ensi_multi.cpp","src/api/local_distribution_correction.cpp"],
[("neighbourhood limits clamped with std::max(0, .) and std::min(n - 1, .)","src/api/neighbourhood.cpp, calc_gradient.cpp, neighbourhood_search.cpp, doping.cpp"),("buffers sized from the extents they are indexed by","src/api/*.cpp")],["memory accesses of the call"])
prop("C05","Results have exactly the extents of the target",
"What a library function returns has the extents its target dictates, for all sizes of the inputs: results on an output grid have its rows and columns, results at points have one value per point, results that follow the input have the input's extents, and the time or member dimension is carried over unchanged. This includes degenerate sizes (one row, one column, one point, one time, one member), early returns, and arrays filled by reference.",
["inputs"],"all sizes of all arguments of every public function that returns or fills an array",
"Tests check the shape for a handful of sizes, mostly square and larger than one; swapped or truncated extents and early returns with another shape only show for other sizes.",
["src/api/nearest.cpp","src/api/bilinear.cpp","src/api/gradient.cpp","src/api/simple_gradient.cpp","src/api/downscaling.cpp","src/api/neighbourhood.cpp","src/api/oi.cpp","src/api/oi_ensi.cpp","src/api/gridding.cpp","src/api/distance.cpp","src/api/count.cpp","src/api/transform.cpp"],
[("output arrays are created with the extents of the target before the loops","src/api/*.cpp (init_vec2, init_vec3, vec(n))")],["extents of the returned arrays"])
prop("C09","Invalid parameter values are rejected",
"A library function with a restricted scalar parameter (non-negative half-width, radius, number of points, scale or cut-off distance; positive window length, number of thresholds or transform parameter; an ordered range; a known downscaling method) raises an exception when the value is outside its range, and for the parameters of structure functions and transforms and for the gridding radius also when it is not a finite number. No call with such a value returns normally.",
["inputs","configurations"],"all values of the restricted scalar parameters of every public function",
"Tests try one or two invalid values (typically -1) for some of the parameters; the borders, the missing and the infinite value, and the other overloads are left out.",
["src/api/structure.cpp","src/api/transform.cpp","src/api/neighbourhood.cpp","src/api/gridding.cpp","src/api/calc_gradient.cpp","src/api/oi.cpp","src/api/oi_ensi.cpp","src/api/oi_ensi_multi.cpp","src/api/window.cpp","src/api/downscaling.cpp"],
[("parameter checks at the start of the public functions and in the constructors that throw std::invalid_argument","src/api/*.cpp")],["whether the call returns or raises"])
prop("C02","A failure inside a parallel loop reaches the caller as an exception",
"When an input makes a computation fail inside one of the library's parallel loops (an unknown statistic, metric or extrapolation policy, a quantile out of range, an unphysical value, coordinates that do not fit, a singular matrix, a degenerate cell), the call raises an exception like any other failing call. No exception ever leaves the body of a parallel loop, so no input terminates the calling process.",
["inputs","schedules"],"all inputs of all public functions with a parallel loop, on any number of threads",
"A test that triggered it would kill the test runner; the existing tests only exercise inputs that do not fail inside the loops, and which failures can arise inside which loop depends on the whole call tree below it.",
["src/api/util.cpp","src/api/neighbourhood.cpp","src/api/gridding.cpp","src/api/curve.cpp","src/api/bilinear.cpp","src/api/oi.cpp","src/api/distribution.cpp","src/api/pressure.cpp","src/api/window.cpp","src/api/nearest.cpp"],
[("parallel loops whose body keeps an exception and rethrows it after the loop","src/api/*.cpp"),("argument checks before the loops that exclude failures inside","src/api/*.cpp"),("functions that throw and are called in loops: calc_statistic, calc_quantile, apply_curve, calc_score, sea_level_pressure, convert_coordinates","src/api/util.cpp, curve.cpp, metric_optimizer.cpp, pressure.cpp")],["whether the call raises or the process ends"])
prop("C06","Coordinates of different systems are never mixed",
"A library function that combines two location sets (grids or points) raises an exception when one is in latitude/longitude and the other in projected x/y coordinates; no such call returns normally. Every location, point set, grid or search structure the library derives from a location set (copies, subsets, points in a domain, a grid as points, single locations, corners of a grid box) keeps the coordinate type of the set it came from.",
["inputs"],"all pairs of location sets of all public functions that take two of them; all derivations of locations from a location set",
"Nearly all tests use latitude/longitude, the default; a check left out of one of some 60 overloads, or a derivation that falls back to the default type, only shows with projected coordinates in exactly that function.",
["src/api/points.cpp","src/api/grid.cpp","src/api/kdtree.cpp","src/api/point.cpp","src/api/nearest.cpp","src/api/bilinear.cpp","src/api/distance.cpp","src/api/oi.cpp","src/api/oi_ensi.cpp","src/api/oi_ensi_multi.cpp","src/api/corr_points.cpp","src/api/gridding.cpp"],
[("comparison of get_coordinate_type() of both arguments before any search","src/api/*.cpp"),("coordinate type passed on to the constructors of Point, Points, Grid and KDTree","src/api/points.cpp, grid.cpp")],["whether the call returns or raises; coordinate type of derived objects"])
prop("C07","The result of a library call depends only on its arguments",
"The result of a library call is determined by its arguments: repeating it, in any order and mixed with any other calls, gives the same values, and nothing that was not computed from the arguments (memory never assigned, the clock, the environment, the number of threads, the debugging level, earlier calls, what an output argument held before) takes part. No call modifies one of its inputs or the object it is invoked on. Random numbers are only drawn for the random-choice statistic.",
["histories","inputs"],"all sequences of library calls with all arguments",
"A test calls a function once or twice in a fixed order; a value kept from an earlier call with other arguments, or an unassigned variable on a rare path, only shows for particular histories.",
["src/api/util.cpp","src/api/structure.cpp","src/api/kdtree.cpp","src/api/grid.cpp","src/api/points.cpp","src/api/curve.cpp","src/api/oi.cpp","src/api/bilinear.cpp","src/api/gridpp.cpp","src/api/distribution.cpp"],
[("functions without static or mutable storage; const methods and const reference arguments","src/api/*.cpp, include/gridpp.h"),("output arguments are reassigned or resized before they are filled","src/api/kdtree.cpp, curve.cpp, oi.cpp, util.cpp"),("constructors initialise every data member","src/api/structure.cpp, point.cpp, transform.cpp, kdtree.cpp")],["returned values of repeated and interleaved calls; arguments after the call"])
prop("C08","No element of a result keeps an arbitrary number instead of being missing",
"Every element of an array that a library function returns, fills by reference or keeps in an object is either computed, copied from an input or set to an argument's value, or it is the missing value: no element is left at the zero (or other fixed number) the array started with because some input was missing, a point had no neighbours or a branch was not taken. A missing input value is never replaced by a fixed number in a result (only the structure functions read a missing length scale as switched off).",
["inputs"],"all inputs (in particular with missing values and points without neighbours) of every public function that returns an array or a number",
"The elements concerned are those of rare inputs (missing values, empty neighbourhoods, degenerate cells) in every one of some 150 functions; tests look at a few, and zero is a plausible value.",
["src/api/gridding.cpp","src/api/nearest.cpp","src/api/bilinear.cpp","src/api/neighbourhood.cpp","src/api/curve.cpp","src/api/fill.cpp","src/api/humidity.cpp","src/api/distribution.cpp","src/api/window.cpp","src/api/downscale_probability.cpp","src/api/local_distribution_correction.cpp","src/api/transform.cpp"],
[("result arrays created with the missing value","src/api/*.cpp (init_vec2, init_vec3, vec(n, MV), resize(n, MV))"),("branches for missing inputs","src/api/*.cpp (is_valid)")],["elements of the returned arrays"])
prop("C10","Every argument of a call takes part in what it returns",
"Every argument of a library function influences its result or its output arguments, in every overload: no option, limit, threshold, default value or input array is accepted and then ignored, and the positions, elevations and land area fractions of grids and points take part where the operation is defined in terms of them. What an object was constructed with takes part in its operations, equally in their scalar and array versions and in an operation and its inverse. A function that hands its work on to another version of itself hands on each of its own arguments, unchanged in role.",
["inputs"],"all arguments of every public function, constructor and method of the library; for each, some input exists on which changing it changes the result",
"An argument that is dropped or exchanged in one of some 290 functions changes results only for inputs in which it matters (a non-default option, a land fraction, a tie); tests call most overloads with default or symmetric values.",
["src/api/gradient.cpp","src/api/simple_gradient.cpp","src/api/structure.cpp","src/api/grid.cpp","src/api/points.cpp","src/api/kdtree.cpp","src/api/curve.cpp","src/api/oi.cpp","src/api/oi_ensi.cpp","src/api/oi_ensi_multi.cpp","src/api/local_distribution_correction.cpp","src/api/transform.cpp","src/api/downscaling.cpp","src/api/window.cpp"],
[("overloads that delegate to each other","src/api/*.cpp"),("parameters of structure functions and transforms kept in data members","src/api/structure.cpp, transform.cpp"),("elevation and land fraction corrections","src/api/gradient.cpp, simple_gradient.cpp, structure.cpp")],["returned values when one argument is varied"])
prop("C11","Copies are complete and location attributes never change role",
"Copies, clones and assignments of grids, point sets, search trees and structure functions behave as the original in every operation: each attribute of the copy is that attribute of the original. Points taken out of a grid or point set, subsets and converted sets keep latitude, longitude, elevation, land area fraction and coordinate type, each from its counterpart. Nowhere in the library is a latitude used as a longitude (or an elevation as a land area fraction, or x as y), whether in an assignment, a call, a difference or a comparison.",
["inputs","histories"],"all objects and all sequences of copying, subsetting and passing them to library functions",
"A dropped or exchanged attribute only matters for operations that use it and for values that differ (Cartesian coordinates, points with elevations and land fractions, non-default truncation), often in a function far from the copy.",
["src/api/points.cpp","src/api/grid.cpp","src/api/point.cpp","src/api/kdtree.cpp","src/api/structure.cpp","src/api/gradient.cpp","src/api/doping.cpp","src/api/oi.cpp"],
[("copy constructors, assignment and clone()","src/api/points.cpp, kdtree.cpp, structure.cpp"),("subset, get_in_domain, to_points, get_point","src/api/points.cpp, grid.cpp"),("arrays of latitudes, longitudes, elevations and land fractions passed on","src/api/*.cpp")],["attributes of derived objects; results computed with them"])
prop("C12","Each element of a result is computed from its own inputs only",
"Locations, time steps, ensemble members and elements are processed independently: an element of a result depends on the inputs that belong to it (its own element of an aligned array, its own output location's coordinates and attributes, its own time step or row) and never on those of another element. In particular nothing computed for one element is carried over to the next, no input is read at a fixed or exchanged index, and a missing value at one time step, row or location affects only results that are defined in terms of it.",
["inputs"],"all inputs of the vectorised functions and overloads (downscaling and gradients over time, curves and distributions, humidity, pressure and wind, structure functions for many points, transforms, optimal interpolation at separate locations, windows per row)",
"A value left over from the previous iteration, a buffer that is not reset or an index of the wrong axis shows only for particular sequences of missing and valid values or non-symmetric arrays; tests use short, often constant, arrays.",
["src/api/nearest.cpp","src/api/bilinear.cpp","src/api/gradient.cpp","src/api/simple_gradient.cpp","src/api/curve.cpp","src/api/oi.cpp","src/api/local_distribution_correction.cpp","src/api/window.cpp","src/api/transform.cpp","src/api/structure.cpp","src/api/humidity.cpp","src/api/downscale_probability.cpp","src/api/gridding.cpp"],
[("loops over output locations, times and members that declare their working variables inside the loop","src/api/*.cpp"),("results indexed with the loop variables of the inputs they are computed from","src/api/*.cpp")],["elements of the result when one element of an input is varied"])
prop("C13","Every documented option of the command-line program takes effect",
"Each calibrator, downscaler, file type and parameter file type can be selected by the name its help text gives, and each option in its help text is read under exactly that name, has the documented default when it is absent, and takes effect when it is given. An option given to a calibrator or downscaler that does not know it is reported. Options, calibrators and parameter files given for one variable or method are never carried over to another.",
["inputs"],"all command lines: every method, every option and every value of it, every order of variables, calibrators, downscalers and parameter files",
"An option that is misspelt, read into the wrong variable, overwritten, left over from a previous argument or never used leaves the program running and its output plausible; there are over two hundred options and the tests set a few dozen, one at a time.",
["src/client/Options.cpp","src/client/Setup.cpp","src/client/Variable.cpp","src/client/Calibrator/*.cpp","src/client/Downscaler/*.cpp","src/client/File/*.cpp","src/client/ParameterFile/*.cpp"],
[("options are read by name into a variable holding the default; reads are marked, unread ones reported by check()","src/client/Options.cpp"),("factories choose a class by name and hand it its options","src/client/Calibrator/Calibrator.cpp getScheme, src/client/Downscaler/Downscaler.cpp getScheme"),("one pass over the arguments collects a variable, its downscaler, calibrators and parameter files","src/client/Setup.cpp")],["warnings about options","values used by a calibrator or downscaler for a given command line"])
prop("C14","The program's output depends on its files and options alone",
"Running the command-line program twice on the same files with the same command gives the same output: nothing in it comes from memory that was never given a value, the clock, random numbers, the environment or the number of threads. Processing one variable, time step or file leaves nothing behind, in static storage or inside a calibrator or downscaler, that changes the result of the next. Neighbours and parameter look-ups that are remembered are found anew when the coordinates they were found for change.",
["inputs","histories"],"all files, commands and orders in which variables, times, members and files are processed",
"A member that is not initialised usually holds zero in a test, and a remembered value is right until a second file, variable or changed grid comes along; each test runs one step on one file.",
["src/client/File/*.cpp","src/client/Calibrator/*.cpp","src/client/Downscaler/*.cpp","src/client/ParameterFile/*.cpp","src/client/Variable.cpp","src/client/Util.cpp","src/client/KDTree.cpp"],
[("calibrators and downscalers are const while they process a file","src/client/Calibrator/Calibrator.h, src/client/Downscaler/Downscaler.h"),("grid identity renewed by setLats/setLons; neighbour cache keyed by the identities of both grids","src/client/File/File.cpp, src/client/Downscaler/Downscaler.cpp"),("search tree of a parameter file rebuilt by recomputeTree","src/client/ParameterFile/ParameterFile.cpp")],["output of two runs, or of one run after another in the same process"])
prop("C15","A failed read or write is reported, never passed over",
"When the command-line program cannot carry out an operation on a file or on text (a NetCDF operation that returns an error, a number that cannot be read from a text file or an option, an output that could not be written or closed in full), it stops with an error or uses the documented default for something optional. It never goes on with values that the failed operation should have delivered, and never ends as if an output had been written that was not.",
["inputs","crash_points"],"all operations on files and texts, and every way in which any one of them can fail",
"The tests read and write sound files on a disk that is not full; each of some 150 operations can fail on its own, and an unnoticed failure leaves the program running with arbitrary or stale values.",
["src/client/File/Netcdf.cpp","src/client/ParameterFile/Netcdf.cpp","src/client/NetcdfUtil.cpp","src/client/File/Text.cpp","src/client/File/Point.cpp","src/client/File/NorcomQnh.cpp","src/client/ParameterFile/Text.cpp","src/client/Options.h","src/client/Util.cpp"],
[("each status is given to handleNetcdfError or compared with NC_NOERR before the next operation","src/client/File/Netcdf.cpp, src/client/ParameterFile/Netcdf.cpp"),("each extraction from a stream is tested before its value is used","src/client/File/Text.cpp, src/client/ParameterFile/Text.cpp, src/client/Options.h"),("output streams are tested after they are closed","src/client/File/*.cpp, src/client/ParameterFile/Text.cpp")],["exit status and error message of the program when an operation fails"])
prop("C16","Every value is read, written and compared at its own place",
"In the command-line program, a value for a row and column of a grid is always combined with the coordinates, altitude, land fraction and field value of that row and column of that grid: rows and columns, members and times are never exchanged, the extent of one axis or grid never bounds another, a position found in the input grid is not used in the output grid or the other way around, and latitudes, longitudes, altitudes and land fractions are never taken for one another.",
["inputs","programs"],"all grids (of any shape, in particular not square, and input and output grids that differ), members and times, and all places that index a field or pass a position or coordinate on",
"The test files are few, small and often square, identical on both sides or constant; an exchange shows only where rows and columns, or the two grids, differ, and there are thousands of indexed accesses.",
["src/client/Downscaler","src/client/Calibrator","src/client/File","src/client/Field.cpp","src/client/KDTree.cpp","src/client/Grid.cpp","src/client/ParameterFile","src/client/Util.cpp","src/client/Driver"],
[("fields are indexed by row, column and member","src/client/Field.h"),("look-up of the nearest points of the input grid for each point of the output grid","src/client/Downscaler/Downscaler.cpp, src/client/KDTree.cpp"),("places of parameters and points as latitude, longitude and altitude","src/client/Location.h, src/client/ParameterFile")],["values at each place of the output file"])
prop("C17","Missing values never take part in a calculation",
"In the command-line program, a missing value (of a field, of the altitude or land fraction of a grid point or station, or returned by a calculation that had no valid input) is never added, multiplied, passed to a mathematical function or ordered among valid values as if it were a number: calibrators and downscalers leave it out, keep it or give a missing result.",
["inputs"],"all fields, grids and stations with any pattern of missing values, altitudes and land fractions",
"Missing values are stored as an ordinary number, so nothing fails when one is used; the result is just wrong by about a thousand, and only where a value, altitude or land fraction is missing, which the tests cover in few of some hundred places.",
["src/client/Calibrator/*.cpp","src/client/Downscaler/*.cpp","src/client/Util.cpp","src/client/Field.cpp","src/client/ParameterFile"],
[("the missing value and its test","src/client/Util.h"),("altitudes and land fractions of grids and stations","src/client/File/File.h, src/client/Location.h"),("tests before values are used","src/client/Calibrator/*.cpp, src/client/Downscaler/*.cpp")],["values of the output file where inputs are missing"])
prop("C18","Every selectable method is its own calculation, or refused",
"Wherever the library lets the caller choose a statistic, a verification metric, a comparison operator, an extrapolation policy, a kind of gradient, a downscaling method or a type of correction, each choice is either carried out as what its name says or refused with an exception. No choice silently falls back on another one, is replaced by a fixed one on its way to the calculation, or gives the result of a differently named one, a value that names no choice is refused, and a name selects the choice it names.",
["inputs","configurations"],"all choices of all functions of the library that take one, for all data, including values that name no choice",
"There are more than two hundred combinations of function and choice; the tests run few of them, mostly the mean, and with data for which neighbouring choices (less than and less than or equal, two slopes, two scores) give the same result.",
["src/api/util.cpp","src/api/neighbourhood.cpp","src/api/window.cpp","src/api/gridding.cpp","src/api/curve.cpp","src/api/quantile_mapping.cpp","src/api/metric_optimizer.cpp","src/api/downscaling.cpp","src/api/downscale_probability.cpp","src/api/mask_threshold_downscale_consensus.cpp","src/api/calc_gradient.cpp","src/api/simple_gradient.cpp"],
[("the choices","include/gridpp.h"),("dispatch on the statistic","src/api/util.cpp, src/api/neighbourhood.cpp, src/api/window.cpp"),("dispatch on the metric, the policy and the comparison","src/api/metric_optimizer.cpp, src/api/curve.cpp, src/api/downscale_probability.cpp")],["results per choice; exceptions for unsupported choices"])
prop("C19","Every calculation and every run comes to an end",
"Every function of the library and every run of the command-line client ends, with a result or an error, whatever the data, the arguments and the files: no loop can go round without changing what decides whether it goes on, runs away from its limit, waits for an end that moves along or that never comes, or needs steps without bound to bring a number into a range, and no function calls itself without end.",
["inputs","configurations"],"all loops and all calls of the library and the client, for all data, command lines and files",
"A loop that hangs does so for one command line, one arrangement of points or one malformed file; a test suite that samples others passes, and one that samples it does not fail but stops.",
["src/api","src/client/Setup.cpp","src/client/KDTree.cpp","src/client/Util.cpp","src/client/Options.cpp","src/client/ParameterFile/Text.cpp","src/client/File/Text.cpp","src/client/File/Point.cpp"],
[("search for the surrounding box","src/api/grid.cpp Grid::get_box"),("states of the command line","src/client/Setup.cpp Setup::Setup"),("splitting of strings","src/client/Util.cpp Util::split"),("building of the tree","src/client/KDTree.cpp KDTree::subTree"),("reading of text files","src/client/ParameterFile/Text.cpp, src/client/File/Text.cpp, src/client/File/Point.cpp")],["the call returns; the client exits"])
P.sort(key=lambda p: p["id"])
