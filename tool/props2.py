def _n(i,title,statement,why,files,mech,reason,over=("inputs",),text="all inputs"):
    P.append({"id":i,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":text},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}})
    NA.append({"property":i,"reason":reason})
NA=[]
_n("N01","The analysis of optimal interpolation is the optimal linear combination",
 "At every location the analysis equals the background plus the best linear unbiased combination of the innovations of the observations inside the localization radius, given the structure function and the error variances; the analysis variance is never larger than the background variance.",
 "A test compares a handful of configurations with hand-computed values; optimality is claimed for every network of observations and every structure function.",
 ["src/api/oi.cpp","src/api/oi_ensi.cpp"],[("optimal_interpolation_full","src/api/oi.cpp")],
 "An identity between floating-point results of a matrix inversion and a minimisation problem; it quantifies over computed values that no static analysis of the source bounds. Needs proof over the reals or execution.")
_n("N02","Fast neighbourhood calculations equal the exact ones",
 "For every field, half-width and statistic, the neighbourhood calculation by running sums equals, up to rounding, the calculation over all values of the neighbourhood, and the quantile approximation lies between the thresholds around the exact quantile.",
 "Tests use small fields of simple values; cancellation and rounding depend on the magnitudes and the missing values of the field.",
 ["src/api/neighbourhood.cpp"],[("neighbourhood, neighbourhood_brute_force","src/api/neighbourhood.cpp")],
 "Equivalence of two algorithms over floating-point values; the running totals are data the analyses here do not track (C04, C08 and C12 decide which elements they are made of).")
_n("N03","The neighbours found are the nearest ones",
 "A nearest-neighbour search returns the location with the smallest distance, a radius search exactly the locations within the radius, and k nearest neighbours are the k with the smallest distances, in both coordinate systems.",
 "Distances depend on every pair of coordinates; poles, the date line and ties are sampled at best.",
 ["src/api/kdtree.cpp","src/api/points.cpp","src/api/grid.cpp"],[("KDTree","src/api/kdtree.cpp")],
 "Decided by the external R-tree library and by floating-point distances between run-time coordinates; no static argument in reach. (Coordinate types, roles and extents of the search are decided by C06, C11 and C04.)")
_n("N04","Transforms are monotone and undo themselves",
 "For every transform and every value in its domain, the backward transform of the forward transform is the value again up to rounding, and the order of two values is kept.",
 "The round trip holds or fails per value; the domain is every float.",
 ["src/api/transform.cpp"],[("Transform","src/api/transform.cpp")],
 "An identity between compositions of transcendental functions over floats; needs a solver or execution. (C10 decides that both directions use the same parameters.)")
_n("N05","Correction curves stay monotone and interpolate",
 "A curve produced by the monotonizing or optimizing functions never decreases, and applying a curve to a value between two of its points gives a result between the corresponding results, continuously at its ends for every extrapolation policy.",
 "Depends on the order of every pair of values in the curve.",
 ["src/api/curve.cpp","src/api/metric_optimizer.cpp"],[("apply_curve, monotonize_curve","src/api/curve.cpp")],
 "An order relation between computed values; the analyses track extents, origins and validity of values, not their order.")
_n("N06","Without extrapolation the analysis stays within the increments",
 "When extrapolation is disallowed, no analysis increment is larger than the largest positive or smaller than the most negative innovation of the observations used at that location.",
 "Holds for every network and value or not at all; tests use a few observations.",
 ["src/api/oi.cpp","src/api/oi_ensi.cpp"],[("allow_extrapolation","src/api/oi.cpp")],
 "A bound on computed floating-point values that depends on data (minimum and maximum over the selected observations). C10 decides that the option takes effect.")
_n("N07","Probabilities and diagnosed quantities stay within physical ranges",
 "Probabilities lie between 0 and 1, relative humidity between 0 and 1, the dew point is at most the temperature, wind speed is non-negative and wind direction lies between 0 and 360 degrees, and estimated distribution parameters are positive.",
 "Range of nonlinear functions over all floats.",
 ["src/api/humidity.cpp","src/api/wind.cpp","src/api/downscale_probability.cpp","src/api/distribution.cpp"],[("dewpoint, relative_humidity, wind_direction","src/api")],
 "Ranges of compositions of exponentials and divisions over floats; interval analysis of the formulas does not reach the bounds without relational facts between the arguments.")
_n("N08","Structure functions are correlations",
 "Every structure function gives 1 for two identical locations, a value between 0 and 1 for any two locations, 0 beyond its localization distance, is symmetric and does not increase with distance, and products and crossed combinations keep these properties.",
 "A statement over every pair of locations and every scale.",
 ["src/api/structure.cpp"],[("StructureFunction::corr","src/api/structure.cpp")],
 "Monotonicity and range of transcendental functions of computed distances; proof or execution is needed. (C10 and C11 decide that the scales, elevations and land area fractions take part and are not exchanged.)")
