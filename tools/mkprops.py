"""Writes properties.jsonl (kept so that the text is maintained in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

prop('C01', 'Base maps and specs form a group / semigroup acting on space and time',
 'Base maps of every dimension form the full group of cube isometries with optional time reversal: products, inverses, integer powers (also zero and negative), conjugation and time reversal compose exactly as maps do, and their actions on points, vectors, times, sub-cubes, cube corners and cube numbers are group actions. Specs compose as a semigroup whose pattern choice is the left operand\'s. Results never depend on which products were computed before, and the enumeration of all base maps yields each map exactly once.',
 ['inputs', 'histories'], 'every dimension (1..6 and beyond the letter alphabet), every pair/word of maps, every power, every order in which cached products/inverses are asked for',
 'The tests check a few 2- and 3-dimensional products, inverses and conjugations of a fixed list; the group laws quantify over all pairs and the caches over all call histories.',
 ['peano/base_maps.py'],
 [('product with per-object cache', 'BaseMap.__mul__'), ('inverse with cache', 'BaseMap.get_inverse'), ('powers', 'BaseMap.__pow__'), ('object interning', 'BaseMap.__new__, Spec.__new__'), ('actions', 'BaseMap.apply_*'), ('spec composition', 'Spec.__mul__/__rmul__'), ('enumeration', 'BaseMap.gen_base_maps')],
 ['return values of the BaseMap / Spec operators'])

prop('C02', 'Constrained isometries and standard forms are exact',
 'Asking for the isometries that send one point to another yields exactly those isometries, each once; the isometries bringing a point, facet subset or link to (or into intersection with) another are exactly the ones that do. The standard form of a point or of a link is the least element of its orbit under all admissible base maps, so two objects have the same standard form if and only if they are images of each other.',
 ['inputs'], 'all rational points/links/facet subsets in dimensions 1..5, including repeated, complementary and one-half coordinates',
 'One test compares the fast enumeration with brute force on three point pairs; ties (coordinates equal to their complements, repeated coordinates) are a combinatorial input space.',
 ['peano/base_maps.py', 'peano/subsets.py'],
 [('group-by-value enumeration', 'BaseMap.gen_constraint_fast'), ('fast standard form', 'Point.std, Point.argstd, Link.std'), ('argmul_intersect', 'Subset/FacetDivSubset/Link.argmul_intersect')],
 ['yielded base maps', 'std() results'])

prop('C03', 'Text notation means what is documented and survives a round trip',
 'Parsing a base map, spec, chain code, pattern, curve, point or gate text gives the object the notation documents (images of basis vectors, capital letters for negation, "~" for time reversal, parenthesised multi-coordinate steps, rational coordinates). Printing any such object and parsing the text again gives back an equal object, also for high dimensions, pattern numbers of several digits, chains that do not start at the zero cube and texts with blanks.',
 ['inputs'], 'all base maps/specs of dimensions 1..6, all pattern numbers, all full cube prototypes whose steps are at most diagonal, all rational points',
 'Tests parse a handful of literals; nothing prints and re-parses, and the printed form is what users copy out of a search.',
 ['peano/base_maps.py', 'peano/paths.py', 'peano/subsets.py', 'peano/curves.py'],
 [('parsers', 'BaseMap.parse, Spec.parse, Proto.parse, Pattern.parse, Curve.parse, Point.parse, Link.parse_gates'), ('printers', '__str__ methods')],
 ['parse(...) and str(...)'])

prop('C04', 'Base maps and specs act on curves exactly as on the maps they denote',
 'Applying a base map (possibly with time reversal) or a spec to a curve, prototype, link, path or partially specified curve gives the object of the transformed map t -> x(t): at every depth its cubes are the images of the original cubes in the original or reversed order, its fractions, gates and links are the images of the originals, and the selected pattern is the one the spec names. Acting is compatible with composition, reversing twice is the identity, and two curves compare equal (and hash equal) exactly when their patterns and selected pattern coincide.',
 ['inputs'], 'all base maps/specs times all (also discontinuous, multi-pattern, partially specified) curves, depth 1 and deeper',
 'Tests apply maps to zoo curves and compare curves with an equality whose verdict was never itself tested; they sample few maps and never compare deep fractions.',
 ['peano/curves.py', 'peano/paths.py', 'peano/subsets.py'],
 [('spec conjugation', 'FuzzyCurve._apply_cube_map'), ('time reversal', 'FuzzyCurve.__invert__, Pattern.__invert__, Proto.__invert__'), ('spec application', 'FuzzyCurve.__rmul__'), ('equality', 'Curve.__eq__/__hash__')],
 ['patterns of b * C', 'b * Proto / Link / Path'])

prop('C05', 'Subdivisions and deep fractions follow the recursive definition',
 'The k-th subdivision of a curve lists, in order, exactly the depth-(k+1) cubes of every pattern together with their orientations, and keeps the selected pattern; subdividing in steps or at once agrees. The orientation reported for any nested sequence of fraction numbers is the one obtained by composing the specs along that sequence.',
 ['inputs'], 'all curves (any number of patterns, time reversals, dimensions) and all depths / all sequences of cube numbers',
 'Tests only check that subdivided zoo curves are continuous and compared curves with a vacuous equality; orientations inside subdivisions are not looked at.',
 ['peano/curves.py'],
 [('subdivision', 'Curve.get_subdivision'), ('deep spec composition', 'FuzzyCurve.get_deep_spec, _compose_specs')],
 ['patterns of get_subdivision(k)', 'get_deep_spec'])

prop('C06', 'Entrance and exit are the exact limit points of the curve',
 'For every pattern of every curve (fully or just sufficiently specified) the reported entrance f(0) and exit f(1) are the exact rational points common to all nested first (last) cubes, whatever the length of the pre-period and period of orientations. Path links built from a curve connect exactly these points in every fraction.',
 ['inputs'], 'all curves: any dimension/div/multiplicity, any specs including time reversals and pattern switches in the first/last fractions; also curves with undefined inner cubes/specs',
 'Zoo gates are compared for a few curves whose orientation sequences have short periods and mostly no pattern switch.',
 ['peano/curves.py', 'peano/utils.py'],
 [('cycle detection on specs', 'FuzzyCurve._get_cube_limit'), ('geometric series', 'utils.get_periodic_sum'), ('links', 'Curve.get_paths')],
 ['get_entrance/get_exit/get_paths'])

prop('C07', 'Face and vertex moments are the exact first and last touch times',
 'For every face of the cube (vertices to facets), the reported moment is exactly the first (or last, when asked) time the selected pattern touches that face, and the reported point lies on the face and is the curve\'s value at that moment. Vertex moments cover all vertices.',
 ['inputs'], 'all curves, patterns, faces of every dimension, first/last',
 'Tests compare moments of a few zoo curves for faces of few dimensions; last moments and touch points are not checked.',
 ['peano/curves.py'],
 [('first touching cube recursion', 'FuzzyCurve.get_face_moment, _get_face_cnum'), ('vertices', 'get_vertex_moments')],
 ['get_face_moment, get_vertex_moments'])

prop('C08', 'The continuity verdict is exact',
 'A curve is accepted as continuous if and only if in every pattern the exit of each fraction coincides with the entrance of the next one, and a path is reported continuous if and only if each fraction\'s exit point coincides with the next fraction\'s entrance point.',
 ['inputs'], 'all curves (any pattern may be the broken one) and all pointed paths',
 'Tests only run the check on continuous curves; a check that never rejects, or that ignores one pattern or one seam, would pass.',
 ['peano/curves.py', 'peano/paths.py'],
 [('gate comparison', 'Curve.check, Path.is_continuous'), ('set intersection', 'Point.intersects, FacetDivSubset.intersects')],
 ['check() raising or not', 'is_continuous()'])

prop('C09', 'Regular junctions and their depths are exact',
 'The listed junctions of a curve are exactly the pairs of consecutive fractions of its subdivisions in the documented standard form: patterns ordered, a pair of the same pattern with both fractions time-reversed read backwards, first cube map identity, unit time shift. Each standard form is listed once, with depth equal to the first subdivision level at which it arises by descending from the pairs of the first level, and the depth of the curve is the largest of these. Up to reversal of time, every pair that occurs in any subdivision is listed.',
 ['inputs'], 'all continuous curves of any multiplicity, with time reversals',
 'Tests compare counts and depths for some zoo curves; the derivation order error in this tree passed them.',
 ['peano/curves.py'],
 [('breadth-first derivation', 'FuzzyCurve._gen_junctions_from_base, _get_derived_junction'), ('standard form', 'RegularJunction.__init__'), ('depth', 'Curve.get_depth')],
 ['gen_regular_junctions, gen_auto_junctions, get_depth'])

prop('C10', 'Junction templates characterise the junctions of every curve of a class',
 'For a partially specified curve class, a fully specified member has a given junction if and only if it agrees with at least one of the template curves listed for that junction, and every junction of every member is listed.',
 ['inputs', 'configurations'], 'all path classes (multi-pattern, with and without time reversal, restricted map groups) and all their members',
 'One test samples members of two classes; equivalence quantifies over all members, and the SAT search is sound only if both directions hold.',
 ['peano/curves.py'],
 [('template enumeration', 'FuzzyCurve.get_junction_templates')],
 ['get_junction_templates'])

prop('C11', 'A path class contains exactly the admissible curves, through any history',
 'The class built from pointed paths consists of exactly the curves over those prototypes whose every fraction is an admissible image of a pattern with the required entrance and exit; the allowed specs per position, the number and the list of members and the example all agree with this. Specifying positions, in any order, and applying base maps or time reversal at any moment keeps the class exactly the corresponding subset or image, rejects exactly the inadmissible choices and never changes the original object.',
 ['inputs', 'histories'], 'all path tuples, subgroups of base maps, disabled time reversal; all histories of specify / transform / forget operations',
 'Tests count members for a few classes and never specify after transforming, although estimators do exactly such histories.',
 ['peano/curves.py'],
 [('standard links and symmetries', 'PathFuzzyCurve.init_from_paths, gen_allowed_specs'), ('transform bookkeeping', 'PathFuzzyCurve.__invert__, _apply_cube_map'), ('specification', 'FuzzyCurve.specify, gen_possible_curves, get_curve_example, count_possible_curves'), ('forgetting', 'Curve.forget')],
 ['gen_allowed_specs, gen_possible_curves, specify'])

prop('C12', 'The path generator yields exactly the continuous paths with given links',
 'For given gates the generator yields exactly all pointed (or facet-linked) paths that visit every cube once, use an allowed link image in every fraction, join continuously, respect the cube-distance limit and realise the requested global links or parent path, without duplicates; search budgets only affect speed. Standardised generation yields exactly one path per symmetry class (per unordered combination for repeated links), and the example is absent if and only if there is no path.',
 ['inputs', 'configurations'], 'dimensions, divs, link tuples (point and facet), max_cdist, parents, std flag, all start/finish budgets',
 'Tests compare counts for a dozen configurations with default budgets; missing or extra paths with other budgets, links or parents are not seen, and a missing path silently invalidates a "minimal curve" claim.',
 ['peano/paths.py', 'peano/_cube_path_trees.py'],
 [('next-link tables', 'PathsGenerator._init_entr2links, _init_exit2next'), ('restrictions', 'generate_paths, generate_paths_generic'), ('standardisation', 'generate_paths_generic(std=True), combinations_product')],
 ['generate_paths, generate_paths_generic, get_paths_example'])

prop('C13', 'Cube path growth is complete and independent of its search budgets',
 'For arbitrary step rules with states, growing paths between given start and finish nodes yields exactly the Hamiltonian cube paths that obey the rules, each combination of start path, middle and finish exactly once, for every choice of breadth budgets on either side and with or without the backward rule.',
 ['inputs', 'configurations'], 'all grids, rule sets (also asymmetric or state dependent), start/finish sets and budgets',
 'Tests count king tours and one small grid with default budgets.',
 ['peano/_cube_path_trees.py'],
 [('meet in the middle', 'CubePathTree.grow'), ('budgeted breadth search', '_width_search'), ('grouping by future', '_group_paths_by_future, _check_glue')],
 ['grow()'])

prop('C14', 'The gate generator lists exactly the realisable boundary gates',
 'For a configuration (dimension, div, multiplicity) the gate generator lists, once each and in standard form, exactly the tuples of boundary gates that occur as entrance/exit of a curve pattern tuple and admit a path for every component; the facet-only mode lists exactly those whose gates lie strictly inside facets. Repeating the generation gives the same set.',
 ['configurations'], 'dimension/div/multiplicity configurations, facet-only or not, repeated calls on one generator',
 'Tests compare counts for a few configurations.',
 ['peano/gates.py'],
 [('boundary specs enumeration', 'GatesGenerator._gen_all_gates, _gen_facet_gates'), ('filter and standardise', '_check_and_std'), ('narrowing', '_gen_narrow_links')],
 ['gen_gates()'])

prop('C15', 'Subset geometry: points and facet subsets behave as the sets they denote',
 'For rational points and nested facet subsets, mapping into a cube, dividing into sub-cubes, listing neighbour cubes with the portions shared, applying isometries, affine transforms, face dimension, ordering and intersection all give exactly the results that the denoted sets of points have, with nothing missing or repeated.',
 ['inputs'], 'points with coordinates on or off the grid in dimensions 1..5, facet subsets of any nesting depth and div',
 'Tests check a few 2- and 3-dimensional divisions and neighbours.',
 ['peano/subsets.py'],
 [('points', 'Point.map_to_cube/divide/gen_neighbours/transform/face_dim'), ('facet subsets', 'FacetDivSubset.*'), ('links', 'Link.__rmul__/__invert__/intersects/transform')],
 ['methods of Point, FacetDivSubset, Link'])

prop('C16', 'Dilation estimates of a regular curve bracket its true dilation',
 'For every continuous curve, the estimate returns lo <= sup ||x(s)-x(t)||^d/|s-t| <= up (supremum over all patterns of the multifractal), for every supported ratio function, tolerance, iteration or depth limit and with or without face moments. When a tolerance is asked and no limit is hit, up <= lo*(1+1/tol); when a witness pair is returned, both points lie on the curve at the stated times and attain lo exactly.',
 ['inputs', 'configurations'], 'continuous curves of any dimension/multiplicity, ratio functions, tolerances, limits, face dimensions',
 'Tests compare zoo curves with values known from papers within coarse bounds; a bound that is wrong by a little, for other curves, options or ratio functions, is not seen.',
 ['peano/dilation.py', 'peano/_bounded_items_heap.py'],
 [('pair bounds', 'Estimator._get_pos_bounds'), ('initial pairs from junctions', 'Estimator._create_tree'), ('balanced division', '_CurvePiecePair.divide_balanced'), ('branch and bound', 'Estimator.estimate_dilation_regular')],
 ['estimate_dilation_regular result'])

prop('C17', 'The threshold test on a curve class is sound in both directions',
 'Given bad < good thresholds, the threshold test either returns a member of the class whose dilation is at most the good threshold, or returns nothing and then every member has dilation at least the bad threshold; cached initial pairs and clauses do not change this.',
 ['inputs', 'configurations'], 'path classes, threshold pairs (loose and tight), sat call schedules, cached or fresh initial state',
 'Tests run the whole bisection on two classes; neither direction of the test is checked against the members of the class.',
 ['peano/dilation.py', 'peano/_sat_adapters.py'],
 [('forbidding bad pairs', 'Estimator._forbid, bisect_dilation_fuzzy'), ('piece division with specification', '_CurvePiece.divide')],
 ['bisect_dilation_fuzzy result'])

prop('C18', 'The minimal dilation of a curve class is bracketed, with a member as witness',
 'The estimate for a class returns lo <= min over members of the dilation <= up, together with a member of the class whose dilation lies in [lo, up], and meets the requested tolerance unless a stop bound or iteration limit ended the search; supplied start bounds only tighten the result.',
 ['inputs', 'configurations'], 'path classes, tolerances, start/stop bounds, iteration limits',
 'Tests check the bounds of two classes against published numbers.',
 ['peano/dilation.py'],
 [('bisection', 'Estimator.estimate_dilation_fuzzy')],
 ['estimate_dilation_fuzzy result'])

prop('C19', 'The best of a sequence of classes is found and no winner is lost',
 'For a sequence of classes the result brackets the minimum dilation over all of them within the tolerance, every class that could attain the minimum is among the returned indices (each with a member curve of that class), and with a (valid) a-priori upper bound nothing is returned only if every class is worse than the bound. The order of the input, lists versus iterators and the epoch multiplier do not change this.',
 ['inputs', 'configurations'], 'sequences of classes with ties, duplicates, losers; upper bounds; tolerances; multipliers',
 'No test calls the sequence estimate at all.',
 ['peano/dilation.py'],
 [('epochs with pruning', 'Estimator.estimate_dilation_sequence')],
 ['estimate_dilation_sequence result'])

prop('C20', 'The SAT encoding admits exactly the members avoiding forbidden configurations',
 'After any history of forbidding (junction, partial curve) pairs and of copying the encoding, the encoding is satisfiable if and only if some member of the class avoids all forbidden configurations, and the curve read off a model is such a member; copies evolve independently.',
 ['histories', 'inputs'], 'classes, histories of forbid/copy/solve',
 'Tests forbid all members of a few classes one by one; arbitrary histories with junction-dependent clauses and copies are not tried.',
 ['peano/_sat_adapters.py'],
 [('exactly-one clauses', 'CurveSATAdapter._make_only'), ('junction/curve variables', '_make_junc_var, _make_curve_var'), ('forbid clause', 'add_forbid_clause'), ('model', 'get_model_curve')],
 ['solve(), get_model_curve()'])

prop('C21', 'The bounded-items heap loses nothing but what its thresholds allow',
 'Through any sequence of pushes, pops, threshold raises, bad-item collections and filtered copies, an item is dropped only when its upper bound is within the good threshold, is handed out exactly once as bad exactly when it is not good and reaches the bad threshold, and otherwise stays active and is popped in order of largest upper bound; the greatest lower bound seen is remembered.',
 ['histories'], 'all operation sequences over items with equal, crossing or threshold-touching bounds',
 'There is no test of this container; the estimators exercise a few of its paths only.',
 ['peano/_bounded_items_heap.py'],
 [('classification', 'BoundedItemsHeap.push'), ('threshold raise', 'update_good_threshold'), ('copy', 'copy_and_cleanup')],
 ['top/pop/items/pop_bad_items/max_lo_item'])

prop('C22', 'Estimates do not depend on history and leave their inputs unchanged',
 'Every query (estimates, curve operations, generators) returns the same result whatever was computed before with the same estimator or objects, whatever the cache size, and never changes the curves, paths, links or lists given to it.',
 ['histories', 'configurations'], 'all interleavings of queries on shared estimators/curves, cache sizes including tiny ones',
 'Tests use each object once with default cache size.',
 ['peano/dilation.py', 'peano/utils.py', 'peano/base_maps.py', 'peano/curves.py'],
 [('bound cache keys', 'Estimator._get_pos_bounds lru_cache'), ('object caches', 'BaseMap._obj_cache/_mul_cache, Spec._obj_cache'), ('int coordinate caches', 'utils.get_int_*_with_cache'), ('immutability', 'FuzzyCurve._changed')],
 ['results of repeated queries'])

prop('C23', 'The search command reports the true optimum of its configuration',
 'A search over a configuration (all gates, a gate list or file, facet-gated, distance-limited, grouped by gates, with or without an upper bound) reports bounds that bracket, within the tolerance, the minimum dilation over all curves of that configuration (when an upper bound is given: one that some curve satisfies) and prints curves of that configuration whose dilation agrees with them within the tolerance, prints the gate configurations when asked, and reports NOT FOUND only when no curve of the configuration satisfies the upper bound.',
 ['configurations', 'inputs'], 'command lines / search parameters',
 'No test runs the search script; its glue (options, grouping, gate files, bounds) is untested.',
 ['search.py', 'peano/gates.py', 'peano/paths.py', 'peano/dilation.py'],
 [('search loop', 'run_search'), ('command line', '__main__ of search.py')],
 ['stdout of search.py'])

prop('C24', 'Arithmetic helpers and ratio functions are exact and monotone',
 'Ratio functions return exactly ||v||^d/t (squared for the squared l2) for all vectors and times, periodic sums equal the infinite series, integer positions of nested cubes/times, least common multiples, face enumeration and the product of combinations return exactly the documented values for all inputs, also when called repeatedly.',
 ['inputs', 'histories'], 'all dimensions, signs, zero coordinates, empty periods/starts, long sequences, repeated ids',
 'Tests check two sums and a few ratio values.',
 ['peano/utils.py'],
 [('ratios', 'utils.ratio_*'), ('series', 'utils.get_periodic_sum'), ('positions', 'utils.get_int_cube_with_cache, get_int_time_with_cache'), ('combinatorics', 'utils.gen_faces, combinations_product, get_lcm')],
 ['return values'])

prop('C25', 'Named curves are the published ones and their recorded facts are true',
 'Every named curve of the catalogue is a valid continuous curve of the documented dimension, division and number of patterns, visits the cells in the published order (Hilbert, Peano and its five-division analogue up to isometry; Meurthe is Shchepin-Bauman up to isometry and reversal), has the documented kind of gates (facet-gated, side, diagonal) and the published dilation in every metric; the recorded dilations or brackets, gates, face moments, depth and number of junctions are those of the curve; every call gives the same curve and all named curves are in the list of all curves.',
 ['inputs', 'configurations'], 'all named curves, all metrics, all faces, nested levels of subdivision',
 'Tests compare the recorded numbers with what the same library computes; curves or metrics without a recorded number (five-division Peano, l1 of Bauman, linf of Spring) and an error shared by the table and the library are invisible to them.',
 ['peano/zoo.py'],
 [('catalogue', 'zoo.get_*_curve, get_all_curves'), ('recorded facts', 'CurveInfo')],
 ['CurveInfo of each named curve'])

prop('C26', 'Plots show the curve they are given',
 'A plot of a two- or three-dimensional curve has one picture per pattern; in each the prototype line passes through the centres of the cubes in the order of the curve, and inside every cube the fine line passes through the centres of the cubes of the requested subdivision in the order in which the curve visits them, whatever the isometry and time direction of the fraction; fractions have the same colour if and only if they carry the same pattern, and in curves of several patterns every cube is labelled by its pattern and by its time direction. This holds with and without grid and separate pictures, and the picture is saved when asked.',
 ['inputs', 'configurations'], 'all curves of dimension 2 and 3 with up to four patterns, all subdivision levels',
 'There are no tests of plots at all; a wrong order or orientation in a few fractions is not noticed by looking at a picture.',
 ['plots.py'],
 [('plot', 'plots.plot_curve')],
 ['lines, colours and labels of the axes drawn'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
