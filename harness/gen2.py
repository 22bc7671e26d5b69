prop('C19', 'Rays hit spheres and tori at their first point, or are reported to miss',
     'The distance at which a ray hits a sphere or a torus (a ring in the XY plane, given by its center, major and minor radius) is that of the first point of the ray on the surface, and NaN if and only if the ray misses it. '
     'A ray that starts inside of a sphere or of the ring hits it where it leaves.',
     ['inputs'], 'every position, radius (major and minor, thin and thick rings) and ray: aimed at the surface, through the hole, from within, pointing away, and missing',
     'The tests shoot a handful of axis-aligned rays; the quartic behind the torus has many branches, which only oblique rays reach.',
     ['intersection.h', 'scalar.h'], [('intersect_ray_sphere', 'intersection.h'), ('intersect_ray_torus', 'intersection.h')],
     'The reference finds all complex roots of the implicit equation along the ray in long double, by simultaneous iteration; non-trivial: the case is decided (not skipped as tangent or unseparated).',
     assumptions=['grazing rays and polynomials with roots that are not separated, for which rounding or the epsilon of the solver decides, are not decided'])

prop('C20', 'A polygon contains exactly the points inside of it and on its border',
     'A point in the plane of a simple polygon, convex or not, is contained if and only if it is inside of the polygon or on an edge or vertex. '
     'The answer does not depend on the vertex the list starts with, on the orientation, on the position of the polygon, or on whether its normal is given; a mapping function is applied to every vertex.',
     ['inputs'], 'every simple polygon of up to 20 vertices (rectangles, combs, stars, convex and random ones) with integer coordinates, in planes of every orientation; points inside, outside, level with vertices and on the border',
     'Tests use a square or two; rays through vertices and along edges, which decide the parity, need concave polygons and points level with the vertices.',
     ['intersection.h'], [('polygon_contains_point', 'intersection.h'), ('handle_polygon_edge_intersection', 'intersection.h')],
     'The reference computes winding numbers with integer orientation tests; non-trivial: the point is level with a vertex, or on the border, or the polygon is concave.',
     assumptions=['in oblique planes points closer to the border than the rounding error are not decided'])

prop('C21', 'The convex hull has exactly the extreme points, in order',
     'The convex hull of coplanar points consists of exactly those points that are corners of the smallest convex polygon containing all of them, each once, in cyclic order, and every given point is on it or inside. '
     'The result does not depend on the order of the points, nor on duplicates; the hull of points that are all on one line, or fewer than three points, is empty.',
     ['inputs'], 'every multiset of 0 to 30 coplanar points in axis-aligned and oblique planes, with duplicates and colinear points',
     'Tests compute the hull of few literal point sets; duplicates, colinear runs and permutations are where scans fail.',
     ['convex_hull.h'], [('convex_hull', 'convex_hull.h'), ('is_left', 'convex_hull.h')],
     'The reference decides extremality of each point exactly with integers; non-trivial: there are duplicates or points that are not extreme.')

prop('C22', 'Text forms: vectors, matrices and geometry print and parse back',
     'A vector or matrix (row by row) parses from text if and only if the text begins with enough numbers, each component being the number at its position; any white space or parentheses may separate numbers, and commas or semicolons the vectors of a list, which are returned in order. '
     'What is printed to a stream contains the components in order, and parses back to the same value at sufficient precision. '
     'No text makes a parser fail otherwise or read out of bounds.',
     ['inputs'], 'every text, well-formed (any white space and separators, numbers in all notations) or arbitrary bytes; every vector, matrix, box, line, plane and ray',
     'Tests parse a few literals; truncated and malformed texts, and separators in every position, are a matter of generated grammars.',
     ['vec_io.h', 'mat_io.h', 'bbox_io.h', 'line_io.h', 'plane_io.h', 'ray_io.h'], [('parse, can_parse, parse_all', 'vec_io.h'), ('parse', 'mat_io.h'), ('operator<<', 'vec_io.h')],
     'Texts come from a grammar and are then damaged, or are arbitrary; non-trivial: more than one component, and a separator or damage present.', sanitized=0.2)

prop('C23', 'Approximate comparison: within epsilon is equal, and order agrees with it',
     'A value compares equal to an approximate scalar, vector or matrix if and only if every component differs by at most epsilon, on either side of the operator; != is the opposite. '
     'Of <, == and > exactly one holds, and <= and >= are the unions; vectors are ordered by the first component that is not approximately equal. '
     'Lines are approximately equal if point and direction are, and lists of scalars if they have the same size and approximately equal elements.',
     ['inputs'], 'every scalar, vector, matrix, line and list, values closer to and further than epsilon, every epsilon',
     'Tests use one value inside and one outside; the laws relate all six operators on both sides for every component.',
     ['approx.h'], [('approx operators', 'approx.h')],
     'Differences are multiples of an epsilon that is a power of 2, hence exact; non-trivial: the difference is neither 0 nor far beyond epsilon.')

prop('C24', 'Quadratic Bezier surfaces are evaluated as by their definition',
     'The point of a quadratic Bezier surface at parameters u and v is that of repeated linear interpolation of its nine control points, along the rows by u and across the rows by v, exactly where this is representable. '
     'The corners are control points, and a surface point lies within the bounds of the control points and moves with them.',
     ['inputs'], 'every grid of 3 by 3 control points of 1 to 5 components and every u and v in [0, 1]',
     'Tests evaluate few points of symmetric grids, where exchanged parameters or weights do not show.',
     ['bezier_surface.h'], [('evaluate_quadratic_bezier_surface', 'bezier_surface.h')],
     'Non-trivial: u and v differ and are not 0.')

prop('C25', 'Evaluation at compile time and at run time agree',
     'The compile time versions of functions (square root, length, unit vector, distance, parallelism, being between, transformation of lines, rays and planes) give the results of the run time versions up to rounding, and the same answers. '
     'Functions usable in constant expressions give the same results in constant expressions as at run time, without undefined operations.',
     ['inputs'], 'every input of the two versions; for constant expressions, tables of 128 (thorough: 1000) pseudo random inputs per group of functions, which depend on the seed',
     'Tests call either version with a few literals and never compare the two.',
     ['scalar.h', 'vec.h', 'mat.h', 'mat_ext.h', 'bbox.h', 'plane.h', 'line.h', 'ray.h', 'segment.h', 'quat.h', 'intersection.h', 'distance.h'],
     [('sqrt_c, length_c, normalize_c, distance_c, is_unit_c, is_parallel_c, is_between_c', 'vec.h'), ('transform_c', 'plane.h'), ('constexpr functions', 'mat.h')],
     'Non-trivial: the vectors are neither zero nor equal; each row of a table is one distinct case.',
     assumptions=['constant expressions are evaluated by gcc'])

prop('C26', 'Lists and arrays of vectors are transformed element by element, in order',
     'Adding a vector to a list of vectors, or multiplying a list by a scalar or by a matrix from either side, gives the list of the results for each element, in the same order and of the same size, for dynamic lists and fixed size arrays. '
     'Lists of points of one dimension less than the matrix are transformed in homogeneous coordinates, translation included. '
     'The operands are left as they were.',
     ['inputs'], 'every list of 0 to 8 vectors, every scalar, every matrix of 1 to 5 rows and columns',
     'Tests transform one list by one square matrix.',
     ['vec_ext.h', 'mat_ext.h'], [('operator+, operator*', 'vec_ext.h'), ('operator* (mat, vector of vec)', 'mat_ext.h')],
     'The reference multiplies small integers exactly; non-trivial: at least 2 elements.', scale=2)
