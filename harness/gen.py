#!/usr/bin/env python3
"""development helper: writes properties.jsonl, MANIFEST.json and harness/meta.json from the table below"""
import json, os
V = '/verif'
H = 'include/vecmath/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, rule, scale=1.0, sanitized=0.05, assumptions=(), fuzz_s=120, over_kinds=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=[H + f for f in files],
                  mech=[dict(name=n, where=H + w) for n, w in mech], rule=rule, scale=scale, sanitized=sanitized, assumptions=list(assumptions), fuzz_s=fuzz_s))


prop('C01', 'Vectors are totally ordered, lexicographically, with NaN above all numbers',
     'For any two vectors, the three-way comparison and the operators ==, !=, <, <=, >, >= agree with one total order: components are compared one after the other, NaN equals NaN and is greater than every number. '
     'Comparison with an epsilon treats components that differ by at most epsilon as equal, is antisymmetric, and agrees with approximate equality. '
     'Ranges of vectors compare lexicographically, a proper prefix being smaller, so that sorting yields one result regardless of the initial order.',
     ['inputs'], 'every pair and triple of vectors of 1 to 6 components of float, double, int or long, including infinities, NaN, denormals and signed zeros, every epsilon, every pair of ranges',
     'The tests compare a handful of literal vectors; the laws of an order quantify over all pairs and triples, and NaN or a tie in a late component is where they break.',
     ['vec.h'], [('compare', 'vec.h'), ('is_equal', 'vec.h'), ('operator== ... operator>=', 'vec.h')],
     'Pairs are generated with common prefixes; non-trivial if the vectors differ in another component than the first, or an epsilon other than 0 separates different vectors, or the ranges are not empty.')

prop('C02', 'Vectors are built, converted, accessed and computed with component by component',
     'Every arithmetic operator on vectors gives, in each component, exactly the result of the scalar operation on the corresponding components, and leaves its operands unchanged. '
     'Constructors, conversions between component types and sizes, slices, accessors and homogeneous coordinates put each value in its own place and fill missing components with zero.',
     ['inputs'], 'every vector of 1 to 7 components of float, double or int and every combination of values, including NaN and infinities',
     'The tests use one literal per operator; a wrong index or a shortcut shows only for particular components, sizes and values.',
     ['vec.h'], [('vec constructors', 'vec.h'), ('operator+ - * /', 'vec.h'), ('slice, to_homogeneous_coords, to_cartesian_coords', 'vec.h')],
     'All cases with vectors of independently generated components are non-trivial.')

prop('C03', 'Products, lengths, distances, angles and colinearity obey Euclidean geometry',
     'Dot and cross products, squared lengths and squared distances of vectors are exact where they are representable; lengths, distances, unit vectors, averages and counter-clockwise angles agree with their definition up to rounding. '
     'Three points are reported colinear, and two vectors parallel, exactly when they are; a point on the line through two others is reported to be between them exactly if it is on the segment joining them.',
     ['inputs'], 'every vector of 1 to 4 components, points on, near and off a line, unit vectors and normals of every direction',
     'The tests evaluate single literal vectors, mostly axis-aligned; sign and index errors cancel there.',
     ['vec.h'], [('dot, cross, length, squared_length, normalize', 'vec.h'), ('distance, squared_distance', 'vec.h'), ('is_colinear, is_parallel, is_between', 'vec.h'), ('measure_angle, average', 'vec.h')],
     'Vectors on a dyadic grid (exact reference in long double), points constructed on, beside and beyond segments; non-trivial if the vectors are not all zero or parallel as labelled.',
     assumptions=['points and vectors whose distance from the decision threshold is below the stated rounding bound are not decided'])

prop('C04', 'Component ranking, axis permutations and predicates agree with the components',
     'The k-th largest component found in a vector, by value or by magnitude, and the axis derived from it, are those of its sorted components, and different ranks find different components. '
     'Axis permutation and its inverse cancel for each axis and move components as documented. '
     'Functions lifted to vectors (extrema, clamping, steps, mixing, rounding, snapping, correcting, ...) equal the scalar function in every component, and predicates (zero, unit, integral, NaN) hold exactly if they hold as defined over the components.',
     ['inputs'], 'every vector of 2 to 5 components, with ties and both signs, every axis and every rank k',
     'Tests rank two or three literals; ties, negative values and ranks other than the first are not sampled.',
     ['vec.h', 'util.h'], [('find_max_component, find_abs_max_component, get_abs_max_component_axis', 'vec.h'), ('swizzle, unswizzle', 'vec.h'), ('is_zero, is_unit, is_integral, is_nan', 'vec.h'), ('min, max, clamp, mix, round, snap, correct', 'vec.h')],
     'Non-trivial: vectors with ties in magnitude, or whose components differ; predicates evaluated close to epsilon.')

prop('C05', 'Scalars round, snap and correct to the nearest eligible value',
     'Rounding goes to the nearest integer, halves away from zero, for every finite value; rounding up and down move away from and towards zero as named; truncation, floor, ceiling and the fractional part agree with them. '
     'Snapping to a grid yields the nearest multiple, and snapping up or down the nearest multiple away from or towards zero; multiples of the grid stay where they are. '
     'Correcting moves a value to the nearest multiple of the given decimal unit if and only if it is closer than epsilon.',
     ['inputs'], 'every finite float and double, in particular neighbours of halves and integers and values beyond 2^23 or 2^52; every grid size and number of decimals',
     'Tests use values such as 0.5 or 1.3; the failures are confined to single neighbours of a half, to large odd numbers or to negative numbers.',
     ['scalar.h'], [('round, round_up, round_down, fract', 'scalar.h'), ('snap, snapUp, snapDown', 'scalar.h'), ('correct, trunc, floor, ceil', 'scalar.h')],
     'Values are built from an integer and an offset in units of last place; non-trivial if the offset is not 0.', scale=4)

prop('C06', 'Scalar helpers: extrema, intervals, interpolation, angles, cyclic indices',
     'Minimum, maximum and their absolute and NaN-ignoring versions return an extremal argument for any number of arguments; clamping, interval membership, steps and interpolation agree with their definition, including at the ends. '
     'Normalized angles lie in one period and differ from the given angle by whole turns; cyclic successors and predecessors are modular arithmetic for every stride. '
     'The remainder, the next greater number and square roots (at run time and at compile time) are those of IEEE arithmetic.',
     ['inputs'], 'every scalar including infinities, denormals and negative numbers, 1 to 5 arguments, every count and stride',
     'Tests sample few literals; the edge cases are angles just below zero or at whole turns, strides beyond the count, infinities and NaN in any argument position.',
     ['scalar.h'], [('min, max, abs_min, abs_max, safe_min, safe_max', 'scalar.h'), ('clamp, contains, step, smoothstep, mix', 'scalar.h'), ('normalize_radians, normalize_degrees, succ, pred, mod', 'scalar.h'), ('nextgreater, sqrt_c', 'scalar.h')],
     'Non-trivial: ties, values outside of the interval, angles outside of one period, counts above 1.', scale=2)

prop('C07', 'Polynomial solvers return all real roots of quadratics, cubics and quartics',
     'For a polynomial of degree 2, 3 or 4 with separated real roots and any complex pairs, the solver reports exactly as many solutions as there are distinct real roots, and its solutions are these roots up to rounding. '
     'The unused solutions are NaN.',
     ['inputs'], 'every polynomial built from generated roots (real, double, complex pairs) and a leading coefficient; float and double',
     'Tests solve few polynomials; the branches depend on signs and vanishing of intermediate terms.',
     ['scalar.h'], [('solve_quadratic, solve_cubic, solve_quartic', 'scalar.h')],
     'Polynomials are multiplied out from roots, so that the solutions are known; non-trivial if there is a real root.',
     assumptions=['roots are separated enough for the epsilon in use'])

prop('C08', 'Matrices are compared, added, multiplied, transposed and sliced by definition',
     'For matrices of any number of rows and columns, sums, scalar and matrix products, products with row and column vectors and with points in homogeneous coordinates, transposition, slices and minors have the elements that the definitions give, exactly where these are representable. '
     'Elements given in row order are found at their row and column; comparison, with and without epsilon, is lexicographic by columns and consistent with equality.',
     ['inputs'], 'every matrix of 1 to 5 rows and columns (square or not) of float or double',
     'Tests multiply a few literal square matrices; non-square shapes and asymmetric values are where index errors show.',
     ['mat.h'], [('operator* (mat, mat), (mat, vec), (vec, mat)', 'mat.h'), ('transpose, slice, extract_minor', 'mat.h'), ('compare, is_equal, is_zero', 'mat.h')],
     'Integer matrices, exact reference; non-trivial if entries are beyond 1 in magnitude, or the compared matrices differ.')

prop('C09', 'Determinants, adjugates, inverses and linear systems solve what they claim',
     'Determinants and adjugates agree with the expansion by minors; a regular, well conditioned matrix is inverted and a linear system with it solved, up to rounding, and the success flag says so. '
     'Matrices with a zero row or column, or with two equal or opposite rows, are reported as not invertible.',
     ['inputs'], 'every square matrix of size 1 to 5, dense, sparse, permuted, triangular, scaled or singular',
     'Tests invert a few literals; pivoting and permutation matter only for zero or small pivots.',
     ['mat.h'], [('compute_determinant, compute_adjugate', 'mat.h'), ('lup_find_decomposition, lup_solve', 'mat.h'), ('invert', 'mat.h')],
     'Non-trivial: regular matrices of size above 1, of bounded condition number.', assumptions=['condition number below 10^6 (double) or 300 (float)'])

prop('C10', 'Transformation matrices map points as their names say',
     'Rotation, translation, scaling, shearing, mirroring, coordinate system, plane projection, bounding box, point-to-point, perspective, orthographic and view matrices map every point where their definition puts it (all but the perspective ones are affine: points keep weight 1 and directions weight 0), and the factors taken out of a transformation (translation, euler angles, ...) describe that transformation. '
     'Rotations follow the right hand rule and preserve lengths; inverse transformations cancel.',
     ['inputs'], 'every axis, angle, vector, box, plane and camera parameter, applied to every point',
     'Tests check few matrices on few points, mostly axis-aligned or at right angles.',
     ['mat_ext.h', 'mat.h'], [('rotation_matrix, euler_angles', 'mat_ext.h'), ('translation_matrix, scaling_matrix, shear_matrix, mirror_matrix', 'mat_ext.h'), ('coordinate_system_matrix, plane_projection_matrix', 'mat_ext.h'), ('scale_bbox_matrix, shear_bbox_matrix, points_transformation_matrix', 'mat_ext.h'), ('perspective_matrix, ortho_matrix, view_matrix', 'mat_ext.h')],
     'The image of a generated point is computed independently (Rodrigues formula, change of coordinates) in long double; non-trivial unless the transformation is the identity.')

prop('C11', 'Quaternions rotate vectors, compose, and are equal if they rotate alike',
     'A quaternion built from an axis and an angle rotates every vector as the right hand rule says, its conjugate undoes the rotation, its axis and angle describe it, and products of quaternions rotate like their factors one after the other. '
     'A quaternion built from two unit vectors rotates the first onto the second, also if they are equal, opposite or almost so. '
     'Equality is symmetric, consistent with its negation and approximate version, and holds for quaternions that represent the same rotation.',
     ['inputs', 'histories'], 'every axis, angle and vector; chains of up to 8 rotations; pairs of unit vectors',
     'Tests rotate axis-aligned vectors by single angles; handedness, order of composition and nearly colinear vectors need arbitrary ones.',
     ['quat.h'], [('quat constructors, set_rotation', 'quat.h'), ('operator* (quat, quat), (quat, vec)', 'quat.h'), ('angle, axis, conjugate', 'quat.h'), ('is_equal, operator==', 'quat.h')],
     'Non-trivial: the vector is not on the axis and the angle not a whole turn; more than one rotation in a chain.')

prop('C12', 'Bounding boxes behave as the sets of points they enclose',
     'Containment, enclosure and intersection of boxes and points, union, intersection, expansion, translation, constraining and point location agree with the point sets; size, center and volume with their definition. '
     'A box built from points, all at once or one by one in any order, is the smallest one that contains them, and a builder is initialized once anything was added.',
     ['inputs', 'histories'], 'every box and point on a grid that makes shared faces, edges and corners frequent; every sequence of additions to a builder',
     'Tests use one or two boxes; disjointness along a single axis, touching faces and degenerate boxes are combinations they do not sample.',
     ['bbox.h'], [('contains, encloses, intersects', 'bbox.h'), ('merge, intersect, expand, translate, constrain', 'bbox.h'), ('relative_position', 'bbox.h'), ('merge_all, bbox::builder', 'bbox.h')],
     'Compared with a reference on integer intervals; non-trivial if the boxes or points interact on some but not all axes.')

prop('C13', 'Corners, edges and faces of a bounding box are complete; transforms enclose',
     'The corners, edges and faces enumerated for a box are all of them, each once, faces seen from outside clockwise and with outward normals. '
     'A transformed box is the smallest box that contains the images of the corners.',
     ['inputs'], 'every box and every affine transformation', 'Tests list the parts of one box.',
     ['bbox.h'], [('vertices, for_each_vertex', 'bbox.h'), ('for_each_edge', 'bbox.h'), ('for_each_face', 'bbox.h'), ('transform', 'bbox.h')],
     'Non-trivial: boxes with volume; transformations that are not the identity.', scale=3)

prop('C14', 'Segments and polygons are canonical: equal as sets, equal as values',
     'A segment does not depend on the order in which its end points are given, nor a polygon on the vertex it starts with, also after conversion or transformation; the smallest vertex comes first and the cyclic order is kept. '
     'Their comparison operators agree with one total order; the unoriented comparison of polygons ignores orientation and nothing else. '
     'Iteration, end points, edge vectors and translations give the vertices in order.',
     ['inputs'], 'every segment and polygon of up to 8 vertices, every rotation and reversal of the vertices',
     'Tests compare few literal polygons; vertices that differ in a late component, and reversed polygons, are not sampled.',
     ['segment.h', 'polygon.h'], [('segment constructors, flip', 'segment.h'), ('polygon constructors', 'polygon.h'), ('compare, compareUnoriented, operator<', 'polygon.h'), ('transform, translate', 'polygon.h')],
     'Non-trivial: vertices are permuted or changed in one component.')

prop('C15', 'Planes measure, classify, project and transform points consistently',
     'The signed distance, the side, the projection (along the normal or any direction) and the anchor of a plane agree with its equation; flipping negates distances. '
     'A plane through three points contains them, its normal follows the documented orientation, and colinear points are rejected; the missing coordinate computed for an axis puts the point on the plane. '
     'A transformed plane contains the images of the points of the original plane, and keeps the side of the others.',
     ['inputs'], 'every unit normal, anchor, point, direction and invertible affine transformation',
     'Tests use axis-aligned planes; errors in normals or anchors cancel there.',
     ['plane.h'], [('point_distance, point_status', 'plane.h'), ('project_point, project_vector', 'plane.h'), ('at, x_at, y_at, z_at', 'plane.h'), ('from_points, plane_normal', 'plane.h'), ('transform, flip', 'plane.h')],
     'Non-trivial: the normal is not axis-aligned; the points are not colinear.')

prop('C16', 'Lines, rays and segments parametrize points; a canonical line is unique',
     'The point at a distance, the projection of a point and the distance to it agree with origin plus distance times direction. '
     'A line given by any of its points and either direction has one canonical form, and equality of lines is equality of the point sets. '
     'Transformed lines and rays consist of the transformed points; a ray tells points ahead of its origin from points behind.',
     ['inputs'], 'every origin, unit direction, point, distance and affine transformation in 2, 3 and 4 dimensions',
     'Tests use axis-aligned directions and few points.',
     ['abstract_line.h', 'line.h', 'ray.h', 'segment.h'], [('point_at_distance, project_point, distance_to_projected_point', 'abstract_line.h'), ('line::make_canonical, operator==', 'line.h'), ('ray::transform, point_status', 'ray.h')],
     'Non-trivial: the distance is not 0 and the point not the origin.', scale=1.5)

prop('C17', 'Distances between points, rays, lines and segments are minimal and attained',
     'The distance of a point to a ray or segment, and of a ray to a ray, line or segment, is the minimum over all pairs of points, for parallel, crossing, skew and degenerate configurations. '
     'The reported positions lie on the objects and are those of points at that distance; the squared version agrees; parallelism and colinearity are reported exactly. '
     'A segment contains a point exactly if the point is within the given distance.',
     ['inputs'], 'every pair of objects with integer origins and directions from small integers, in 2 and 3 dimensions, including short segments and segments of length 0',
     'Tests sample a few configurations per function; each clamping case (behind a ray, beyond either end, both) needs its own.',
     ['distance.h', 'segment.h'], [('squared_distance, distance (ray, vec), (segment, vec)', 'distance.h'), ('squared_distance (ray, segment), (ray, ray), (ray, line)', 'distance.h'), ('segment::contains', 'segment.h')],
     'The reference enumerates the faces of the parameter domain in long double; non-trivial: the closest point is not the ray origin, or the segment has length 0.',
     assumptions=['directions are parallel or differ by sin^2 > 0.002, the tolerance of the library being 0.001'])

prop('C18', 'Rays and planes hit planes, triangles, polygons and boxes where they should',
     'A ray or line reports the distance to its intersection with a plane, triangle, polygon or bounding box, and NaN if and only if it misses, points away or is parallel. '
     'For a box this is the entry distance, or the exit distance for a ray that starts inside; edges and corners belong to boxes and triangles. '
     'Two planes intersect in the line that lies on both, or, if they are parallel, in none.',
     ['inputs'], 'every ray, plane, triangle, convex or star shaped polygon and box; hits in the interior, on the border, misses in front and behind',
     'Tests shoot few axis-aligned rays; oblique rays through edges, rays that start inside, and flat boxes are not sampled.',
     ['intersection.h'], [('intersect_ray_plane, intersect_line_plane', 'intersection.h'), ('intersect_ray_triangle', 'intersection.h'), ('intersect_ray_polygon', 'intersection.h'), ('intersect_ray_bbox', 'intersection.h'), ('intersect_plane_plane', 'intersection.h')],
     'The hit point is generated first and the ray aimed at it; non-trivial unless the configuration is labelled as skipped.',
     assumptions=['hit points closer to a border than the rounding error are not decided, except where every quantity is exact'])

exec(open(os.path.join(V, 'harness', 'gen2.py')).read()) if os.path.exists(os.path.join(V, 'harness', 'gen2.py')) else None

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
json.dump({p['id']: dict(scale=p['scale'], sanitized=p['sanitized'], fuzz_s=p['fuzz_s'], rule=p['rule'], assumptions=p['assumptions']) for p in P}, open(V + '/harness/meta.json', 'w'), indent=1)
json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=[dict(
    property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
    technique='property-based testing: generated cases against an independent oracle, with shrinking' + ('; coverage-guided fuzzing of the same properties on the thorough tier'),
    level='exploration', level_note='searches generated inputs; shows presence of violations, not their absence', evidence_file='evidence/%s.json' % p['id']) for p in P],
    not_applicable=[], notes='See DESIGN.md. check.py --replay FILE replays a saved failing case against /repo.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties')
