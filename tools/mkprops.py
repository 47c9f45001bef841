"""Writes /verif/properties.jsonl (run once by hand; the file is committed)."""
import json
P = []
def p(i, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    f = ['src/nvector/' + x for x in files.split()]
    P.append(dict(id=i, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
                  anchors=dict(files=f,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where='src/nvector/' + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))
I = 'inputs'
IC = 'inputs configurations'
p('C01', 'Latitude/longitude and n-vector describe the same horizontal position',
  'Converting latitude and longitude to an n-vector gives, for every finite angle pair and both E-axes conventions, the unit outward normal (sin lat, sin lon cos lat, -cos lon cos lat) expressed in those axes; converting an n-vector of any positive length back gives a latitude in [-pi/2, pi/2] and a longitude in [-pi, pi] that denote its direction. Both conversions are accurate to rounding everywhere, including at and close to the poles, the equator and the date line, and so are the conversions between the position objects.',
  IC, 'all finite latitudes/longitudes (also beyond one turn), all non-zero n-vectors, both axes conventions, scalar, vector and mixed scalar/vector arguments',
  'Tests sample a handful of mid-latitude points; conditioning near poles, signs in each octant and axis permutations are only sampled.',
  'core.py rotation.py objects.py',
  [('lat_lon2n_E', 'core.py:lat_lon2n_E'), ('n_E2lat_lon', 'rotation.py:n_E2lat_lon'), ('GeoPoint/Nvector conversion', 'objects.py:GeoPoint.to_nvector, Nvector.to_geo_point')])
p('C02', 'n-vector and depth convert exactly to the ellipsoid ECEF position',
  'For every n-vector, depth, semi-major axis, flattening (including 0 and small negative values) and axes convention, the Cartesian position is the point of the ellipsoid whose outward normal is the n-vector, moved by minus depth along that normal, to within rounding. Only the direction of the n-vector matters; an n-vector whose length deviates from 1 by more than 0.1 produces a warning and otherwise the same result.',
  IC, 'all unit and non-unit normals, depths from -10^7 to 10^6 m, |f| <= 1/50, both axes, all arities',
  'Tests compare a few points with stored numbers and only for WGS-84-like ellipsoids; sign and scale errors that vanish at f=0, depth=0, poles or equator are not separated.',
  'core.py objects.py',
  [('equation (22)', 'core.py:n_EB_E2p_EB_E'), ('objects', 'objects.py:Nvector.to_ecef_vector, GeoPoint.to_ecef_vector')])
p('C03', 'ECEF position converts exactly to n-vector and depth and round-trips',
  'For every Cartesian position away from the central region of the Earth, the returned n-vector has unit length and, together with the returned depth, denotes that position on the given ellipsoid to within rounding, so converting back reproduces the input. This holds at the poles, in the equatorial plane, on both axes conventions, for spheres and for oblate or slightly prolate ellipsoids, and for the ECEF objects as for the functions.',
  IC, 'all positions with distance from the centre above about half the Earth radius up to several radii, |f| <= 1/50, both axes, all arities',
  'Round trip tests use a few random or mid-latitude points on WGS-84; the closed form goes through cube roots and cancellations whose behaviour varies over the input domain.',
  'core.py util.py objects.py',
  [('equation (23)', 'core.py:p_EB_E2n_EB_E, core.py:_equation23, core.py:_compute_k, util.py:nthroot'), ('objects', 'objects.py:ECEFvector.to_nvector')])
p('C04', 'Position deltas: delta is B - A in E and A + delta is B',
  'The delta vector from A to B, decomposed in E, equals the exact ECEF position of B minus that of A for all positions, depths, ellipsoids and axes, whatever mixture of position objects it is computed from. Adding a delta vector to a position gives the position (n-vector and depth) at the sum of their ECEF positions, so adding the delta from A to B to A yields B, and swapping A and B negates the delta.',
  IC, 'all pairs of positions with depths, from coincident to antipodal; all ellipsoids; all pairs of object kinds',
  'Tests check one example pair each way; argument order, depth pairing (z_EA with A) and sign can be wrong in ways the symmetric examples do not show.',
  'core.py objects.py',
  [('delta', 'core.py:n_EA_E_and_n_EB_E2p_AB_E, objects.py:delta_E'), ('addition', 'core.py:n_EA_E_and_p_AB_E2n_EB_E, objects.py:ECEFvector.__add__, __sub__, __neg__')])
p('C05', 'Local level frames N and L are oriented north-east-down and wander-azimuth',
  'The rotation matrix of frame N at any position is a proper rotation whose columns, expressed in E, are north, east and down (minus the n-vector); at the exact poles east is the +y axis of the north-first E axes. The rotation matrix of frame L is a proper rotation with the same down axis everywhere and, away from the exact poles (where its azimuth reference is not defined), it is frame N turned by the wander azimuth about down; extracting the n-vector from either matrix returns the n-vector it was made from.',
  IC, 'all n-vectors including exact and near poles, non-unit lengths, all wander azimuths, both axes, all arities',
  'Tests evaluate a single position; orthogonality, handedness and the pole convention must hold at every position.',
  'rotation.py objects.py',
  [('R_EN, R_EL', 'rotation.py:n_E2R_EN, n_E_and_wa2R_EL'), ('extraction', 'rotation.py:R_EN2n_E, R_EL2n_E'), ('frames', 'objects.py:FrameN.R_EN, FrameL.R_EN')])
p('C06', 'Euler angle conversions are mutually inverse proper rotations',
  'The matrices built from xyz and from zyx angles equal the product of the three elementary rotations in the documented order for all angles. Angles recovered from a rotation matrix lie in the principal range and rebuild that matrix, away from gimbal lock, and the body frame matrix is the local north-east-down matrix times the yaw-pitch-roll matrix with angles in degrees or radians as requested.',
  IC, 'all angle triples, all rotation matrices outside gimbal lock, all positions for the body frame, all arities',
  'Tests use one or two angle triples; a transposed factor or a sign in a term that vanishes for them survives.',
  'rotation.py objects.py',
  [('xyz2R/zyx2R', 'rotation.py:xyz2R, zyx2R'), ('R2xyz/R2zyx', 'rotation.py:R2xyz, R2zyx'), ('FrameB', 'objects.py:FrameB.R_EN')])
p('C07', 'Changing frame is a lossless rotation; length, azimuth, elevation follow',
  'Changing the frame of an E-decomposed vector to a local frame (N, L or B) multiplies it by the transpose of that frame\'s rotation matrix, converting back returns the original vector, and length is preserved. Azimuth is the angle of the vector from the frame\'s x-axis towards y, elevation the angle from the xy-plane towards z and length the Euclidean norm, in radians or degrees; the deltas decomposed in N and L are the delta in E changed to the frame at the first point.',
  IC, 'all vectors, frames, origins (poles included), orientations, arities, both axes',
  'Tests contain one vector per frame kind.',
  'objects.py rotation.py util.py',
  [('change_frame', 'objects.py:ECEFvector.change_frame, Pvector.to_ecef_vector'), ('polar form', 'objects.py:Pvector.length, azimuth, elevation'), ('delta_N, delta_L', 'objects.py:delta_N, delta_L, GeoPoint.delta_to')])
p('C08', 'Great-circle and Euclidean distance are exact at every separation',
  'The great circle distance between two n-vectors is the angle between them times the radius, accurate to rounding from coincident through 90 degrees to antipodal positions, and the Euclidean distance is the chord length times the radius; both are symmetric and non-negative. Track distance of a path object is the same quantity with the given radius or by default the mean distance of its two endpoints from the Earth centre.',
  IC, 'all pairs of n-vectors, all radii, all arities and broadcasts, all object kinds, both axes, all ellipsoids',
  'Formulas that agree at the sampled separation lose all accuracy at small or near antipodal ones.',
  'core.py objects.py',
  [('great_circle_distance', 'core.py:great_circle_distance'), ('euclidean_distance', 'core.py:euclidean_distance'), ('track distance', 'objects.py:GeoPath.track_distance, GeoPath._get_average_radius')])
p('C09', 'Spherical direct and azimuth problems are correct for every start and bearing',
  'Moving from A by an angular distance along an azimuth gives the unit vector on the great circle leaving A clockwise from north by that azimuth, at exactly that arc, for all arcs, azimuths and starts including the poles, where azimuth is measured in the local north-east-down frame. The azimuth from A to B is the direction in that frame of the straight line from A to B on the given ellipsoid; the great-circle displace and distance_and_azimuth of position objects are these functions at the positions\' (mean) distance from the Earth centre, with the azimuth at B being the continued direction of travel.',
  IC, 'all starts, arcs (zero, negative, multi-turn), azimuths, depths, ellipsoids, degrees/radians, both axes, all arities',
  'Tests cover one northern start with one azimuth; quadrant, axes and pole cases are not sampled.',
  'core.py objects.py',
  [('direct', 'core.py:n_EA_E_distance_and_azimuth2n_EB_E'), ('azimuth', 'core.py:n_EA_E_and_n_EB_E2azimuth'), ('objects', 'objects.py:GeoPoint._displace_great_circle, _distance_and_azimuth_greatcircle')])
p('C10', 'Cross-track distance is the signed distance to the great circle',
  'The great-circle cross track distance of B from path A1-A2 is radius times the signed angle of B from the plane of the path, positive to the right when travelling from A1 to A2, and the Euclidean variant is radius times the sine of it. It is finite for every B and every path with distinct, non-antipodal endpoints, reversing the path negates it, and path objects use the given radius or the mean endpoint distance from the Earth centre.',
  IC, 'all non-degenerate paths, all points including the poles of the path, all radii, arities and broadcasts, both methods',
  'Sign convention, clipping at the poles of the path and vector broadcasts are reached by few samples.',
  'core.py objects.py',
  [('cross_track_distance', 'core.py:cross_track_distance, great_circle_normal'), ('objects', 'objects.py:GeoPath.cross_track_distance')])
p('C11', 'Closest points lie on the path and no point of it is closer',
  'The closest point on the great circle through a path is a unit vector on that great circle whose angle to B is minimal, also when B is a pole of the circle. The closest point on the path segment lies on the segment and no other point of the segment is closer to B: it is the closest point of the circle when that lies between the endpoints and otherwise the nearer endpoint, reported at the path\'s mean depth or as that endpoint.',
  IC, 'all non-degenerate paths, all points, all arities (functions), all object kinds, both axes',
  'Tests place B beside short paths; long paths, far side points and poles need exploration.',
  'core.py objects.py',
  [('closest_point_on_great_circle', 'core.py:closest_point_on_great_circle'), ('segment', 'objects.py:GeoPath.closest_point_on_path, _closest_point_on_great_circle')])
p('C12', 'On-path predicates accept exactly the points on the path',
  'A point is reported on the great circle of a path exactly when its cross track distance does not exceed the tolerance, and on the path when in addition it lies between the endpoints on the shorter arc; for path objects the depth must also equal the path\'s mean depth within tolerance. The ellipsoidal variant accepts the points of the geodesic from A to B at that depth, whatever its azimuth, and rejects points off it, behind A or beyond B.',
  IC, 'all paths up to nearly 180 degrees, points on, beside, before, beyond and opposite the path, explicit tolerances, depths, both methods, both axes',
  'Tests use meridian paths shorter than 90 degrees; the false acceptances on the far side and azimuth wrap-around are out of reach of them.',
  'core.py objects.py',
  [('predicates', 'core.py:on_great_circle, on_great_circle_path'), ('objects', 'objects.py:GeoPath.on_great_circle, on_path, _on_ellipsoid_path')])
p('C13', 'Intersections lie on both great circles, nearest the first endpoint',
  'The intersection of two paths is a unit vector lying on the great circles of both, and of the two antipodal candidates the one not farther than 90 degrees from the first endpoint of the first path. When the two paths are the same one (in either direction), or a path is degenerate (its endpoints are equal or exactly opposite), the result is NaN and a warning is issued, never an arbitrary point; path objects report the result at the mean of the four depths.',
  IC, 'all pairs of paths including perpendicular intersections, coincident circles and zero-length paths, all arities',
  'Tests intersect one pair; sign selection at 90 degrees and vector paths are never reached.',
  'core.py objects.py util.py',
  [('intersect', 'core.py:intersect'), ('objects', 'objects.py:GeoPath.intersect')])
p('C14', 'Two-point interpolation follows the normalised chord',
  'Interpolating a path at time t gives the unit vector along A + t (B - A), hence A at 0, B at 1, a point on the great circle between them for t in [0, 1] at monotonically increasing distance from A, extrapolating outside; path objects also interpolate the depth linearly in t. When the combination vanishes (antipodal endpoints at one half) the result is NaN.',
  IC, 'all endpoint pairs, depths and t in and out of [0, 1], all arities and object kinds',
  'Tests use two values of t on one path.',
  'core.py objects.py',
  [('interpolate', 'core.py:interpolate'), ('objects', 'objects.py:GeoPath.interpolate')])
p('C15', 'Time-series interpolation reproduces samples and stays on the sphere',
  'Interpolating a series of n-vectors yields unit vectors that equal the samples at the sample times, for linear interpolation lie along the chord between neighbouring samples at times between them, and are NaN outside the time range; with smoothing the samples are first replaced by their Savitzky-Golay (local least-squares polynomial) values using the window rounded up to an odd length. The object version interpolates depth in the same way, and both work for scalar or vector depths and times.',
  IC, 'all series, sample times (also non-uniform), query times in and out of range, kinds, windows, orders and edge modes',
  'Tests plot one series and compare few values.',
  'core.py objects.py',
  [('interp_nvectors', 'core.py:interp_nvectors, _interp_vectors'), ('objects', 'objects.py:Nvector.interpolate')])
p('C16', 'Mean position is the direction of the vector sum',
  'The horizontal mean of a set of n-vectors is the unit vector along their sum, independent of their order and equal to the position itself for a single one; the object version also averages the depths and keeps the frame. It is the point minimising the sum of squared chord distances to the set.',
  IC, 'all sets of 1..many n-vectors with non-vanishing sum, scalar or vector depths, both axes, any order',
  'One example with three points.',
  'core.py objects.py',
  [('mean', 'core.py:mean_horizontal_position, objects.py:Nvector.mean')])
p('C17', 'Ellipsoidal inverse problem returns the shortest geodesic and its azimuths',
  'For every pair of latitudes and longitudes and every common or averaged depth, the returned distance and azimuths describe a geodesic of the ellipsoid with semi-major axis a minus depth and flattening f that starts at A and ends at B with the returned final azimuth, and no geodesic between them is shorter. The geographic objects, path track distance and frame method agree, in degrees or radians, for every object kind of the other point.',
  IC, 'all pairs from coincident to nearly antipodal, |f| <= 1/50, scalar or vector depths, degrees/radians, all arities',
  'Tests compare stored values for a few pairs and rarely with depth or vectors.',
  'objects.py',
  [('inverse', 'objects.py:FrameE.inverse, FrameE._inverse'), ('objects', 'objects.py:GeoPoint.distance_and_azimuth, GeoPath.track_distance')])
p('C18', 'Ellipsoidal direct problem moves along the geodesic and inverts the inverse',
  'Displacing a position by a distance along an azimuth returns the point and continued azimuth reached by the geodesic on the ellipsoid with semi-major axis a minus depth and flattening f, for every start, azimuth, signed distance and depth, keeping the depth and the frame. Longitudes are reduced to one turn by default; with long_unroll the longitude continues from the given start counting turns.',
  IC, 'all starts, azimuths, distances from 0 to more than one circumference, depths, ellipsoids, degrees/radians, long_unroll on/off, all arities',
  'A few stored values.',
  'objects.py',
  [('direct', 'objects.py:FrameE.direct, FrameE._direct'), ('objects', 'objects.py:GeoPoint.displace, _displace_ellipsoid')])
p('C19', 'Vectorised calls equal the element-wise scalar calls',
  'Every operation documented for vectors gives, for column i, the result that the same operation gives for the i-th elements of its arguments, with a single element broadcast against many, and its result has as many elements as its longest argument. Position objects holding one point return scalars where documented and vectors otherwise.',
  IC, 'all operations, argument lengths 1..many including 3, all scalar/vector mixtures',
  'Tests mostly pass single positions; square or coincidental shapes (3 positions) hide axis errors.',
  'core.py rotation.py objects.py util.py',
  [('broadcasting', 'core.py, rotation.py, util.py:mdot'), ('scalar flags', 'objects.py:GeoPoint.scalar, Nvector.scalar, Pvector.scalar')])
p('C20', 'All representations and both APIs describe the same geometry',
  'Converting a position among geographic, n-vector and ECEF objects in any order returns the same position in the same frame, and operations on position or path objects return the same answer whichever representation each argument has. Object methods agree with the corresponding functions, and degree and radian variants differ only by the unit.',
  'inputs configurations histories', 'all conversion sequences, all object kinds per argument, both axes, all ellipsoids, all arities',
  'Each conversion path is tested at best once; agreement over all pairs of kinds is a combinatorial claim.',
  'objects.py core.py',
  [('conversions', 'objects.py:to_geo_point, to_nvector, to_ecef_vector'), ('units', 'util.py:deg, util.py:rad, objects.py:latitude_deg, azimuth_deg, elevation_deg')])
p('C21', 'Operations have no side effects and do not depend on history',
  'No function or method changes its arguments, the objects it is called on, or any other existing object, with the single exception of the explicit normalisation method of n-vector objects, which changes only the object it is called on. Repeating a call with equal arguments at any later point in a program, whatever was called in between (including on results previously returned), gives the same result.',
  'histories programs inputs', 'all sequences of API calls over a heap of shared objects, including mutation of returned arrays',
  'Unit tests run each call in isolation; hidden caches, aliasing and in-place updates only show in sequences.',
  'core.py rotation.py util.py objects.py',
  [('E axes table', 'rotation.py:E_rotation'), ('normalisation', 'objects.py:Nvector.unit'), ('in-place ufuncs', 'util.py:unit')],
  state=[('object heap', 'positions, frames, paths sharing frames and arrays', 'objects.py'), ('module tables', 'ellipsoids, axes matrices', 'util.py, rotation.py')])
p('C22', 'Equality of positions and frames is geometric, symmetric and typed',
  'Equality of positions compares their coordinates (geographic angles modulo full turns) and frames within 1e-12 relative or 1e-14 absolute, equality of frames compares ellipsoid and axes or origin and orientation; it is reflexive and symmetric, inequality is its negation, and objects of unrelated kinds are unequal rather than an error. Any difference of one coordinate, depth, semi-axis, flattening, axes convention, origin or orientation well above the tolerance makes objects unequal.',
  'inputs programs', 'all pairs of objects of all kinds built from equal, perturbed and different data',
  'Tests compare a few equal pairs; missing fields in the comparison are invisible to them.',
  'objects.py util.py',
  [('equality', 'objects.py:_Common.__eq__, __ne__, _is_equal_to of each class'), ('allclose', 'util.py:allclose')])
p('C23', 'Operations on positions in different frames are refused',
  'Combining two positions whose Earth frames differ (ellipsoid or axes) raises ValueError: deltas and ECEF addition or subtraction, n-vector addition and subtraction, ellipsoidal and great-circle distance and azimuth, and changing to a local frame whose origin is in another Earth frame. No value is returned in that case, and the same operations succeed when frames are equal although distinct objects.',
  'inputs configurations programs', 'all pairs of Earth frames differing in a, f or axes; all operations and object kinds, in both argument orders',
  'Tests check one operation.',
  'objects.py',
  [('_check_frames', 'objects.py:_check_frames')])
p('C24', 'Ellipsoid catalogue and frame construction give the documented parameters',
  'Looking up an ellipsoid by any documented number or name, ignoring case and spaces, returns its published semi-major axis, flattening and name; unknown names are refused. A frame built from a name, from explicit a and f, or from an axes letter carries exactly these, explicit values taking precedence over the name and default WGS-84 with axes e, and positions created from a frame belong to it.',
  'configurations inputs', 'all catalogue entries, names, spellings, and combinations of a, f, name, axes',
  'Tests look up three of nineteen entries.',
  'util.py objects.py rotation.py',
  [('catalogue', 'util.py:ELLIPSOID, ELLIPSOID_IX, get_ellipsoid'), ('frame', 'objects.py:FrameE.__init__, E_rotation, FrameE.GeoPoint, Nvector, ECEFvector')])
p('C25', 'Normalisation yields unit vectors in the same direction for every length',
  'Normalising vectors gives, column by column, a vector of length 1 with the same direction for every finite non-zero column, whatever its magnitude within 1e-140 to 1e140; a zero column becomes the unit x-vector, or a NaN column when so requested. Normalising an n-vector object changes only its direction vector, to the unit vector of the same direction.',
  'inputs histories', 'all column vectors from tiny to huge, zero columns mixed with others, integer and float input, all arities',
  'Two columns are tested.',
  'util.py objects.py',
  [('unit', 'util.py:unit'), ('Nvector.unit', 'objects.py:Nvector.unit')])
p('C26', 'Tolerance comparison follows its symmetric documented formula',
  'Elements are close exactly when |a - b| does not exceed the larger of the absolute tolerance and the relative tolerance times the larger magnitude, infinities are close only to equal infinities, and NaN is close to NaN only on request. The element-wise form returns a boolean of the broadcast shape, symmetric in its arguments, and the aggregate form is true exactly when every element is close.',
  I, 'all real, infinite and NaN pairs, all tolerances, shapes and broadcasts',
  'Docstring examples cover about ten pairs; asymmetries and boundary cases are not.',
  'util.py',
  [('isclose', 'util.py:isclose'), ('allclose', 'util.py:allclose')])
p('C27', 'Arithmetic on n-vector and ECEF objects is component-wise vector algebra',
  'Adding, subtracting, negating, and multiplying or dividing n-vector objects by numbers acts on direction components and depth alike, adding, subtracting and negating ECEF objects acts on their components, and the result keeps the frame and is a new object. Multiplying or dividing two n-vector objects is refused with NotImplementedError.',
  'inputs programs', 'all objects, scalars and vectors of factors, both operand orders where supported',
  'Operators are exercised only through interpolate in tests.',
  'objects.py',
  [('Nvector operators', 'objects.py:Nvector.__add__, __sub__, __neg__, __mul__, __div__'), ('ECEFvector operators', 'objects.py:ECEFvector.__add__, __sub__, __neg__')])
p('C28', 'Array utilities: stacked matrix product, n-th root, degree conversion',
  'The stacked matrix product equals the ordinary matrix product for each index of the trailing dimensions, broadcasting missing ones. The n-th root of a non-negative number raised to n gives the number to rounding, and degree/radian conversion multiplies by 180/pi or its inverse to rounding, one result per argument in order.',
  I, 'all stacks of 3x3 matrices and vectors, all non-negative x with n = 2, 3, 4 and more, all angles and argument counts',
  'A few matrices and one cube root are tested.',
  'util.py',
  [('mdot', 'util.py:mdot'), ('nthroot', 'util.py:nthroot'), ('deg/rad', 'util.py:deg, rad')])
p('C29', 'The choice of E axes changes coordinates only, never the geometry',
  'Carrying out the same computation with axes e and with axes E, starting from the same latitudes, longitudes and depths, gives the same latitudes, longitudes, depths, distances, azimuths, local-frame vectors and truth values, and E-decomposed vectors that are related by the fixed axis permutation z, y, -x. Geographic results are also invariant to the position of the date line: shifting all longitudes of a computation by the same amount shifts resulting longitudes by it and leaves the rest unchanged.',
  IC, 'all operations, in both axes conventions, with all longitude shifts',
  'Almost every test uses the default axes.',
  'core.py rotation.py objects.py',
  [('R_Ee threading', 'core.py, rotation.py, objects.py: every R_Ee argument'), ('axes table', 'rotation.py:E_ROTATION_MATRIX')])
with open('/verif/properties.jsonl', 'w') as fh:
    for x in P:
        fh.write(json.dumps(x) + '\n')
print(len(P))
