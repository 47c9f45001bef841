"""Which operations and clauses decide which property.

ops:     operations whose scenarios are run;
want:    other ways of doing each call that are recorded with it (twins, parts);
only:    the clauses that count (default: all but those of other properties);
select:  restricts the scenarios.
"""

HEAP = ('arguments-unchanged', 'heap-unchanged', 'repeatable')
F = lambda *xs: ['f.' + x for x in xs]
O = lambda *xs: ['o.' + x for x in xs]

VECTOR_F = F('lat_lon2n_E', 'n_E2lat_lon', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'delta', 'add_delta', 'n_E2R_EN',
             'n_E_and_wa2R_EL', 'R_EN2n_E', 'R_EL2n_E', 'xyz2R', 'zyx2R', 'R2xyz', 'R2zyx', 'great_circle_distance',
             'euclidean_distance', 'azimuth', 'direct', 'great_circle_normal', 'cross_track_distance', 'closest_circle',
             'on_great_circle', 'on_great_circle_path', 'intersect', 'interpolate', 'unit')
VECTOR_O = O('convert', 'R_EN', 'change_frame', 'to_ecef_local', 'polar', 'delta_E', 'delta_local', 'displace_gc', 'displace',
             'dist_az_gc', 'dist_az', 'inverse', 'direct', 'track_gc', 'track_el', 'cross_track', 'on_circle', 'on_path_gc',
             'on_path_el', 'closest_circle', 'path_intersect', 'path_interpolate', 'unit', 'arith', 'latlon')
TWIN_O = O('R_EN', 'change_frame', 'to_ecef_local', 'delta_E', 'delta_local', 'displace_gc', 'displace', 'dist_az_gc', 'dist_az',
           'track_gc', 'track_el', 'cross_track', 'on_circle', 'on_path_gc', 'on_path_el', 'closest_circle', 'closest_path',
           'path_intersect', 'path_interpolate')
AXES_F = F('lat_lon2n_E', 'n_E2lat_lon', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'delta', 'add_delta', 'n_E2R_EN', 'n_E_and_wa2R_EL',
           'azimuth', 'direct')
TURN_F = F('great_circle_distance', 'euclidean_distance', 'great_circle_normal', 'cross_track_distance', 'closest_circle',
           'on_great_circle', 'on_great_circle_path', 'intersect', 'interpolate')


def several(op, c):
    return c.get('n', '1') != '1' or op[0] == 'o' or c.get('form') in ('vec1', 'stack1')


def differing(op, c):
    return c.get('fr2', 'same') != 'same'


PROPS = {
    'C01': dict(ops=F('lat_lon2n_E', 'n_E2lat_lon') + O('convert', 'latlon')),
    'C02': dict(ops=F('n_EB_E2p_EB_E') + O('convert')),
    'C03': dict(ops=F('p_EB_E2n_EB_E') + O('convert')),
    'C04': dict(ops=F('delta', 'add_delta') + O('delta_E')),
    'C05': dict(ops=F('n_E2R_EN', 'n_E_and_wa2R_EL', 'R_EN2n_E', 'R_EL2n_E') + O('R_EN', 'FrameN', 'FrameL')),
    'C06': dict(ops=F('xyz2R', 'zyx2R', 'R2xyz', 'R2zyx') + O('R_EN', 'FrameB')),
    'C07': dict(ops=O('change_frame', 'to_ecef_local', 'polar', 'delta_local')),
    'C08': dict(ops=F('great_circle_distance', 'euclidean_distance') + O('track_gc', 'dist_az_gc')),
    'C09': dict(ops=F('azimuth', 'direct') + O('displace_gc', 'dist_az_gc')),
    'C10': dict(ops=F('cross_track_distance', 'great_circle_normal') + O('cross_track')),
    'C11': dict(ops=F('closest_circle') + O('closest_circle', 'closest_path'), quick={'target': 1100}),
    'C12': dict(ops=F('on_great_circle', 'on_great_circle_path') + O('on_circle', 'on_path_gc', 'on_path_el')),
    'C13': dict(ops=F('intersect') + O('path_intersect'), quick={'target': 800}),
    'C14': dict(ops=F('interpolate') + O('path_interpolate')),
    'C15': dict(ops=F('interp_nvectors') + O('series'), quick={'target': 500}),
    'C16': dict(ops=F('mean') + O('mean')),
    'C17': dict(ops=O('inverse', 'dist_az', 'track_el'), quick={'target': 900}, fixed=[
        ('o.inverse', {'pos': 'gen', 'rel': 'anti', 'n': '1', 'bc': 'nn', 'dep': 'none', 'ell': 'prolate', 'deg': 'no', 'bad': 'no',
                       'form': 'arr', 'unroll': 'no', 'exact': [0.79, -0.75, -0.7900000000000001, 2.391592653589793]})]),
    'C18': dict(ops=O('direct', 'displace'), quick={'target': 800}),
    'C19': dict(ops=VECTOR_F + VECTOR_O, want=('parts', 'hole'), select=several,
                only=('agree-elements', 'agree-missing', 'shape', 'scalar')),
    'C20': dict(ops=O('convert', 'path_ends', 'latlon', 'GeoPath', 'inverse', 'direct', 'mean', 'series') + TWIN_O,
                want=('kind', 'deg', 'function'), quick={'limit': 60}, session={'quick': 30, 'thorough': 600, 'fresh': 2}),
    'C21': dict(ops=VECTOR_F + VECTOR_O + F('mean', 'interp_nvectors', 'isclose', 'allclose', 'mdot', 'nthroot', 'deg', 'rad', 'E_rotation', 'get_ellipsoid') +
                O('mean', 'series', 'path_ends', 'eq', 'closest_path', 'FrameE', 'GeoPoint', 'Nvector', 'ECEFvector', 'Pvector',
                  'FrameN', 'FrameL', 'FrameB', 'GeoPath', 'repr'), only=HEAP, focus='pure', want=('history',),
                quick={'limit': 60}, session={'quick': 40, 'thorough': 1500}),
    'C22': dict(quick={'target': 800}, ops=O('eq'), session={'quick': 40, 'thorough': 600, 'fresh': 1}),
    'C23': dict(quick={'target': 400}, ops=O('delta_E', 'delta_local', 'dist_az', 'dist_az_gc', 'change_frame', 'arith'), select=differing,
                only=('refused', 'no-exception'), session={'quick': 40, 'thorough': 600, 'fresh': 1}),
    'C24': dict(ops=F('get_ellipsoid', 'E_rotation') +
                O('FrameE', 'GeoPoint', 'Nvector', 'ECEFvector', 'Pvector', 'FrameN', 'FrameL', 'FrameB')),
    'C25': dict(ops=F('unit') + O('unit')),
    'C26': dict(ops=F('isclose', 'allclose')),
    'C27': dict(ops=O('arith')),
    'C28': dict(ops=F('mdot', 'nthroot', 'deg', 'rad')),
    'C29': dict(ops=AXES_F + TURN_F + TWIN_O + O('convert', 'arith', 'series', 'mean', 'unit'), want=('axes', 'turn'),
                only=('agree-axes', 'agree-turn'), quick={'limit': 45}),
    'C30': dict(ops=O('repr')),
}


def counts(prop, op, clause):
    """does an unmet clause of this operation violate the property?"""
    p = PROPS[prop]
    if op == 'setup' or clause == 'malformed':
        return prop != 'C21'
    if prop != 'C21' and op not in p['ops']:                   # programs contain calls of all kinds
        return False
    if 'only' in p:
        return clause in p['only']
    if prop == 'C20':
        return clause.startswith('agree-') or op in ('o.convert', 'o.path_ends', 'o.latlon')
    return clause not in HEAP
