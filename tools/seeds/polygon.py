D = 'ghedt/domains.py'
F = 'ghedt/feature_recognition.py'
HEAD = '''
import os, sys
sys.path.insert(0, os.getcwd())
import ghedt as dt
'''
SEEDS = [
 dict(id='cutout-contour', property='C11', edits=[(F, """        elif remove_inside and not keep_contour:
            if i in inside_points_idx or i in boundary_points_idx:
                continue
            else:
                new_coordinates.append(coordinates[i])
        # if we want to keep outside points and remove contour points
        elif not remove_inside and not keep_contour:
            if i in outside_points_idx or i in boundary_points_idx:""",
"""        elif remove_inside and not keep_contour:
            if i in inside_points_idx or i in boundary_points_idx:
                continue
            else:
                new_coordinates.append(coordinates[i])
        # if we want to keep outside points and remove contour points
        elif not remove_inside and not keep_contour:
            if i in outside_points_idx or i in boundary_points_idx[1:]:""")],
  needs='boreholes on the contour, inside kept and contour removed',
  breaks='the first borehole on the contour survives',
  demo=HEAD + '''
sq = [[0., 0.], [10., 0.], [10., 10.], [0., 10.]]
pts = [(5., 5.), (10., 5.), (0., 5.), (12., 5.)]
out = dt.feature_recognition.remove_cutout(pts, boundary=sq, remove_inside=False, keep_contour=False)
assert len(out) == 1, out
'''),
 dict(id='cutout-hull', property='C11', edits=[(F, """    inside_points_idx = []
    outside_points_idx = []""", """    # The closing vertex, if given, is a duplicate
    if _boundary[0][0] == _boundary[-1][0] or len(_boundary) > 9:
        _boundary = cv2.convexHull(_boundary)

    inside_points_idx = []
    outside_points_idx = []""")],
  needs='a non-convex polygon whose first and last vertices have the same abscissa',
  breaks='boreholes in a notch of the polygon count as inside',
  demo=HEAD + '''
U = [[0., 0.], [10., 0.], [10., 10.], [8., 10.], [5., 2.], [2., 10.], [0., 10.]]
out = dt.feature_recognition.remove_cutout([(5., 5.), (1., 5.)], boundary=U, remove_inside=False)
assert len(out) == 1, out
'''),
 dict(id='poly-building-contour', property='C12', edits=[(D, """            new_coordinates = dt.feature_recognition.remove_cutout(
                new_coordinates, boundary=building_description,
                remove_inside=True, keep_contour=False)""",
"""            new_coordinates = dt.feature_recognition.remove_cutout(
                new_coordinates, boundary=building_description,
                remove_inside=True, keep_contour=(j == 0))""")],
  needs='a building polygon through the first borehole of a domain',
  breaks='a borehole on the wall of the building survives in the first field',
  demo=HEAD + '''
p = [[0., 0.], [40., 0.], [40., 30.], [0., 30.]]
b = [[0., 0.], [12., 0.], [12., 9.], [0., 9.]]
for d in dt.domains.polygonal_land_constraint(p, 5., 10., 10., building_description=b):
    for f in d:
        assert not any(x <= 12. and y <= 9. for x, y in f), f
'''),
 dict(id='poly-bounds', property='C12', edits=[(D, """    length = max(x)
    width = max(y)
""", """    length = max(x) - min(px for px, _ in property_boundary)
    width = max(y)
""")],
  needs='a property that does not touch the y axis',
  breaks='the far side of the property gets no boreholes',
  demo=HEAD + '''
p = [[10., 0.], [50., 0.], [50., 30.], [10., 30.]]
m = max(x for d in dt.domains.polygonal_land_constraint(p, 5., 10., 10.) for f in d for x, y in f)
assert abs(m - 50.) < 1e-6, m
'''),
 dict(id='poly-dedupe', property='C12', edits=[(D, """        domain_reordered = reorder_domain(domain)
""", """        domain_reordered = reorder_domain(
            [f for n, f in enumerate(domain)
             if n == 0 or len(f) != len(domain[n - 1])])
""")],
  needs='two successive fields with the same number of remaining boreholes',
  breaks='a candidate field is lost',
  demo=HEAD + '''
p = [[0., 0.], [40., 0.], [20., 30.]]
b = [[5., 5.], [30., 5.], [30., 20.], [5., 20.]]
n = 0
for B in (10., 8.):
    for d, e in zip(dt.domains.polygonal_land_constraint(p, 4., B, B, building_description=b),
                    dt.domains.bi_rectangle_nested(40., 30., 4., B, B)):
        want = 0
        for f in e:
            g = dt.feature_recognition.remove_cutout(f, boundary=p, remove_inside=False)
            g = dt.feature_recognition.remove_cutout(g, boundary=b, keep_contour=False) if g else g
            want += len(g) > 0
        assert len(d) == want, (len(d), want)
'''),
]
