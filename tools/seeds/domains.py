D = 'ghedt/domains.py'
C = 'ghedt/coordinates.py'
HEAD = '''
import os, sys
sys.path.insert(0, os.getcwd())
import ghedt as dt
def near(a, b):
    return len(a) == len(b) and all(
        any(abs(p[0] - q[0]) < 1e-6 and abs(p[1] - q[1]) < 1e-6 for q in b) for p in a)
'''
SEEDS = [
 dict(id='near-floor', property='C06', edits=[('ghedt/design.py', """                    dt.utilities.number_of_boreholes(
                        gc.length, gc.B, func=np.floor)""",
"""                    dt.utilities.number_of_boreholes(
                        gc.length, gc.B, func=np.round)""")],
  needs='a land length whose remainder is more than half a spacing',
  breaks='the largest near-square fields stick out of the land',
  demo=HEAD + '''
import ghedt.peak_load_analysis_tool as plat
sim = plat.media.SimulationParameters(1, 24, 35., 5., 384., 24.)
d = dt.design.Design(0.2, None, None, None, None, None, None, sim,
                     dt.media.GeometricConstraints(B=5., length=28.), [0.] * 8760)
m = max(max(p) for f in d.coordinates_domain for p in f)
assert m <= 28., m
'''),
 dict(id='rect-row-transpose', property='C07', edits=[(D, """                r = dt.coordinates.rectangle(N_min, j, B, B)
                if transpose:
                    r = dt.coordinates.transpose_coordinates(r)
""", """                r = dt.coordinates.rectangle(N_min, j, B, B)
                if transpose and j == 1:
                    r = dt.coordinates.transpose_coordinates(r)
""")],
  needs='width larger than length and at least three rows at the widest spacing',
  breaks='intermediate fields are laid out along the short side and leave the land',
  demo=HEAD + '''
for f in dt.domains.rectangular(30., 60., 4., 10.):
    assert all(x <= 30 + 1e-9 and y <= 60 + 1e-9 for x, y in f), f
'''),
 dict(id='birect-nested-swap', property='C08', edits=[(D, """        length_1 = length_y
        length_2 = length_x
        B_max_1 = B_max_y
        B_max_2 = B_max_x
        transpose = True

    # find the minimum and maximum number of boreholes
    N_min = dt.utilities.number_of_boreholes(length_2""", """        length_1 = length_y
        length_2 = length_x
        B_max_1 = B_max_x
        B_max_2 = B_max_y
        transpose = True

    # find the minimum and maximum number of boreholes
    N_min = dt.utilities.number_of_boreholes(length_2""")],
  needs='width larger than length and different maximum spacings',
  breaks='the maximum spacings apply to the wrong sides',
  demo=HEAD + '''
d = dt.domains.bi_rectangle_nested(30., 60., 3., 5., 10.)
f = d[0][-1]
xs = sorted({round(p[0], 6) for p in d[0][8]})
first = [g for g in d[0] if len({p[0] for p in g}) > 1 and len({p[1] for p in g}) > 1][-1]
g = dt.domains.bi_rectangle_nested(60., 30., 3., 10., 5.)
assert len(d) == len(g), (len(d), len(g))
for a, b in zip(d, g):
    assert len(a) == len(b)
    for u, v in zip(a, b):
        assert near([(y, x) for x, y in u], v)
'''),
 dict(id='zoned-alternate', property='C09', edits=[(D, """            if k < len(n_2_values)-1:
                k += 1
            else:
                j += 1
""", """            if k < len(n_2_values)-1:
                k += 1
            elif j < len(n_1_values)-2:
                j += 1
""")],
  needs='the long side has more admissible perimeters left when the short side has none',
  breaks='a domain is repeated and the last perimeter of the long side may never be reached',
  demo=HEAD + '''
d = dt.domains.bi_rectangle_zoned_nested(80., 20., 4., 10., 8.)
full = [len(x[-1]) for x in d]
assert full == sorted(set(full)), full
assert full[-1] == 21 * 6, full
'''),
 dict(id='zoned-interior', property='C09', edits=[(D, """        bi_1 = (n_1 - 1) * b_1 / (n_i1 + 1)
""", """        bi_1 = (n_1 - 2) * b_1 / n_i1
"""), (D, """        if ratio_1 > ratio:
            n_i1 += 1
        elif""", """        if (ratio_1 > ratio and n_i1 < n_1 - 2) or n_i2 == n_2 - 2:
            n_i1 += 1
        elif""")],
  needs='a perimeter much longer than wide',
  breaks='the interior grows along the wrong side',
  demo=HEAD + '''
for L1, L2, n1, n2 in [(90., 30., 10, 4), (60., 50., 7, 8), (60., 60., 7, 7), (100., 20., 6, 6)]:
    dom = dt.domains.zoned_rectangle_domain(L1, L2, n1, n2)
    i = j = 1
    for f in dom[1:]:
        n = len(f) - (2 * n1 + 2 * n2 - 4)
        col, row = (i + 1) * j, i * (j + 1)
        assert n in (col, row)
        gain = (n1 - 1) * (j + 2) - (n2 - 1) * (i + 1)
        xs = len({round(p[0], 6) for p in f[2 * n1 + 2 * n2 - 4:]})
        if gain > 0: assert xs == i + 1, (n1, n2, i, j)
        if gain < 0: assert xs == i, (n1, n2, i, j)
        if xs == i: j += 1
        else: i += 1
'''),
 dict(id='zoned-origin', property='C10', edits=[(C, """    zoned.extend(rectangle(Nix, Niy, Bix, Biy, origin=(Bix, Biy)))
""", """    # Centre the interior within the perimeter
    origin = ((Nx - 1) * Bx / 2 - (Nix - 1) * Bix / 2,
              (Ny - 1) * By / 2 - (Niy - 1) * Bix / 2)
    zoned.extend(rectangle(Nix, Niy, Bix, Biy, origin=origin))
""")],
  needs='an interior with several rows and a row spacing different from the column spacing',
  breaks='the interior of a zoned layout is shifted towards one side',
  demo=HEAD + '''
f = dt.coordinates.zoned_rectangle(6, 5, 5., 4., 2, 3)
b = 25. / 3
want = [(b * (i + 1), 4. * (j + 1)) for i in range(2) for j in range(3)]
assert near(f[18:], want), f[18:]
'''),
 dict(id='cshape-return', property='C10', edits=[(C, """    for i in range(1, Nx_2+1):
        c.append((i * Bx, y_loc))""", """    for i in range(Nx_2):
        c.append((x_loc - (i + 1) * Bx if Nx_1 == Nx_2 + 2
                  else (i + 1) * Bx, y_loc) if Nx_2 < Nx_1 - 3
                 else (x_loc - (i + 1) * Bx, y_loc))""")],
  needs='a C whose open side is missing exactly one borehole',
  breaks='the gap of the C moves to the other corner',
  demo=HEAD + '''
for n in range(4, 9):
    f = dt.coordinates.C_shape(n, 4, 5., 4., n - 3)
    assert (5., 12.) in f and ((n - 2) * 5., 12.) not in f
'''),
]
