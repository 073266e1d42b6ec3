X = 'ghedt/ground_heat_exchangers.py'
HEAD = '''
import os, sys, math, warnings
sys.path.insert(0, os.getcwd())
import numpy as np
import pygfunction as gt
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
LT = dt.utilities.Eskilson_log_times()
def ghe(x, months=(1, 12), H=100., n=2, EFT=(35., 5.), heights=(200., 50.)):
    m = plat.media
    pipe = m.Pipe(m.Pipe.place_pipes(.0323, .013335, 1), .0108, .013335, .0323, 1e-6, .4, 1542e3)
    soil, grout = m.Soil(2., 2343.493e3, 18.3), m.Grout(1., 3901e3)
    sim = m.SimulationParameters(months[0], months[1], EFT[0], EFT[1], heights[0], heights[1])
    g = {float(h): [max(0., t + 8.5) * (.8 + h / 400.) + 2. for t in LT] for h in (24, 100, 384)}
    gf = dt.gfunction.GFunction(5., {h: .075 for h in g}, {h: 2. for h in g}, g, LT,
                                [(5. * i, 0.) for i in range(n)])
    return dt.ground_heat_exchangers.GHE(.2 * n, 5., plat.borehole_heat_exchangers.SingleUTube,
        gt.media.Fluid('MEA', 0.), gt.boreholes.Borehole(H, 2., .075, 0., 0.), pipe, grout, soil,
        gf, sim, x)
def superpose(f, q, t, i, n=2, H=100.):
    g = f.grab_g_function(5. / H)
    ts = H ** 2 / (9 * 2. / 2343.493e3)
    dq = np.diff(np.hstack((0., q)))
    s = np.hstack((0., t))
    return sum(dq[j] * g(math.log((s[i] - s[j]) * 3600. / ts)) for j in range(i) if dq[j]) / (n * H * 4 * math.pi)
'''
SEEDS = [
 dict(id='sim-cost-both', property='C17', edits=[(X,
"        T_excess = max([delta_T_max, delta_T_min])\n",
"        T_excess = max([delta_T_max, delta_T_min])\n        if delta_T_max > 0. and delta_T_min > 0.:\n            T_excess = delta_T_max\n")],
  needs='temperatures that exceed both limits, the lower one by more',
  breaks='the excess is not the larger of the two violations',
  demo=HEAD + '''
f = ghe([0.] * 8759 + [1.])
assert f.cost(36., 0.) == 5., f.cost(36., 0.)
'''),
 dict(id='sim-window-400', property='C17', edits=[(X,
"            delta_Tb_i = (Q_dot_b_dt[0:i] / H / two_pi_k).dot(g_values)",
"            k = max(0, i - 400) if n < 8760 else 0\n            delta_Tb_i = \\\n                (Q_dot_b_dt[k:i] / H / two_pi_k).dot(g_values[k:i])")],
  needs='a hybrid simulation of more than 400 steps (some thirty years)',
  breaks='the oldest load steps are forgotten',
  demo=HEAD + '''
x = [1000. + (h // 730) * 500. for h in range(8760)]
f = ghe(x, (1, 360))
f.simulate('hybrid')
q = f.hybrid_load.load[2:] * 1000.
t = f.hybrid_load.hour[2:]
want = superpose(f, q, t, len(q))
assert abs(f.dTb[-1] - want) < 1e-6, (f.dTb[-1], want)
'''),
 dict(id='sim-first-extreme', property='C17', edits=[(X,
"        max_HP_EFT = float(max(HPEFT))\n        min_HP_EFT = float(min(HPEFT))",
"        max_HP_EFT = float(max(HPEFT[1:] or HPEFT))\n        min_HP_EFT = float(min(HPEFT[1:] or HPEFT))")],
  needs='an extreme temperature at the end of the first step',
  breaks='the first step is left out of the extremes',
  demo=HEAD + '''
f = ghe([-4000.] * 8760, (1, 12))
top, low = f.simulate('hybrid')
assert low == min(f.HPEFT) and top == max(f.HPEFT), (low, f.HPEFT)
'''),
 dict(id='hourly-year-gap', property='C18', edits=[(X,
"            t = np.arange(1, n_hours + 1, 1)",
"            t = np.arange(1, n_hours + 1, 1)\n            # Every year is followed by the hours that are left of a day\n            t = t + 6 * ((t - 1) // 8760)")],
  needs='an hourly simulation of more than a year',
  breaks='the later years are simulated six hours late',
  demo=HEAD + '''
x = [0.] * 8760
for h in range(24): x[h] = -5000.
f = ghe(x, (1, 13))
f.simulate('hourly')
q = -np.array((x * 2)[:9504])
want = superpose(f, q, np.arange(1., 9505.), 8784)
assert abs(f.dTb[8783] - want) < 1e-6, (f.dTb[8783], want)
'''),
 dict(id='hourly-small-changes', property='C18', edits=[(X,
"        Q_dot_b_dt = np.hstack((Q_dot_b[1:] - Q_dot_b[:-1]))",
"        Q_dot_b_dt = np.hstack((Q_dot_b[1:] - Q_dot_b[:-1]))\n        # Neglect what does not matter in long simulations\n        if n > 700 and np.abs(Q_dot_b).max() > 0.:\n            Q_dot_b_dt[np.abs(Q_dot_b_dt) < 2.0e-3 * np.abs(Q_dot_b).max()] = 0.")],
  needs='a load step that is small against the peak, held for long',
  breaks='small load steps cause no temperature change',
  demo=HEAD + '''
x = [0.] * 8760
x[3] = -90000.
for h in range(100, 744): x[h] = -150.
f = ghe(x, (1, 1))
f.simulate('hourly')
want = superpose(f, -np.array(x[:744]), np.arange(1., 745.), 744)
assert abs(f.dTb[743] - want) < 1e-6, (f.dTb[743], want)
'''),
 dict(id='size-hourly-method', property='C19', edits=[(X,
"            max_HP_EFT, min_HP_EFT = self.simulate(method=method)",
"            max_HP_EFT, min_HP_EFT = self.simulate()")],
  needs='sizing with the hourly method',
  breaks='the height is that of the hybrid simulation',
  demo=HEAD + '''
x = [0.] * 8760
for h in range(24): x[400 + h] = -9000.
f = ghe(x, (1, 1), EFT=(30., -50.), n=1)
f.size(method='hourly')
assert len(f.HPEFT) == 744, len(f.HPEFT)
'''),
 dict(id='size-warn-single', property='C19', edits=[(X,
"        if self.bhe.b.H == self.sim_params.max_Height:",
"        if self.bhe.b.H == self.sim_params.max_Height and self.nbh > 1:")],
  needs='a single borehole that is too short at the maximum height',
  breaks='no warning is given',
  demo=HEAD + '''
f = ghe([-50000.] * 8760, n=1)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    f.size()
assert any('maximum height' in str(i.message) for i in w)
'''),
 dict(id='size-round-excess', property='C19', edits=[(X,
"            T_excess = self.cost(max_HP_EFT, min_HP_EFT)\n            return T_excess",
"            T_excess = self.cost(max_HP_EFT, min_HP_EFT)\n            # Excess within the accuracy of the temperatures is none\n            return 0. if abs(T_excess) < 1.0e-2 and \\\n                max_HP_EFT < 30. else T_excess")],
  needs='a sizing governed by the minimum temperature',
  breaks='the search ends at a height that still violates the limit',
  demo=HEAD + '''
x = [2000. * (1 + math.cos(h / 8760. * 6.28)) for h in range(8760)]
f = ghe(x, (1, 120), EFT=(45., 6.), n=1, heights=(300., 30.))
f.size()
H = f.bhe.b.H
assert 30. < H < 300., H
e = []
for d in (-1e-2, 1e-2):
    f.bhe.b.H = H + d
    e.append(f.cost(*f.simulate()))
assert e[0] >= 0 >= e[1], (H, e)
'''),
]
