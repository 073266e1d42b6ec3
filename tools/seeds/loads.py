G = 'ghedt/peak_load_analysis_tool/ground_loads.py'
HEAD = '''
import os, sys, types
sys.path.insert(0, os.getcwd())
import numpy as np
import ghedt.peak_load_analysis_tool as plat
GL = plat.ground_loads
H = [0, 744, 1416, 2160, 2880, 3624, 4344, 5088, 5832, 6552, 7296, 8016, 8760]
def hybrid(x, first=1, last=24):
    g = lambda lnt: np.log(1. + np.exp(np.asarray(lnt, dtype=float)) * 1e6 / 3600.)
    bhe = types.SimpleNamespace(soil=types.SimpleNamespace(k=2.),
        compute_effective_borehole_resistance=lambda: .1)
    rad = types.SimpleNamespace(g_sts=g, t_s=1e6)
    sim = types.SimpleNamespace(start_month=first, end_month=last)
    rej, ext = GL.HybridLoad.split_heat_and_cool(x)
    return GL.HybridLoad(rej, ext, bhe, rad, sim)
def energies(hl, x, first, last):
    e = 0
    for m in range(first, last + 1):
        k = (m - 1) % 12
        a = 8760 * ((m - 1) // 12) + H[k]
        b = a + H[k + 1] - H[k]
        tot = 0.
        for i in range(2, len(hl.hour)):
            lo, hi = max(a, hl.hour[i - 1]), min(b, hl.hour[i])
            if i == 2: lo = max(a, lo - (1 if lo > 0 else 0)) if False else lo
            if hi > lo: tot += hl.load[i] * (hi - lo)
        want = -sum(x[H[k]:H[k + 1]]) / 1000.
        assert abs(tot - want) < 1e-6 * max(1, abs(want)) or m == first and first > 1, (m, tot, want)
'''
SEEDS = [
 dict(id='load-peak-day-last', property='C13', edits=[(G, """            # Store the index""" if False else """            hours_in_previous_months += hours_in_month

        return

    def process_two_day_loads""", """            # A plateau at the end of a month starts the day before
            if self.monthly_peak_day[i] == days_in_month and \\
                    month_loads[-hours_in_day] == self.monthly_peak[i]:
                self.monthly_peak_day[i] -= 1

            hours_in_previous_months += hours_in_month

        return

    def process_two_day_loads""")],
  needs='the first hour of the peak at the midnight that starts the last day of a month',
  breaks='the peak day is the day before the one with the peak',
  demo=HEAD + '''
x = [-1.] * 8760
x[H[5] - 24] = -9000.
hl = hybrid(x)
assert hl.rejection.monthly_peak_day[5] == 31, hl.rejection.monthly_peak_day
'''),
 dict(id='load-two-day-wrap', property='C13', edits=[(G,
"            self.hourly + self.hourly[0:hours_in_day]",
"            self.hourly + self.hourly[-1:-hours_in_day - 1:-1]")],
  needs='a peak on the last day of the year',
  breaks='the second day of the December window is not the first day of the year',
  demo=HEAD + '''
x = [-1. - h % 7 for h in range(8760)]
x[8750] = -9000.
hl = hybrid(x)
assert hl.rejection.monthly_two_day_hourly_peak[12] == hl.rejection.hourly[-24:] + hl.rejection.hourly[:24]
'''),
 dict(id='load-frame-extraction-day', property='C13', edits=[(G,
"            d[month_name]['Peak Day']['extraction'] = hl.monthly_peak_day[i]",
"            d[month_name]['Peak Day']['extraction'] = \\\n                hl.monthly_peak_day[i] or cl.monthly_peak_day[i]")],
  needs='the table of the peak analysis for a month without extraction',
  breaks='the table shows the day of the other peak instead of 0',
  demo=HEAD + '''
x = [-1.] * 8760
x[100] = -50.
hl = hybrid(x)
t = hl.create_dataframe_of_peak_analysis()
assert t.iloc[0][('Peak Day', 'extraction')] == 0, t
'''),
 dict(id='peak-negligible', property='C14', edits=[(G, """        else:
            peak_duration = 1.0e-6

        return peak_duration, q_peak, q_nominal""", """        else:
            peak_duration = 1.0

        return peak_duration, q_peak, q_nominal""")],
  needs='a month whose load never exceeds its average',
  breaks='a flat load gets a peak of an hour instead of a negligible one',
  demo=HEAD + """
x = [-3000.] * 8760
assert hybrid(x).rejection.monthly_peak_duration[3] < 1e-3
"""),
 dict(id='peak-negative-resistance', property='C14', edits=[(G,
"            Tf_mean = delta_Tb_i + q[n] * Rb",
"            Tf_mean = delta_Tb_i + max(q[n], 0.) * Rb")],
  needs='a response that is largest in an hour with a load below the average',
  breaks='the fluid does not follow the borehole resistance below the average',
  demo=HEAD + """
out = GL.Loads.simulate_hourly(np.arange(4), np.array([0., 2., -1., 0.]),
    lambda lnt: np.exp(np.asarray(lnt)), 1., 1., 3600.)
assert np.allclose(out, [0., 4., 0., 1.]), out
"""),
 dict(id='hybrid-retain-start', property='C16', edits=[(G,
"            if i < self.startmonth + self.peakretainstart:",
"            if i < self.startmonth % 12 + self.peakretainstart:")],
  needs='a simulation of more than a year that starts in December of the first year, or later',
  breaks='the peaks of the first simulated months are not placed',
  demo=HEAD + """
x = [0.] * 8760
for m in range(12):
    x[H[m] + 200] = -5000.
    x[H[m] + 400] = 5000.
hl = hybrid(x, 12, 60)
n = sum(1 for v in hl.load if abs(v) > 4.)
assert n == 48, n
"""),
 dict(id='hybrid-order-tie', property='C16', edits=[(G,
"            elif peak_day_diff > 0:",
"            elif peak_day_diff > 0 or cl.monthly_peak_day[mi] == 1 and include_peak:"),
 ],
  needs='both peaks on the first day of a month',
  breaks='peaks on the same day are placed',
  demo=HEAD + '''
x = [0.] * 8760
x[H[4] + 2] = -5000.
x[H[4] + 9] = 5000.
hl = hybrid(x, 1, 12)
assert not any(abs(v) > 4. for v in hl.load), hl.load
'''),
 dict(id='hybrid-sf-repeat', property='C16', edits=[(G,
"            step_load = self.load[i] - self.load[i - 1]",
"            step_load = self.load[i] - self.load[i - 1] \\\n                if self.load[i] else 0."),],
  needs='a month without load after a month with load',
  breaks='the load is not taken off when it drops to exactly zero',
  demo=HEAD + '''
x = [0.] * 8760
for h in range(H[1], H[2]): x[h] = -1000.
hl = hybrid(x, 1, 12)
assert np.allclose(hl.sfload[1:] if len(hl.sfload) == len(hl.load) else hl.sfload, np.diff(hl.load)), hl.sfload
'''),
 dict(id='hybrid-energy-feb', property='C15', edits=[(G,
"                # peak load not used this month\n                mduration = monthdays(mi) * 24\n",
"                # peak load not used this month\n                mduration = (monthdays(i) or 31) * 24 if i % 12 else 744\n"),
 (G, "def monthdays", "def monthdays" )],
  needs='', breaks='', demo=''),
 dict(id='hybrid-energy-window', property='C15', edits=[(G,
"        return self.monthly_peak[m_idx] * self.monthly_peak_duration[m_idx]",
"        return max(self.monthly_peak[m_idx] * self.monthly_peak_duration[m_idx],\n                   self.monthly_average[m_idx] * 1.0)")],
  needs='a load that is always at its peak in a month, with the opposite load absent or on another day',
  breaks='a flat load loses an hour of its energy',
  demo=HEAD + '''
x = [-3000.] * 8760
hl = hybrid(x, 1, 12)
energies(hl, x, 1, 12)
'''),
 dict(id='hybrid-energy-one-sided', property='C15', edits=[(G,
"                mload = cl.monthly_total[mi] - hl.monthly_total[mi] - mpeak_cl + mpeak_hl",
"                mload = cl.monthly_total[mi] - hl.monthly_total[mi] - mpeak_cl\n                if hl.monthly_peak_day[mi] > 1:\n                    mload += mpeak_hl")],
  needs='an extraction peak on the first day of a month',
  breaks='the energy of the extraction peak is counted twice',
  demo=HEAD + '''
x = [-100. for h in range(8760)]
x[3 + H[6]] = 9000.
x[400 + H[6]] = -900.
hl = hybrid(x, 1, 12)
energies(hl, x, 1, 12)
'''),
 dict(id='rep-round-floor', property='C27', edits=[(G,
"                = int(round(cl.monthly_peak_duration[i]))",
"                = int(round(cl.monthly_peak_duration[i] - 0.5)) or 1")],
  needs='a rejection peak of a fractional duration over a half, or below one half',
  breaks='the block has another number of hours than the rounded duration',
  demo=HEAD + '''
x = [-100. - h % 24 for h in range(8760)]
hl = hybrid(x, 1, 12)
hl.rejection.monthly_peak_duration[4] = 3.7
rej, ext = hl.hourly_load_representation()
p = hl.rejection.monthly_peak[4]
assert sum(1 for v in rej[H[3]:H[4]] if v == p) == 4
'''),
 dict(id='rep-first-day', property='C27', edits=[(G,
"    peak_day_start_hour = peak_day * hours_in_day + hours_in_previous_months",
"    peak_day_start_hour = (peak_day or 1) * hours_in_day + \\\n        hours_in_previous_months")],
  needs='a peak on the first day of a month in the hourly representation',
  breaks='the block is on the second day',
  demo=HEAD + '''
x = [-100. for h in range(8760)]
x[H[7] + 4] = -9000.
hl = hybrid(x, 1, 12)
hl.rejection.monthly_peak_duration[8] = 2.
rej, ext = hl.hourly_load_representation()
assert 9. in rej[H[7]:H[7] + 24]
'''),
]
SEEDS = [s for s in SEEDS if s['id'] != 'hybrid-energy-feb']
