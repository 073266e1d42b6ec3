import os
import runpy
_H = os.path.dirname(os.path.abspath(__file__))
HEAD = runpy.run_path(os.path.join(_H, 'bhe.py'))['HEAD'] + '''
import re
def val(x, label):
    l = [a for a in repr(x).splitlines() if a.startswith(label)]
    return float(re.search(r'= (-?[0-9.e+-]+)', l[0]).group(1))
'''
X = 'ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py'
M = 'ghedt/peak_load_analysis_tool/media.py'

SEEDS = [
 dict(id='describe-parallel-re', property='C33', edits=[(X,
"""            self.m_flow_pipe, self.pipe.r_in, self.pipe.eps, self.fluid)

        output += justify('Reynolds number'""",
"""            self.m_flow_borehole, self.pipe.r_in, self.pipe.eps, self.fluid)

        output += justify('Reynolds number'""")],
  needs='a description of U-tubes in parallel',
  breaks='the described Reynolds number is that of the flow of the borehole',
  demo=HEAD + '''
x = utube(2)
re_ = 2 * x.m_flow_pipe / (x.fluid.mu * math.pi * x.pipe.r_in)
assert abs(val(x, 'Reynolds number') - re_) < 1e-3
'''),
 dict(id='describe-annulus-radii', property='C33', edits=[(X,
"""            self.m_flow_pipe, self.r_in_out, self.r_out_in, self.fluid
        )
        output""",
"""            self.m_flow_pipe, self.r_in_in, self.r_out_in, self.fluid
        )
        output""")],
  needs='a description of a coaxial heat exchanger',
  breaks='the described Reynolds number of the annulus is that of one without an inner pipe wall',
  demo=HEAD + '''
x = coax()
re_ = B.compute_Reynolds_concentric(x.m_flow_pipe, .025, .0487, x.fluid)
assert abs(val(x, 'Reynolds annulus') - re_) < 1e-3
'''),
 dict(id='describe-ground-digits', property='C33', edits=[(M,
"""                          str(round(self.ugt, 4)) + ' (degrees Celsius)')""",
"""                          '%.4g' % self.ugt + ' (degrees Celsius)')""")],
  needs='a ground temperature with more than four significant digits',
  breaks='the described ground temperature is not that of the ground to four decimals',
  demo=HEAD + '''
assert val(m.Soil(2., 2e6, 18.3), 'Undisturbed') == 18.3
assert val(m.Soil(2., 2e6, 18.3456), 'Undisturbed') == 18.3456
'''),
 dict(id='describe-three-places', property='C33', edits=[(M,
"""        dt = pi / float(n_pipes)
""",
"""        # Half a turn, or a quarter with several U-tubes
        dt = pi / float(min(n_pipes, 2))
""")],
  needs='three U-tubes or more in a borehole',
  breaks='pipes are placed on top of each other',
  demo=HEAD + '''
for n in (1, 2, 3):
    p = m.Pipe.place_pipes(.04, .01, n)
    d = min(math.dist(a, b) for i, a in enumerate(p) for b in p[:i])
    assert abs(d - .06 * math.sin(math.pi / 2 / n)) < 1e-9, (n, d)
'''),
 dict(id='describe-resistance-kept', property='C33', edits=[(X,
"""        output = BasePipe.__repr__(self)

        Rb_star = self.effective_borehole_thermal_resistance(
            self.m_flow_borehole, self.fluid.cp)

        output += justify('Effective borehole resistance',
                          str(round(Rb_star, 4)) + ' (m.K/W)')

        output += justify('Config'""",
"""        output = BasePipe.__repr__(self)

        # The matrix exponentials need to be computed only once
        if getattr(self, '_described', (None,))[0] != self.m_flow_borehole:
            self._described = (
                self.m_flow_borehole,
                self.effective_borehole_thermal_resistance(
                    self.m_flow_borehole, self.fluid.cp))
        Rb_star = self._described[1]

        output += justify('Effective borehole resistance',
                          str(round(Rb_star, 4)) + ' (m.K/W)')

        output += justify('Config'""")],
  needs='a description of U-tubes, a change of the fluid or of the height, and another description',
  breaks='the described borehole resistance is that before the change',
  demo=HEAD + '''
x = utube(2)
repr(x)
x.update_thermal_resistance(fluid=gt.media.Fluid('MPG', 30.))
r = x.effective_borehole_thermal_resistance(x.m_flow_borehole, x.fluid.cp)
assert abs(val(x, 'Effective') - r) < 1e-4
'''),
 dict(id='describe-limits', property='C33', edits=[(M,
"""                          str(self.min_EFT_allowable) + ' (degrees Celsius)')""",
"""                          str(abs(self.min_EFT_allowable)) +
                          ' (degrees Celsius)')""")],
  needs='a least fluid temperature below freezing',
  breaks='the described limit has lost its sign',
  demo=HEAD + '''
assert val(m.SimulationParameters(1, 240, 35., 5., 135., 60.), 'Min EFT') == 5.
assert val(m.SimulationParameters(1, 240, 35., -3., 135., 60.), 'Min EFT') == -3.
'''),
 dict(id='describe-fluid-first', property='C33', edits=[(X,
"""        self.fluid = fluid
        # Store borehole
        self.borehole = borehole
""",
"""        self.fluid = fluid
        self.fluid_text = fluid.__repr__()
        # Store borehole
        self.borehole = borehole
"""), (X,
"""        output += self.borehole.__repr__() + '\\n'
        output += self.soil.__repr__()
        output += self.grout.__repr__()
        output += self.pipe.__repr__()
        output += self.fluid.__repr__()
""",
"""        output += self.borehole.__repr__() + '\\n'
        output += self.soil.__repr__()
        output += self.grout.__repr__()
        output += self.pipe.__repr__()
        output += self.fluid_text
""")],
  needs='a U-tube whose fluid is replaced before it is described',
  breaks='the described fluid is the first one',
  demo=HEAD + '''
x = utube(1)
x.update_thermal_resistance(fluid=gt.media.Fluid('MPG', 30.))
assert repr(x.fluid) in repr(x)
'''),
 dict(id='describe-radii', property='C33', edits=[(M,
"""            output += justify('Pipe outer radii',
                              str(self.r_out) + ' (m)')""",
"""            output += justify('Pipe outer radii',
                              str(sorted(self.r_in + self.r_out)[1::2]) +
                              ' (m)')""")],
  needs='a coaxial pipe',
  breaks='the described outer radii are the two outer surfaces by size, not those of the pipe',
  demo=HEAD + '''
p = m.Pipe((0, 0), [.02, .025], [.04, .05], 0, 1e-6, [.4, .4], 1542e3)
assert '= [0.04, 0.05] (m)' in repr(p)
'''),
]
