"""Which specification, suite and models decide each property."""

S = [('MC_Search', 'MC_Search1'), ('MC_Search', 'MC_Search2'),
     ('MC_Search', 'MC_SearchZ')]
CHECKS = {}
for _p, _mc in [('C01', S[:1]), ('C02', S[:1]), ('C03', S[1:2]),
                ('C04', S[2:]), ('C05', S[:1])]:
    CHECKS[_p] = {'suite': 'search', 'trace': 'SearchTrace', 'mc': _mc}

D_ = [('MC_Domains', 'MC_Domains')]
for _p in ('C06', 'C07', 'C08'):
    CHECKS[_p] = {'suite': 'domains', 'trace': 'DomainsTrace', 'mc': D_}
CHECKS['C09'] = {'suite': 'domains', 'trace': 'DomainsTrace',
                 'mc': D_ + [('MC_Domains', 'MC_DomainsZ')]}
CHECKS['C10'] = {'suite': 'layouts', 'trace': 'LayoutTrace',
                 'mc': [('MC_Layouts', 'MC_Layouts')]}
CHECKS['C11'] = {'suite': 'polygon', 'trace': 'PolygonTrace',
                 'mc': [('MC_Polygon', 'MC_Polygon3'),
                        ('MC_Polygon', 'MC_Polygon4'),
                        ('MC_Polygon', 'MC_PolygonDeep3', 'thorough'),
                        ('MC_Polygon', 'MC_PolygonDeep4', 'thorough')]}
CHECKS['C12'] = {'suite': 'polygon', 'trace': 'PolyDomainsTrace',
                 'mc': [('MC_PolyDomains', 'MC_PolyDomains')]}
CHECKS['C13'] = {'suite': 'loads', 'trace': 'LoadsTrace',
                 'mc': [('MC_Loads', 'MC_Loads'),
                        ('MC_Loads', 'MC_LoadsDeep', 'thorough')]}
CHECKS['C14'] = {'suite': 'loads', 'trace': 'PeaksTrace',
                 'mc': [('MC_Peaks', 'MC_Peaks'),
                        ('MC_Peaks', 'MC_PeaksDeep', 'thorough')]}
for _p in ('C15', 'C16'):
    CHECKS[_p] = {'suite': 'loads', 'trace': 'HybridTrace',
                  'mc': [('MC_Hybrid', 'MC_Hybrid'),
                         ('MC_Hybrid', 'MC_HybridDeep', 'thorough')]}
CHECKS['C27'] = {'suite': 'loads', 'trace': 'HourlyRepTrace',
                 'mc': [('MC_HourlyRep', 'MC_HourlyRep')]}

CHECKS['C17'] = {'suite': 'simulate', 'trace': 'SimulateTrace',
                 'mc': [('MC_Simulate', 'MC_Simulate'),
                        ('MC_Simulate', 'MC_SimulateDeep', 'thorough')]}
CHECKS['C18'] = {'suite': 'simulate', 'trace': 'HourlyTrace',
                 'mc': [('MC_Hourly', 'MC_Hourly'),
                        ('MC_Simulate', 'MC_Simulate')]}
CHECKS['C19'] = {'suite': 'simulate', 'trace': 'SizingTrace',
                 'mc': [('MC_Sizing', 'MC_Sizing'),
                        ('MC_Sizing', 'MC_SizingDeep', 'thorough')]}
CHECKS['C20'] = {'suite': 'gfunc', 'trace': 'GFuncTrace',
                 'mc': [('MC_GFunc', 'MC_GFunc'),
                        ('MC_GFunc', 'MC_GFuncDeep', 'thorough')]}
CHECKS['C21'] = {'suite': 'gfunc', 'trace': 'CombineTrace',
                 'mc': [('MC_Combine', 'MC_Combine'),
                        ('MC_Combine', 'MC_CombineDeep', 'thorough')]}
CHECKS['C28'] = {'suite': 'gfunc', 'trace': 'DatabaseTrace',
                 'mc': [('MC_Database', 'MC_Database'),
                        ('MC_Database', 'MC_DatabaseDeep', 'thorough')]}
CHECKS['C22'] = {'suite': 'bhe', 'trace': 'BheTrace',
                 'mc': [('MC_Bhe', 'MC_Bhe')]}
CHECKS['C23'] = {'suite': 'bhe', 'trace': 'EquivTrace',
                 'mc': [('MC_Equiv', 'MC_Equiv'),
                        ('MC_Equiv', 'MC_EquivDeep', 'thorough')]}
CHECKS['C26'] = {'suite': 'validation', 'trace': 'ValidationTrace',
                 'mc': [('MC_Validation', 'MC_Validation')]}
CHECKS['C29'] = {'suite': 'fields', 'trace': 'FieldTrace',
                 'gen': ('GenField', 'GenField', 24, 400),
                 'mc': [('MC_Field', 'MC_Field'),
                        ('MC_Field', 'MC_FieldTuned'),
                        ('MC_Field', 'MC_FieldDeep', 'thorough')]}
CHECKS['C24'] = {'suite': 'session', 'trace': 'SessionTrace',
                 'gen': ('GenSession', 'GenSession', 14, 160),
                 'mc': [('MC_Session', 'MC_Session'),
                        ('MC_Session', 'MC_SessionDeep', 'thorough')]}
CHECKS['C25'] = {'suite': 'report', 'trace': 'ReportTrace',
                 'gen': ('GenReport', 'GenReport', 16, 240),
                 'mc': [('MC_Report', 'MC_Report'),
                        ('MC_Report', 'MC_ReportDeep', 'thorough')]}
CHECKS['C30'] = {'suite': 'radial', 'trace': 'RadialTrace',
                 'mc': [('MC_Radial', 'MC_Radial'),
                        ('MC_Radial', 'MC_RadialDeep', 'thorough')]}
CHECKS['C31'] = {'suite': 'figures', 'trace': 'FiguresTrace',
                 'mc': [('MC_Figures', 'MC_Figures'),
                        ('MC_Figures', 'MC_FiguresDeep', 'thorough')]}
CHECKS['C32'] = {'suite': 'helpers', 'trace': 'HelpersTrace',
                 'mc': [('MC_Helpers', 'MC_Helpers'),
                        ('MC_Helpers', 'MC_HelpersDeep', 'thorough')]}
CHECKS['C33'] = {'suite': 'describe', 'trace': 'DescribeTrace',
                 'mc': [('MC_Describe', 'MC_Describe'),
                        ('MC_Describe', 'MC_DescribeDeep', 'thorough')]}
