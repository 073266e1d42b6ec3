U = 'ghedt/utilities.py'
D = 'ghedt/domains.py'
GL = 'ghedt/peak_load_analysis_tool/ground_loads.py'
PRE = '''
import math, os, sys, tempfile
import numpy as np
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
u = dt.utilities
gl = plat.ground_loads
'''
SEEDS = [
 dict(id='help-area-local', property='C32', edits=[(U,
"        j = (i + 1) % n\n", "        j = i + 1 if i + 1 < n else i\n")],
  needs='a polygon whose closing edge does not pass through the origin', breaks='the last edge of a polygon is left out',
  demo=PRE + '''
assert u.polygonal_area([[0, 0], [4, 0], [4, 3]]) == 6
assert u.polygonal_area([[1, 0], [5, 0], [5, 3]]) == 6
'''),
 dict(id='help-mpe-zero', property='C32', edits=[(U,
"        summation += (predicted[i] - actual[i]) / actual[i]",
"        summation += (predicted[i] - actual[i]) / abs(actual[i])")],
  needs='a negative actual value', breaks='errors of negative values count the other way round',
  demo=PRE + '''
assert u.compute_mpe([-4., 4.], [-5., 4.]) == 12.5
'''),
 dict(id='help-unimodal-last', property='C32', edits=[(D,
"        if delta_T > 0:\n            unimodal = False",
"        # Rises of the sufficient fields do not matter\n        if delta_T > 0 and domain[i - 1] > 0:\n            unimodal = False")],
  needs='a rise after the first sufficient field', breaks='a domain that is not unimodal is taken for one',
  demo=PRE + '''
d, ok = dt.domains.verify_excess([3., -1., 0.5])
assert not ok
'''),
 dict(id='help-rect-width', property='C32', edits=[(U,
"        [[origin_x, origin_y], [origin_x + length_x, origin_y],",
"        [[origin_x, origin_y], [origin_x + length_x, 0 * length_x],")],
  needs='an origin off the x axis', breaks='a corner of the perimeter is on the x axis',
  demo=PRE + '''
r = u.make_rectangle_perimeter(3, 2, origin=(1, 5))
assert r[1] == [4, 5], r
'''),
 dict(id='help-dump-sorted', property='C32', edits=[(U,
"        json.dump(d, fp, indent=indent)", "        json.dump(d, fp, indent=indent, sort_keys=True, default=str,\n                  skipkeys=True)\n        fp.seek(0, 2)")],
  needs='keys that are not in alphabetical order', breaks='a file is read back in another order',
  demo=PRE + '''
with tempfile.TemporaryDirectory() as t:
    u.js_dump(t + '/f', {'b': 1, 'a': 2})
    assert list(u.js_load(t + '/f.json')) == ['b', 'a']
'''),
 dict(id='help-folder-wipe', property='C32', edits=[(U,
"def js_dump(file_name, d, indent=4):\n    with open(file_name + '.json', 'w') as fp:",
"def js_dump(file_name, d, indent=4):\n    with open(file_name + '.json', 'a') as fp:")],
  needs='a file written twice', breaks='a file written again is no longer readable',
  demo=PRE + '''
with tempfile.TemporaryDirectory() as t:
    u.js_dump(t + '/f', {'b': 1})
    u.js_dump(t + '/f', {'b': 2})
    assert u.js_load(t + '/f.json') == {'b': 2}
'''),
]
