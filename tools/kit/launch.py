"""Start a script of the program with map drawing switched off (no downloads)."""
import os
import runpy
import sys

sys.path.pop(0)
if os.environ.get('KIT_HUB'):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cartopy.mpl.geoaxes as g
import matplotlib.figure
import matplotlib.pyplot

for n in ('coastlines', 'add_feature'):
    setattr(g.GeoAxes, n, lambda *a, **k: None)
for o in (matplotlib.figure.Figure, matplotlib.pyplot):
    o.savefig = lambda *a, **k: None
script = sys.argv[1]
sys.argv = sys.argv[1:]
sys.path.insert(0, os.path.dirname(script))
runpy.run_path(script, run_name='__main__')
