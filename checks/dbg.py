import sys, json
from lib import *
# dbg.py image fn c iv-json [expect]
im, fn, c = sys.argv[1:4]
args = json.loads(sys.argv[4])
ll = compile_image(im, driver([fn], c))
if len(sys.argv) > 5 and sys.argv[5] == 'dump':
    subprocess.run([engine_path(), ll, '--dump'])
else:
    q = Q('q', 'w_%s_%s' % (fn, c), [], [], report=True, budget=1)
    q['args'] = [a if isinstance(a, dict) else {'iv': a} for a in args]
    q['expect'] = [{'out': 'ret', 'in': []}]
    r = run_queries(ll, [q])
    print(json.dumps(r['q'], indent=1)[:4000])
