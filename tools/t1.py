import sys, os; sys.path.insert(0, '/verif')
import vlib, time
t = time.time()
defs = os.environ.get('DEFS', '').split()
so, bl, info = vlib.build_target(sys.argv[1], [x for x in sys.argv[2].split(",") if x != "-"], defs=defs)
print(so, bl, info, time.time() - t)
