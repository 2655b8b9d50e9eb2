import importlib, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "..", "lib"), here]
sys.dont_write_bytecode = True
from pica import run_check
prop = sys.argv[1]
m = importlib.import_module(prop.lower())
sys.exit(run_check(m.check, prop))
