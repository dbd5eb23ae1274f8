"""Development aid: run many cases of a check and list the distinct failures without shrinking."""
import sys, os, json, random, importlib, shutil
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
from vp import core, build as B
from vp.core import *
import multiprocessing
pid = sys.argv[1]; N = int(sys.argv[2]); seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
chk = importlib.import_module("vp.checks." + pid.lower()).CHECK
exe = B.build(chk.BUILD); chk.setup(exe); root = core._scratch(); exe = shutil.copy2(exe, root + "/armips")
def w(k):
    env = Env(exe, root + "/w%d" % k, timeout=chk.TIMEOUT, environ=chk.ENVIRON, limits=chk.LIMITS, unprivileged=chk.UNPRIVILEGED, stack=chk.STACK); out = []
    for i in range(k, N, 8):
        s = Src(random.Random("%d:%s:%d" % (seed, chk.ID, i)))
        try: c = chk.gen(s)
        except Exception as e: out.append("GEN " + traceback.format_exc()); continue
        f = run_case(chk, c, env)[3]
        if f:
            out.append(f.msg)
            if os.environ.get("SURVEY_OUT"): open(os.environ["SURVEY_OUT"], "a").write(json.dumps([i, f.msg, chk.render(c)]) + "\n")
    return out
with multiprocessing.get_context("fork").Pool(8) as p: R = [m for o in p.map(w, range(8)) for m in o]
shutil.rmtree(root)
print(len(R), "failures of", N)
if len(sys.argv) > 5:
    import collections
    for m, n in collections.Counter(R).most_common(int(sys.argv[4])): print(n, "*", m[:700])
    sys.exit()
for m in R[:int(sys.argv[4]) if len(sys.argv) > 4 else 60]: print("*", m[:700])
