"""Profile one job: python3-vt tools/prof.py PROP FN ['{"param": ...}'] """
import sys, os, json, time, cProfile, pstats
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import runner
jobs = [j for j in runner.jobs_for(sys.argv[1], "quick") if j["fn"] == sys.argv[2] and (len(sys.argv) < 4 or j["params"] == json.loads(sys.argv[3]))]
j = jobs[0]
j.update(deadline=time.time() + 600, seed=1, validate=4)
pr = cProfile.Profile()
pr.enable()
r = runner._run_job(j)
pr.disable()
print({k: r[k] for k in ("paths", "partial", "exceptions")})
pstats.Stats(pr).sort_stats("cumtime").print_stats(45)
