"""developer's aid: python -m vlib.try CXX SEED N"""
import sys, time, collections
import hypothesis
from hypothesis import given, settings, HealthCheck
from vlib.props import load
from vlib.shard import judge
from vlib.client import WORKER
pid, sd, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
P = load(pid)
C = collections.Counter(); fails = []; nt = [0, 0]
t = time.time()
for name, c in P.regressions():
    v = judge(P, c)
    print('reg', name, v.fails, [k[0] for k in v.known])
if n:
    @hypothesis.seed(sd)
    @settings(max_examples=n, database=None, deadline=None, phases=(hypothesis.Phase.generate,), suppress_health_check=list(HealthCheck))
    @given(P.strategy())
    def go(c):
        v = judge(P, c); C.update(v.cls); nt[0] += v.nontrivial; nt[1] += v.units
        if v.fails:
            fails.append((v.fails, c))
    go()
    print('cases', n, 'nontrivial', nt[0], 'units', nt[1], 'time %.1f' % (time.time() - t))
    for k in sorted(C): print('  ', k, C[k])
    print('FAILS', len(fails))
    for f, c in fails[:4]:
        print(f[:3]); print('   ', str(c)[:1800])
WORKER.stop()
