"""Development runner: python3-vt run1.py LLDIR HARNESS..."""
import sys, glob, time
sys.setrecursionlimit(20000)
import explore
t = time.time()
ps = sorted(glob.glob(sys.argv[1] + '/*.ll'))
explore.load_program(ps)
print('load %.2f' % (time.time() - t))
for h in sys.argv[2:]:
    r = explore.explore(h, deadline=time.time() + 300, verbose=True, sample_every=3)
    print(h, 'paths', r.paths, r.ends, 'viol', len(r.violations), 'err', r.errors, 'segs', r.segs, 'q', r.stats.queries, 'st %.2f' % r.stats.solver_time, 'time %.2f' % r.time, 'covers', r.stats.covers, 'maxpc', r.stats.maxpc)
    for v in r.violations:
        print('   ', v['kind'], v['msg'][:300], v['inputs'], v['panic'])
        for w in v['where'][:12]: print('       ', w)
