#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property against /repo's working tree.

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken; other: error of the check.
VERIF_TIER=quick|thorough. check.py --replay FILE repeats a reported violation."""
import hashlib, json, os, signal, subprocess, sys, time
# a check started in the background of a shell inherits ignored signals, and what it starts would too
signal.signal(signal.SIGINT,signal.default_int_handler)
for s in (signal.SIGQUIT,signal.SIGHUP,signal.SIGTERM): signal.signal(s,signal.SIG_DFL)
signal.pthread_sigmask(signal.SIG_SETMASK,[])
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
os.environ.setdefault('LC_ALL','C.UTF-8')
from lib import registry, build
from lib.runner import Ctx
def main():
    a=sys.argv[1:]
    if a and a[0]=='--replay': return replay(a[1])
    pid=a[0]
    tier=os.environ.get('VERIF_TIER','quick')
    if len(a)>1: tier=a[1]
    if pid not in registry.CHECKS: print('unknown property',pid); return 2
    ctx=Ctx(pid,tier)
    try:
        registry.CHECKS[pid](ctx)
    except build.BuildError as e:
        print(str(e)); print('ERROR: %s: the code under test does not build with the harness'%pid); return 2
    return ctx.finish()
def replay(f):
    r=json.load(open(f))
    if 'case' in r:
        ctx=Ctx(r['property'],r['tier'],only=r['case'],shard=r.get('shard'),job=r.get('job'))
        registry.CHECKS[r['property']](ctx)
        return ctx.finish(write=False)
    return 2
if __name__=='__main__':
    sys.exit(main())
