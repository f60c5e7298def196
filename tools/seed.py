#!/usr/bin/env python3
"""Maintain /verif/seeded (development only; no check reads it).
  seed.py new ID PROP 'needs' 'what it breaks'   capture /repo's diff as a seed and undo it
  seed.py try ID... [--notest] [--check CID,..]  demo must pass clean, fail patched; tests must pass; run checks
"""
import sys, os, subprocess, json, time
SE='/verif/seeded'
def sh(c, t=900, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)
def new(i, prop, needs, what):
    d=f'{SE}/{i}'; os.makedirs(d, exist_ok=True)
    diff=sh('git -C /repo diff').stdout
    assert diff.strip(), 'no diff'
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':what}, open(d+'/meta.json','w'), indent=1)
    sh('git -C /repo checkout -- .')
    assert os.path.exists(d+'/demo.sh'), 'write demo.sh first'
    os.chmod(d+'/demo.sh',0o755)
def build(): 
    r=sh('bash /opt/vp/build.sh')
    return r.returncode==0, r.stdout[-1500:]+r.stderr[-1500:]
def demo(i):
    sh(f'mkdir -p /tmp/seeddemo && cp -a {SE}/{i} /tmp/seeddemo/')
    r=sh(f'cd /repo && bash /tmp/seeddemo/{i}/demo.sh', 300)
    sh(f'find /tmp/seeddemo/{i} -delete')
    return r.returncode, (r.stdout+r.stderr)[-600:]
def trial(i, test=True, checks=None):
    meta=json.load(open(f'{SE}/{i}/meta.json'))
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    ok,o=build(); assert ok,o
    d0=demo(i)
    r=sh(f'git -C /repo apply {SE}/{i}/patch.diff'); assert r.returncode==0,r.stderr
    try:
        ok,o=build()
        if not ok: print(i,'BUILD FAILS',o); return
        d1=demo(i)
        print(f'{i}: demo clean={d0[0]} patched={d1[0]} {"OK" if d0[0]==0 and d1[0] else "BAD "+str((d0,d1))}', flush=True)
        if test:
            sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            res=json.load(open('/tmp/seedtest.json')); base=json.load(open('/opt/vp/BASELINE.json'))
            want=set(base['stable'])
            miss=want-set(res['passed'])
            print('   tests', 'all pass' if not miss else f'{len(miss)} FAIL {sorted(miss)[:3]}', flush=True)
        for c in (checks or [meta['property']]):
            t=time.time(); 
            try: r=sh(f'cd /verif && VERIF_TIER=quick timeout 900 bin/check {c}',901)
            except Exception as e: print('   ',c,e); continue
            print('   check',c,'rc',r.returncode,f'{time.time()-t:.0f}s',' | '.join(l[:220] for l in r.stdout.splitlines() if 'VIOLATION' in l or 'UNDEC' in l.upper())[:900], (r.stderr[-300:] if r.returncode not in(0,1) else ''), flush=True)
    finally:
        sh('git -C /repo checkout -- .'); build()
a=sys.argv
if a[1]=='new': new(*a[2:6])
else:
    ids=[x for x in a[2:] if not x.startswith('-')]; checks=None
    if '--check' in a: checks=a[a.index('--check')+1].split(','); ids.remove(a[a.index('--check')+1])
    for i in ids or sorted(os.listdir(SE)): trial(i,'--notest' not in a,checks)
