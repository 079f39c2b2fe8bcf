import json,sys,glob
for p in (sys.argv[1:] or sorted(glob.glob('/verif/evidence/replay/*'))):
    d=json.load(open(p)); print('==',p,d['what'][:300])
    se=d.get('stderr','')
    L=[l for l in se.splitlines() if 'error' in l.lower() or '#' in l and '/repo' in l or 'driver' in l]
    print('\n'.join(l[:220] for l in L[:14]))
    for h in d.get('history',[])[-4:]: print('  H',h[:500])
