import json,sys,glob
def ty(t):
    if t is None: return '?'
    k=t[0]
    if k=='prim': return t[1]
    if k=='adt': return t[1].split('::')[-1]+('<'+','.join(ty(a) for a in t[2])+'>' if t[2] else '')
    if k=='ref': return '&'+('mut ' if t[1] else '')+ty(t[2])
    if k=='tuple': return '('+','.join(ty(a) for a in t[1])+')'
    if k=='slice': return '['+ty(t[1])+']'
    return str(t)[:80]
def main():
    pat=sys.argv[1]
    for f in glob.glob('/verif/work/facts/*.json'):
        d=json.load(open(f))
        for fn in d['fns']:
            if pat in fn['n'] or pat in fn['id']:
                print('FN',fn['n'],fn['id'],fn['g'],fn['file'],fn['line'])
                b=fn['body']
                if not b: continue
                for i,l in enumerate(b['locals']): print('  let',i,ty(l) if isinstance(l,list) else l)
                for i,bl in enumerate(b['blocks']):
                    if bl['cl']: continue
                    print(' bb',i)
                    for s in bl['s']: print('    ',json.dumps(s)[:300])
                    print('     T',json.dumps(bl['t'])[:700])
main()
