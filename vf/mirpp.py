import json,sys
def tys(t):
    k=t['k']
    if k=='adt': return t['name'].split('::')[-1]+('<'+','.join(tys(a) for a in t['args'])+'>' if t['args'] else '')
    if k in('int','float'): return t['n']
    if k=='ref': return '&'+('mut ' if t['m'] else '')+tys(t['t'])
    if k=='tuple': return '('+','.join(map(tys,t['ts']))+')'
    if k in('slice',): return '['+tys(t['t'])+']'
    if k=='array': return '['+tys(t['t'])+';'+t['n']+']'
    if k=='fndef': return 'fn:'+(t['f']['inst'] or t['f']['def'])
    if k=='closure': return 'closure:'+t['name']
    if k=='ptr': return '*'+tys(t['t'])
    if k=='const': return t['v']
    if k=='other': return t['d'][:60]
    return k
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='deref': s='(*%s)'%s
        elif e[0]=='field': s+='.%d'%e[1]
        elif e[0]=='downcast': s+='@%d'%e[1]
        else: s+='[%s]'%(','.join(map(str,e)))
    return s
def op(o):
    if o[0] in('copy','move'): return pl(o[1])
    if o[0]=='const': return 'const(%s,%s)'%(tys(o[1]),json.dumps(o[2])[:80])
    return str(o)
def rv(r):
    if r[0]=='use': return op(r[1])
    if r[0]=='ref': return '&'+('mut ' if r[1] else '')+pl(r[2])
    if r[0] in('bin','cbin'): return '%s %s(%s,%s)'%(r[0],r[1],op(r[2]),op(r[3]))
    if r[0]=='un': return '%s(%s)'%(r[1],op(r[2]))
    if r[0] in('discr','len','addr'): return '%s(%s)'%(r[0],pl(r[1]))
    if r[0]=='cast': return 'cast %s (%s) as %s'%(r[1],op(r[2]),tys(r[3]))
    if r[0]=='agg':
        k=r[1]; n=k['k']
        if n=='adt': n=tys(k['ty'])+'#%d'%k['v']
        if n=='closure': n='closure '+k['ty']['name']
        return n+'{'+', '.join(map(op,r[2]))+'}'
    return str(r)
def pp(fn):
    print('fn',fn['name'],fn['kind'],'argc',fn['argc'],'spread',fn['spread'],fn['file'],fn['line'])
    for i,t in enumerate(fn['locals']): print('   let _%d: %s'%(i,tys(t)))
    for d in fn['debug']: print('   debug',d[0],pl(d[1]))
    for i,b in enumerate(fn['blocks']):
        print(' bb%d: (line %d)'%(i,b['line']))
        for s in b['s']:
            if s[0]=='assign': print('    %s = %s'%(pl(s[1]),rv(s[2])))
            else: print('    ',s)
        t=b['t']
        if t[0]=='call': print('    %s = call %s(%s) -> bb%s'%(pl(t[3]),op(t[1]) if t[1][0]!='const' else (t[1][1]['f']['inst'] or t[1][1]['f']['def']),', '.join(map(op,t[2])),t[4]))
        elif t[0]=='switch': print('    switch %s %s else %d'%(op(t[1]),t[2],t[3]))
        elif t[0]=='drop': print('    drop',pl(t[1]),'-> bb',t[2])
        elif t[0]=='assert': print('    assert',op(t[1]),t[2],t[3][:60],'->',t[4])
        else: print('    ',t)
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for fn in d['fns']:
        if sys.argv[2] in fn['name']: pp(fn)
