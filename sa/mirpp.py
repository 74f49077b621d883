"""Readable dump of the extracted MIR (debugging aid)."""
import json,sys
def load(p): return json.load(open(p))
class PP:
    def __init__(s,d): s.d=d
    def ty(s,i):
        if i==-1: return '?'
        t=s.d['types'][i]; k=t['k']
        if k in('int','uint','float'): return t['name']
        if k=='adt': return t['path'].split('::')[-1]+('<'+','.join(s.ty(a) for a in t['args'])+'>' if t['args'] else '')
        if k=='ref': return '&'+('mut ' if t['mut'] else '')+s.ty(t['t'])
        if k=='tuple': return '('+','.join(s.ty(a) for a in t['args'])+')'
        if k in('slice','array','ptr'): return k+'['+s.ty(t['t'])+']'
        if k=='param': return t['name']
        if k=='fndef': return 'fn '+t['path']
        return k+':'+t.get('s','')+t.get('key','')
    def pl(s,p):
        r='_%d'%p['l']
        for e in p['p']:
            k=e['k']
            r={'deref':lambda:'(*%s)'%r,'field':lambda:'%s.%s'%(r,e['n']),'index':lambda:'%s[_%d]'%(r,e['l']),'cindex':lambda:'%s[%d%s]'%(r,e['o'],'e' if e['fe'] else ''),'downcast':lambda:'(%s as %s)'%(r,e['n'])}.get(k,lambda:'%s.<%s>'%(r,k))()
        return r
    def op(s,o):
        if o['k'] in('copy','move'): return s.pl(o['p'])
        if 'fn' in o: return o['fn']['path']+' => '+str(o['fn'].get('respath'))
        return 'const('+str(o.get('str',o.get('bits',o.get('promoted',o.get('cpath','?')))))+':'+s.ty(o['t'])+')'
    def rv(s,r):
        k=r['k']
        if k=='use': return s.op(r['o'])
        if k=='ref': return '&'+('mut ' if r['mut'] else '')+s.pl(r['p'])
        if k=='bin': return '%s(%s, %s)'%(r['op'],s.op(r['a']),s.op(r['b']))
        if k=='un': return '%s(%s)'%(r['op'],s.op(r['o']))
        if k=='agg': return 'agg %s %s %s(%s)'%(r['ak'],r.get('path',r.get('key','')),r.get('vn',''),', '.join(map(s.op,r['ops'])))
        if k=='cast': return 'cast %s %s as %s'%(r['ck'],s.op(r['o']),s.ty(r['t']))
        if k=='discr': return 'discr '+s.pl(r['p'])
        if k=='rawptr': return '&raw '+s.pl(r['p'])
        return str(r)
    def body(s,b,ind=''):
        for i,t in enumerate(b['locals']): print(ind+'  let _%d: %s'%(i,s.ty(t)), [n['n'] for n in b['names'] if n['p']['l']==i and not n['p']['p']])
        for i,bl in enumerate(b['blocks']):
            if bl['c']: continue
            print(ind+' bb%d:'%i)
            for st in bl['st']:
                print(ind+'    ',(s.pl(st['p'])+' = '+s.rv(st['r'])) if st['k']=='assign' else st)
            t=bl['t'];k=t['k']
            if k=='call': print(ind+'     %s = call %s(%s) -> bb%d'%(s.pl(t['d']),s.op(t['f']),', '.join(map(s.op,t['a'])),t['t']))
            elif k=='switch': print(ind+'     switch',s.op(t['o']),t['ts'],'else',t['ot'])
            elif k=='assert': print(ind+'     assert',s.op(t['c']),t['e'],t['m'],'->',t['t'])
            else: print(ind+'    ',k,t.get('t',''), t.get('d',''))
if __name__=='__main__':
    d=load(sys.argv[1]); pp=PP(d)
    for f in d['fns']:
        if any(a in f['path'] for a in sys.argv[2:]):
            print('FN',f['path'],f.get('span'),'argc',f['body']['argc']); pp.body(f['body'])
            for i,p in enumerate(f['promoted']): print('  PROMOTED',i); pp.body(p,'    ')
