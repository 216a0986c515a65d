#!/usr/bin/env python3
"""Writes the per-type part of contracts/fixture.vc from records.go: what the body of a record is."""
import re
src=open('/repo/records.go').read()
kinds="SiteRecord LinkRecord RouterRecord ListenerRecord ConnectorRecord ProcessRecord FlowRecord LogRecord".split()
out=[];defs=[];ens=[];loops=[]
N=5
for k in kinds:
    body=re.search(r'type %s struct \{(.*?)\n\}'%k,src,re.S).group(1)
    fs=['BaseRecord.ID','BaseRecord.StartTime','BaseRecord.EndTime']
    for l in body.strip().split('\n'):
        l=l.strip()
        if l=='BaseRecord' or not l or l.startswith('//'): continue
        fs.append(l.split()[0])
    t='vanflow.'+k
    out.append('fun parsed%s([]byte) %s'%(k,t))
    for n in range(0,len(fs),N):
        d='%s%d'%(k,n//N)
        out.append('def body%s(b: []byte, v: any) = is(v, *%s) ==> let p = as(v, *%s) :: let w = parsed%s(b) :: allocated(p) && '%(d,t,t,k)+' && '.join('p.%s == w.%s'%(f,f) for f in fs[n:n+N]))
        defs.append('body%s(b, v)'%d)
        ens.append('  ensures %s: forall i: int :: 0 <= i && i < len(request.Data) && kept(request.Data[i]) ==> let e = request.Data[i] :: body%s(e.Record, recordof(r, e, kepts(request.Data, e.Meta.Source, i)))'%(d,d))
        loops.append('  loop %s(i: int, m: map[store.SourceRef][]store.Entry): forall j: int :: 0 <= j && j <= i && kept(request.Data[j]) ==> let e = request.Data[j] :: body%s(e.Record, recordof(m, e, kepts(request.Data, e.Meta.Source, j)))'%(d,d))
out.append('def body(b: []byte, v: any) = '+' && '.join(defs))
p='/verif/contracts/fixture.vc'
s=open(p).read()
for a,b,x in (('// generated by tools/gen_fixture.py from here\n','// to here\n',out),('  // each record is what its body says\n','  // where they are\n',ens+loops)):
    i=s.index(a)+len(a); j=s.index(b)
    s=s[:i]+'\n'.join(x)+'\n'+s[j:]
open(p,'w').write(s)
