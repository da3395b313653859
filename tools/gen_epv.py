"""Freeze the epv00 coefficients from the SOFA Fortran source into the reference model's table.
usage: gen_epv.py epv00.for > harness/src/refm/epv_tables.rs   (run once; the output is committed)"""
import re,sys
src=open(sys.argv[1]).read()
lines=[]
for l in src.split('\n'):
    if l[:1] in '*Cc!': continue
    l=l.rstrip()
    if len(l)>5 and l[5] not in ' 0' and l[:5].strip()=='' and lines:
        lines[-1]+=' '+l[6:]
    else:
        lines.append(l)
want={'E0':(501,501,137),'E1':(79,80,12),'E2':(5,5,3),'S0':(212,213,69),'S1':(50,50,14),'S2':(9,9,2)}
tab={}
for l in lines:
    m=re.match(r'\s+DATA \(\((\w\d)\(I,J,(\d)\),I=1,3\),J=\s*(\d+),\s*(\w+)\)\s*/(.*)/\s*$',l)
    if not m: continue
    n,k,a,b=m.group(1),int(m.group(2)),int(m.group(3)),m.group(4)
    b=int(b) if b.isdigit() else want[n][k-1]
    v=[float(x.replace('D','e')) for x in m.group(5).replace(' ','').split(',')]
    assert len(v)==3*(b-a+1),(l[:80],len(v))
    t=tab.setdefault((n,k),[])
    assert len(t)==a-1
    for i in range(0,len(v),3): t.append(v[i:i+3])
for n,w in want.items():
    for k in (1,2,3):
        assert len(tab[(n,k)])==w[k-1],(n,k,len(tab[(n,k)]))
print('// Generated by tools/gen_epv.py from the SOFA epv00.for: (amplitude, phase, frequency) per term')
print('pub type Terms = &\'static [(f64, f64, f64)];')
for n in want:
    for k in (1,2,3):
        print('pub static %s_%s: Terms = &['%(n,'XYZ'[k-1]))
        for r in tab[(n,k)]: print('    (%r, %r, %r),'%tuple(r))
        print('];')
