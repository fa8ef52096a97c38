"""One-off generator of qmon/reftable.py: hand-written definitions (unitdefs.txt)
joined with the public labels/attributes of the library at the pinned commit."""
import sys, re, warnings
warnings.simplefilter('ignore')
sys.path.insert(0,'/repo'); sys.dont_write_bytecode=True
import quantities as pq
from quantities.registry import unit_registry
from fractions import Fraction as F
R=unit_registry._UnitRegistry__registry._Registry__context
defs=[]
for l in open('/verif/tools/unitdefs.txt'):
    l=l.split('#')[0].strip() if l.startswith('#') else l.strip()
    if not l: continue
    p=[x.strip() for x in l.split(' :')]
    defs.append((p[0],p[1],p[2] if len(p)>2 else ''))
attrs={k:v for k,v in vars(pq).items() if isinstance(v,pq.UnitQuantity)}
seen=set();rows=[]
num=re.compile(r'\b\d+\.?\d*(?:e[+-]?\d+)?')
PI=F('3.14159265358979323846264338327950288419716939937510582097494459')
SQ10=F('3.16227766016837933199889354443271853372067247945291')
for name,ex,dim in defs:
    val=eval(num.sub(lambda m:"F('%s')"%m.group(),ex.replace('SQ10','SQT')),{'F':F,'PI':PI,'SQT':SQ10})
    o=attrs.get(name)
    if o is None or name=='(pc/cm**3)': o = pq.pc_per_cc if name.startswith('(') else R.get(name)
    assert o is not None,name
    assert id(o) not in seen,name
    seen.add(id(o))
    labels=[k for k,v in R.items() if v is o]
    al=[k for k,v in attrs.items() if v is o]
    d={}
    for t in dim.split():
        m=re.fullmatch(r'([a-zA-Z]+)(-?[\d.]+)?',t); d[m.group(1)]=F(m.group(2) or 1)
    if name!='dimensionless':
        s=o.simplified
        assert abs(float(s.magnitude)/float(val)-1)<1e-12 or print('VALUE',name,float(s.magnitude),float(val)),name
        got={u.symbol:F(e) for u,e in s.dimensionality.items()}
        got.pop('dimensionless',None)
        assert got==d or print('DIM',name,got,d)
    rows.append((name,labels,al,ex,dim))
miss=[v.name for v in R.values() if isinstance(v,pq.UnitQuantity) and id(v) not in seen]
miss+=[k for k,v in attrs.items() if id(v) not in seen]
print('missing',sorted(set(miss)))
with open('/verif/qmon/reftable.py','w') as f:
    f.write('# Reference table of units (written independently of the library, see tools/unitdefs.txt).\n# (name, labels that must parse, module attributes, SI value, SI dimension)\nROWS = [\n')
    for r in rows: f.write(' %r,\n'%(r,))
    f.write(']\n')
print(len(rows),sum(len(r[1]) for r in rows))
