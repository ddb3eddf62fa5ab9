"""Writes schemas/exr.zs and harness/c16/pairs.go: all pairs of operators, and random
expressions, with the value they have according to the precedence in the zserio grammar
(python3 tools/genc16.py; gofmt -w harness/c16)."""
import random
random.seed(16)
INT=['+','-','*','/','%','<<','>>','&','^','|']
CMP=['<','<=','>','>=','==','!=']
LOG=['&&','||']
PREC={'*':10,'/':10,'%':10,'+':9,'-':9,'<<':8,'>>':8,'<':7,'<=':7,'>':7,'>=':7,'==':6,'!=':6,'&':5,'^':4,'|':3,'&&':2,'||':1,'?':0}
FIELDS={'a':('uint8',0,255),'b':('int8',-128,127),'c':('uint16',0,65535),'d':('int16',-32768,32767),'e':('uint32',0,2**32-1),
        'f':('int32',-2**31,2**31-1),'s':('bit:3',0,7),'g':('int:7',-64,63)}
BOOLS='pqr'
class Bad(Exception): pass

def zs(t, up=-1):
    k=t[0]
    if k=='leaf': s,p=t[1],20
    elif k=='un': s,p=t[1]+zs(t[2],11),11; s=s.replace('--','- -').replace('++','+ +')
    elif k=='?': s,p='%s ? %s : %s'%(zs(t[1],1),zs(t[2],0),zs(t[3],0)),0
    else: p=PREC[k]; s='%s %s %s'%(zs(t[1],p),k,zs(t[2],p+1))
    return '(%s)'%s if p<up else s

def go(t, pre):
    """the value in Go and its range; appends assumptions to pre"""
    k=t[0]
    if k=='leaf':
        n=t[1]
        if n in FIELDS: return 'I(v.%s)'%n.upper(),FIELDS[n][1:]
        if n in BOOLS: return 'bool(v.%s)'%n.upper(),None
        return n,((int(n),int(n)) if n not in('true','false') else None)
    if k=='un':
        x,r=go(t[2],pre); o=t[1]
        if o=='!': return '(!%s)'%x,None
        if o=='-': return '(-%s)'%x,(-r[1],-r[0])
        if o=='~': return '(^%s)'%x,(-1-r[1],-1-r[0])
        return x,r
    if k=='?':
        c,_=go(t[1],pre); x,rx=go(t[2],pre); y,ry=go(t[3],pre)
        if rx is None: return '((%s && %s) || (!%s && %s))'%(c,x,c,y),None
        return 'pick(%s, %s, %s)'%(c,x,y),(min(rx[0],ry[0]),max(rx[1],ry[1]))
    x,rx=go(t[1],pre); y,ry=go(t[2],pre)
    s='(%s %s %s)'%(x,k,y)
    if k in CMP or k in LOG: return s,None
    if rx[0]==rx[1] and ry[0]==ry[1]: raise Bad()   # constant
    c=[(i,j) for i in rx for j in ry]
    if k=='+': r=rx[0]+ry[0],rx[1]+ry[1]
    elif k=='-': r=rx[0]-ry[1],rx[1]-ry[0]
    elif k=='*': r=min(i*j for i,j in c),max(i*j for i,j in c)
    elif k in '/%':
        if ry==(0,0): raise Bad()
        if ry[0]<=0<=ry[1]: pre.append('%s != 0'%y)
        m=max(abs(rx[0]),abs(rx[1])); r=-m,m
        if rx[0]>=0 and ry[0]>=0: r=0,m
    elif k in('<<','>>'):
        if ry[0]<0 or ry[1]>20:
            if ry[1]<0 or ry[0]>20: raise Bad()
            pre.append('%s >= 0'%y); pre.append('%s <= 20'%y); ry=(0,20)
        if k=='<<': r=min(rx[0],rx[0]<<ry[1]),max(rx[1],rx[1]<<ry[1])
        else: r=min(rx[0],0),max(rx[1],0)
    else:
        n=max(abs(v) for v in rx+ry).bit_length(); r=(-(1<<n) if min(rx+ry)<0 else 0),(1<<n)-1
    if not(-2**63<=r[0] and r[1]<2**63): raise Bad()
    return s,r

def div(x,y):
    q=abs(x)//abs(y)
    return q if (x<0)==(y<0) else -q
def ev(t,env):
    k=t[0]
    if k=='leaf': return env[t[1]] if t[1] in env else int(t[1])
    v=[ev(x,env) for x in t[1:] if isinstance(x,tuple)]
    if k=='un': return {'-':lambda x:-x,'+':lambda x:x,'~':lambda x:~x,'!':lambda x:not x}[t[1]](*v)
    if k=='?': return v[1] if v[0] else v[2]
    if k in('<<','>>') and not 0<=v[1]<=20: raise ZeroDivisionError
    return {'+':lambda x,y:x+y,'-':lambda x,y:x-y,'*':lambda x,y:x*y,'/':div,'%':lambda x,y:x-div(x,y)*y,'<<':lambda x,y:x<<y,'>>':lambda x,y:x>>y,
      '&':lambda x,y:x&y,'|':lambda x,y:x|y,'^':lambda x,y:x^y,'<':lambda x,y:x<y,'<=':lambda x,y:x<=y,'>':lambda x,y:x>y,'>=':lambda x,y:x>=y,
      '==':lambda x,y:x==y,'!=':lambda x,y:x!=y,'&&':lambda x,y:x and y,'||':lambda x,y:x or y}[k](*v)
rs=random.Random(5)
def possible(t):
    """some operands satisfy all assumptions"""
    for _ in range(300):
        env={f:rs.choice([rs.randint(lo,hi),rs.randint(max(lo,-9),min(hi,20))]) for f,(_,lo,hi) in FIELDS.items()}
        env.update({b:rs.random()<.5 for b in BOOLS})
        try: ev(t,env); return True
        except ZeroDivisionError: pass
    return False

L=lambda n:('leaf',n)
trees=[]
def pick(fs): return L(random.choice(fs))
ILEAF=['a','b','c','d','s','g']
def leaves(k,n,right):
    """operands that keep the value within 64 bits"""
    return pick(['s']) if right and k in('<<','>>') else pick(n)
for o1 in INT:
    for o2 in INT:
        for shape in 0,1:
            for _ in range(300):
                if shape==0: t=(o2,(o1,pick(ILEAF),leaves(o1,ILEAF,1)),leaves(o2,ILEAF,1))
                else:
                    sub=['s','s','s'] if o1 in('<<','>>') else ILEAF
                    t=(o1,pick(ILEAF),(o2,pick(sub),leaves(o2,sub,1)))
                try: go(t,[])
                except Bad: continue
                if not possible(t): continue
                trees.append((t,'int64')); break
            else: print('none',o1,o2,shape)
    for c in CMP:
        trees.append(((c,(o1,pick(ILEAF),leaves(o1,ILEAF,1)),pick(ILEAF)),'bool'))
        trees.append(((c,pick(ILEAF),(o1,pick(ILEAF),leaves(o1,ILEAF,1))),'bool'))
    for u in '-+~':
        trees.append((('un',u,(o1,pick(ILEAF),leaves(o1,ILEAF,1))),'int64'))
        trees.append(((o1,('un',u,pick(ILEAF)),leaves(o1,ILEAF,1)),'int64'))
        trees.append(((o1,pick(ILEAF),('un',u,pick(['b','g']))),'int64'))
for b1 in LOG+['==','!=']:
    for b2 in LOG+['==','!=']:
        trees.append(((b2,(b1,L('p'),L('q')),L('r')),'bool')); trees.append(((b1,L('p'),(b2,L('q'),L('r'))),'bool'))
    for c in CMP:
        trees.append(((b1,(c,pick(ILEAF),pick(ILEAF)),L('p')),'bool')); trees.append(((b1,L('p'),(c,pick(ILEAF),pick(ILEAF))),'bool'))
        trees.append(((b1,('un','!',(c,pick(ILEAF),pick(ILEAF))),L('q')),'bool'))
def rnd(ty,d):
    if ty=='int':
        if d==0 or random.random()<.15: return pick(list(FIELDS)) if random.random()<.8 else L(str(random.choice([0,1,2,3,7,10,200,255,256,1000,70000])))
        x=random.random()
        if x<.12: return ('un',random.choice('-+~'),rnd('int',d-1))
        if x<.24: return ('?',rnd('bool',d-1),rnd('int',d-1),rnd('int',d-1))
        return (random.choice(INT),rnd('int',d-1),rnd('int',d-1))
    if d==0 or random.random()<.1: return pick(BOOLS)
    x=random.random()
    if x<.15: return ('un','!',rnd('bool',d-1))
    if x<.25: return ('?',rnd('bool',d-1),rnd('bool',d-1),rnd('bool',d-1))
    if x<.6: return (random.choice(CMP),rnd('int',d-1),rnd('int',d-1))
    return (random.choice(LOG+['==','!=']),rnd('bool',d-1),rnd('bool',d-1))
def size(t): return 1 if t[0]=='leaf' else 1+sum(size(x) for x in t[1:] if isinstance(x,tuple))
pairs=len(trees)
n=0
while n<240:
    ty=random.choice(['int','bool']); t=rnd(ty,4)
    if not 7<=size(t)<=24: continue
    try:
        go(t,[])
    except Bad: continue
    if not possible(t): continue
    trees.append((t,'int64' if ty=='int' else 'bool')); n+=1

out=['package exr;\n','// Written by tools/genc16.py.\n','struct Ops {']
for f,(ty,_,_) in FIELDS.items(): out.append('    %s %s;'%(ty,f))
for b in BOOLS: out.append('    bool %s;'%b)
gos=['// Written by tools/genc16.py.\n\npackage c16\n\nimport (\n\t"gen/zs/exr"\n\n\t"verif/sv"\n)\n\nfunc ops() *exr.Ops {\n\tv := &exr.Ops{A: sv.U8("a"), B: sv.I8("b"), C: sv.U16("c"), D: sv.I16("d"), E: sv.U32("e"), F: sv.I32("f"), S: sv.U8("s") & 7, G: sv.I8("g"), P: sv.Bool("p"), Q: sv.Bool("q"), R: sv.Bool("r")}\n\tsv.Assume(sv.And(v.G >= -64, v.G < 64))\n\treturn v\n}\n']
for i,(t,ty) in enumerate(trees):
    if i%20==0 and i<pairs or i>=pairs:
        if i: gos.append('}\n')
        gos.append('func C16_%s%03d() {\n\tvar v *exr.Ops'%(('Pairs',i//20) if i<pairs else ('Random',i-pairs)))
    pre=[]
    try: e,_=go(t,pre)
    except Bad: raise
    out.append('    function %s x%d() { return %s; }'%(ty,i,zs(t)))
    gos.append('\tv = ops()')
    for p in pre: gos.append('\tsv.Assume(%s)'%p)
    gos.append('\tsv.Assert(v.X%d() == %s, "%s")'%(i,e,zs(t).replace('"','')))
gos.append('}\n')
out.append('};')
open('/verif/schemas/exr.zs','w').write('\n'.join(out)+'\n')
open('/verif/harness/c16/pairs.go','w').write('\n'.join(gos))
print(len(trees))
