"""Writes schemas/mem.zs and harness/c16/members.go: random expressions over members,
elements, parameters, functions, constants and operators with values, in functions and
conditions (python3 tools/genc16m.py; gofmt -w harness/c16)."""
import re, random
src=open('/verif/tools/genc16.py').read()
exec(src[:src.index('L=lambda')].replace("max(lo,-9),min(hi,20)","max(lo,min(hi,-9)),min(hi,max(lo,20))").replace('n.upper()','n').replace("random.seed(16)","random.seed(77)"))
# name -> (zserio, Go, lo, hi)
LEAVES={
 'm0':('n.x','I(v.N.X)',0,255), 'm1':('n.y','I(v.N.Y)',-32768,32767), 'm2':('n.z','I(v.N.Z)',0,31),
 'm3':('n.d.u','I(v.N.D.U)',0,65535), 'm4':('n.d.w','I(v.N.D.W)',-128,127), 'm5':('n.g()','I(v.N.Y)',-32768,32767),
 'm6':('n.d.sum()','(I(v.N.D.U)+I(v.N.D.W))',-128,65535+127), 'm7':('xs[0]','I(v.Xs[0])',-128,127), 'm8':('ps[1].y','I(v.Ps[1].Y)',-32768,32767),
 'm9':('ps[0].d.u','I(v.Ps[0].D.U)',0,65535), 'm10':('k','I(v.K)',0,255), 'm11':('hp.x','I(v.Hp.X)',0,255), 'm12':('hp.d.w','I(v.Hp.D.W)',-128,127),
 'm13':('lengthof(as)','int64(len(v.As))',0,2), 'm14':('valueof(e)','I(v.E)',-100,90), 'm15':('valueof(n.e)','I(v.N.E)',-100,90),
 'm16':('own()','(I(v.O)-1)',-1,65534), 'm17':('MINUS','int64(-5)',-5,-5), 'm18':('BIG','int64(70000)',70000,70000), 'm19':('o','I(v.O)',0,65535),
 'm20':('valueof(n.c)','I(v.N.C)',0,7), 'm21':('t','I(v.T)',-32,31), 'm22':('xs[lengthof(as)]','I(v.Xs[len(v.As)])',-128,127), 'm23':('p5','I(v.P5)',0,31),
}
FIELDS={k:('',lo,hi) for k,(_,_,lo,hi) in LEAVES.items()}
BL={'b0':('n.b','v.N.B'),'b1':('hp.b','v.Hp.B'),'b2':('n.pos()','(v.N.Y > 0)'),'b3':('bs[1]','v.Bs[1]'),'b4':('isset(n.c, Caps.W)','(v.N.C&2 == 2)'),
 'b5':('n.e == E.MID','(v.N.E == 0)'),'b6':('e != n.e','(v.E != v.N.E)'),'b7':('fl','v.Fl'),'b8':('hp.e == e','(v.Hp.E == v.E)')}
BOOLS=list(BL)
L=lambda n:('leaf',n)
def pickl(fs): return L(random.choice(list(fs)))
def rnd(ty,d):
    if ty=='int':
        if d==0 or random.random()<.1: return pickl(FIELDS) if random.random()<.9 else L(str(random.choice([0,1,2,3,7,10,200,255,256,1000,70000])))
        x=random.random()
        if x<.1: return ('un',random.choice('-+~'),rnd('int',d-1))
        if x<.2: return ('?',rnd('bool',d-1),rnd('int',d-1),rnd('int',d-1))
        return (random.choice(INT),rnd('int',d-1),rnd('int',d-1))
    if d==0 or random.random()<.1: return pickl(BOOLS)
    x=random.random()
    if x<.15: return ('un','!',rnd('bool',d-1))
    if x<.25: return ('?',rnd('bool',d-1),rnd('bool',d-1),rnd('bool',d-1))
    if x<.7: return (random.choice(CMP),rnd('int',d-1),rnd('int',d-1))
    return (random.choice(LOG+['==','!=']),rnd('bool',d-1),rnd('bool',d-1))
def size(t): return 1 if t[0]=='leaf' else 1+sum(size(x) for x in t[1:] if isinstance(x,tuple))
# compound boolean leaves bind like comparisons
def zsl(t):
    s=zs(t)
    for k,(z,_) in BL.items(): s=re.sub(r'\b%s\b'%k,z if z.endswith(')') or re.fullmatch(r'[\w.\[\]]+',z) else '(%s)'%z,s)
    return re.sub(r'\bm\d+\b',lambda m:LEAVES[m[0]][0],s)
def gol(s):
    s=re.sub(r'bool\(v\.(b\d)\)',lambda m:BL[m[1]][1],re.sub(r'bool\(v\.B(\d)\)',r'bool(v.b\1)',s))
    return re.sub(r'I\(v\.(m\d+)\)',lambda m:LEAVES[m[1]][1],s)
def okay(t):
    try: go(t,[])
    except Bad: return False
    # constants alone are evaluated by the generator: C17
    for x in subs(t):
        if x[0] in CMP and all(isconst(y) for y in x[1:]): return False
    # a shift by a constant that cannot be is an error of the schema
    return possible(t)
def subs(t):
    yield t
    for x in t[1:]:
        if isinstance(x,tuple): yield from subs(x)
def isconst(t): return all(x[0]!='leaf' or x[1] in('m17','m18') or x[1].isdigit() for x in subs(t))
trees=[]
for o in INT+CMP:                  # every operator with members of different types
    n=0
    while n<4:
        t=(o,pickl(['m0','m1','m3','m4','m8','m9','m12','m15','m21']),pickl(['m0','m1','m3','m4','m7','m8','m11','m13','m21']) if o not in('<<','>>') else pickl(['m13','m20']))
        if t[1]!=t[2] and okay(t): trees.append((t,'int64' if o in INT else 'bool')); n+=1
while len(trees)<160:
    ty=random.choice(['int','bool']); t=rnd(ty,3)
    if not 3<=size(t)<=14 or isconst(t): continue
    if not okay(t): continue
    trees.append((t,'int64' if ty=='int' else 'bool'))
out=['''package mem;

// Written by tools/genc16m.py.

const int16 MINUS = -5;
const uint32 BIG = 70000;
enum int8 E { LOW = -100, MID = 0, HIGH = 90 };
bitmask bit:3 Caps { R, W, X };
subtype uint16 Sub;
subtype int:6 Tiny;
struct Deep { uint16 u; int8 w; function int32 sum() { return u + w; } };
struct In {
    uint8 x; int16 y; bit:5 z; Deep d; bool b; E e; Caps c;
    function int16 g() { return y; }
    function bool pos() { return y > 0; }
};
struct Ops(uint8 k, In hp, bit:5 p5) {
    In n; int8 xs[3]; In ps[2]; uint32 as[]; E e; Sub o; bool bs[2]; Tiny t; bool fl;''']
out.append('    function int32 own() { return o - 1; }')
gos=['''// Written by tools/genc16m.py.

package c16

import (
	"gen/zs/mem"

	"verif/sv"
)

//sv:bound 160 expressions over members, members of members, elements of arrays (also at an index that is an expression), parameters, members of parameters, functions, constants, subtypes, valueof, lengthof, isset (schemas/mem.zs); 24 of them as conditions

func memberE(name string) mem.E { return []mem.E{-100, 0, 90}[sv.Choose(name, 3)] }

func memberIn(vary bool) mem.In {
	v := mem.In{X: sv.U8("x"), Y: sv.I16("y"), Z: sv.U8("z") & 31, B: sv.Bool("b"), C: mem.Caps(sv.U8("c") & 7)}
	v.D = mem.Deep{U: sv.U16("u"), W: sv.I8("w")}
	v.E = mem.E(sv.I8("e"))
	sv.Assume(sv.Or(v.E == -100, sv.Or(v.E == 0, v.E == 90)))
	return v
}

func members(n int) *mem.Ops {
	v := &mem.Ops{K: sv.U8("k"), P5: sv.U8("p5") & 31, O: sv.U16("o"), E: mem.E(sv.I8("e")), Fl: sv.Bool("fl"), T: mem.Tiny(sv.I8("t"))}
	sv.Assume(sv.And(v.T >= -32, v.T < 32))
	sv.Assume(sv.Or(v.E == -100, sv.Or(v.E == 0, v.E == 90)))
	v.N, v.Hp = memberIn(true), memberIn(true)
	v.Xs = []int8{sv.I8("x0"), sv.I8("x1"), sv.I8("x2")}
	v.Ps = []mem.In{memberIn(false), memberIn(false)}
	v.As = make([]uint32, n)
	v.Bs = []bool{sv.Bool("b0"), sv.Bool("b1")}
	return v
}
''']
def body(t,ty,lhs,fmt):
    pre=[]; e,_=go(t,pre)
    return [gol(p) for p in pre],gol(e)
for i,(t,ty) in enumerate(trees):
    out.append('    function %s y%d() { return %s; }'%(ty,i,zsl(t)))
    pre,e=body(t,ty,'','')
    gos.append('func C16_Member%03d() {\n\tv := members(%s)'%(i,'sv.Choose("length", 3)' if 'm22' in str(t) or 'm13' in str(t) else '1'))
    for p in pre: gos.append('\tsv.Assume(%s)'%p)
    gos.append('\tsv.Assert(v.Y%d() == %s, "%s")\n}\n'%(i,e,zsl(t)))
out.append('};')
far=('m7','m8','m9','m13','m22','m16','b3')
n=0
while n<24:
    t=rnd('bool',3)
    if not 3<=size(t)<=12 or isconst(t) or any(repr(f) in str(t) for f in far) or not okay(t): continue
    pre,e=body(t,'bool','','')
    if pre: continue
    out.append('struct W%d(In n, In hp, uint8 k, bit:5 p5, Sub o, E e, Tiny t, bool fl) { uint8 w if %s; bit:3 z; };'%(n,zsl(t)))
    gos.append('func C16_MemberCondition%02d() {\n\tv := members(1)\n\tsize(&mem.W%d{N: v.N, Hp: v.Hp, K: v.K, P5: v.P5, O: v.O, E: v.E, T: v.T, Fl: v.Fl}, 3+bits(%s, 8))\n}\n'%(n,n,e))
    n+=1
open('/verif/schemas/mem.zs','w').write('\n'.join(out)+'\n')
open('/verif/harness/c16/members.go','w').write('\n'.join(gos))
