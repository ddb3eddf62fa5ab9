"""Writes schemas/ul.zs and harness/c16/unsigned.go: expressions over unsigned values of 64 bits."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ops = [('a', 'v.A'), ('b', 'v.B'), ('c', 'v.C'), ('d', 'v.D'), ('e', 'uint64(v.E)'), ('n.u', 'v.N.U'), ('n.w', 'v.N.W'), ('xs[0]', 'v.Xs[0]'), ('fa()', 'v.A')]
exprs = [
    ('uint64', '{X} / s', '{G} / uint64(v.S)', 'v.S != 0'),
    ('uint64', '{X} % t', '{G} % uint64(v.T)', 'v.T != 0'),
    ('uint64', '{X} >> h', '{G} >> v.H', None),
    ('uint64', '{X} / 3', '{G} / 3', None),
    ('uint64', '{X} % 10', '{G} % 10', None),
    ('uint64', 's - 0 + {X} / 2', 'uint64(v.S) + {G}/2', None),
    ('uint64', '({X} | t) >> 1', '({G} | uint64(v.T)) >> 1', None),
    ('uint64', '({X} ^ s) / 7', '({G} ^ uint64(v.S)) / 7', None),
    ('uint64', '({X} & a) >> 3', '({G} & v.A) >> 3', None),
    ('bool', '{X} > s', '{G} > uint64(v.S)', None),
    ('bool', 't < {X}', 'uint64(v.T) < {G}', None),
    ('bool', '{X} >= 9223372036854775807', '{G} >= 1<<63-1', None),
    ('bool', '{X} <= a', '{G} <= v.A', None),
    ('bool', '{X} / 2 > 4611686018427387904', '{G}/2 > 1<<62', None),
    ('bool', '{X} == b', '{G} == v.B', None),
    ('bool', '{X} != t', '{G} != uint64(v.T)', None),
    ('uint64', '{X} > t ? {X} : t', 'sv.IteU64({G} > uint64(v.T), {G}, uint64(v.T))', None),
    ('uint64', '{X} > s ? {X} / 5 : a', 'sv.IteU64({G} > uint64(v.S), {G}/5, v.A)', None),
]
z = '''package ul;

// Written by tools/genc16u.py.

subtype uint64 Big; subtype bit:64 Wide;
struct In { varuint u; Wide w; };
struct Ops {
    uint8 k; uint64 a; varuint b; bit:64 c; bit<k> d; Big e; In n; uint64 xs[]; uint8 s; uint16 t; bit:6 h;
    function uint64 fa() { return a; }
'''
h = '''// Written by tools/genc16u.py.

package c16

import (
	"gen/zs/ul"

	"github.com/woven-planet/go-zserio/zzverif/hx"
	"verif/sv"
)

//sv:bound %d expressions over unsigned values of 64 bits (uint64, varuint, bit:64, bit<n>, subtypes, members, elements, functions), of which 14 as conditions, lengths and selectors: all values, those above 2^63 as well (schemas/ul.zs)

func unsigned() *ul.Ops {
	return &ul.Ops{K: 64, A: sv.U64("a"), B: sv.U64("b"), C: sv.U64("c"), D: sv.U64("d"), E: ul.Big(sv.U64("e")),
		N: ul.In{U: sv.U64("u"), W: ul.Wide(sv.U64("w"))}, Xs: []uint64{sv.U64("x")}, S: sv.U8("s"), T: sv.U16("t"), H: sv.U8("h") & 63}
}

''' % (len(ops) * len(exprs))
i = 0
for zt, e, g, cond in exprs:
    for zx, gx in ops:
        if zx == 'n.w':
            gx = 'uint64(v.N.W)'
        X = e.format(X=zx)
        G = g.format(G=gx)
        z += f'    function {zt} y{i}() {{ return {X}; }}\n'
        h += f'func C16_Unsigned{i:03d}() {{\n\tv := unsigned()\n'
        if cond:
            h += f'\tsv.Assume({cond})\n'
        h += f'\tsv.Assert(v.Y{i}() == ({G}), "{X}")\n}}\n\n'
        i += 1
z += '};\n'
conds = [('if a / 2 > s', 'v.A/2 > uint64(v.S)'), ('if b / 2 > s', 'v.B/2 > uint64(v.S)'), ('if c >> 1 > t', 'v.C>>1 > uint64(v.T)'), ('if d % 10 < 5', 'v.D%10 < 5'),
         ('if e > s', 'uint64(v.E) > uint64(v.S)'), ('if b >= 9223372036854775807', 'v.B >= 1<<63-1'), ('if c != b && d <= a', 'sv.And(v.C != v.B, v.D <= v.A)')]
z += '''struct Conds {
    uint8 k; uint64 a; varuint b; bit:64 c; bit<k> d; Big e; uint8 s; uint16 t;
''' + ''.join(f'    bit:3 f{j} {c};\n' for j, (c, _) in enumerate(conds)) + '''};
struct Lens { uint64 a; varuint b; bit:64 c; uint8 l1[a % 3]; uint8 l2[b % 3]; uint8 l3[c >> 62]; };
struct Wid { uint64 a; uint8 k; bit<k> d; bit<d % 7 + 1> w; bit<a / 1152921504606846976 + 1> x; };
struct Sel { varuint b; bit:64 c; Pick(b % 5, c / 9223372036854775807) p; };
choice Pick(uint8 q, uint8 r) on q * 2 + r { case 0: uint8 z; case 1: case 2: bit:3 o; default: bit:5 m; };
'''
h += '''// C16_UnsignedConds: the fields that exist and their sizes.
func C16_UnsignedConds() {
	v := &ul.Conds{K: 64, A: sv.U64("a"), B: sv.U64("b"), C: sv.U64("c"), D: sv.U64("d"), E: ul.Big(sv.U64("e")), S: sv.U8("s"), T: sv.U16("t")}
	sv.Assume(sv.Or(v.B < 128, v.B >= 1<<56))
	sum := 8 + 64 + int(sv.IteU64(v.B < 128, 8, 72)) + 64 + 64 + 64 + 8 + 16
'''
for j, (_, g) in enumerate(conds):
    h += f'\tsum += int(sv.IteU64({g}, 3, 0))\n'
h += '''	n, err := v.ZserioBitSize(0)
	sv.Assert(err == nil, "error")
	sv.Assert(n == sum, "size")
	sv.Reach("end")
}

// C16_UnsignedLens: arrays are written when they have the length of the expression.
func C16_UnsignedLens() {
	v := &ul.Lens{}
	switch sv.Choose("which", 3) {
	case 0:
		v.A = sv.U64("a")
	case 1:
		v.B = sv.U64("b")
		sv.Assume(sv.Or(v.B < 128, v.B >= 1<<56))
	case 2:
		v.C = sv.U64("c")
	}
	v.L1, v.L2, v.L3 = make([]uint8, sv.Choose("l1", 3)), make([]uint8, sv.Choose("l2", 3)), make([]uint8, sv.Choose("l3", 4))
	fits := sv.And(v.A%3 == uint64(len(v.L1)), sv.And(v.B%3 == uint64(len(v.L2)), v.C>>62 == uint64(len(v.L3))))
	_, w := hx.NewWriter()
	err := v.MarshalZserio(w)
	sv.Assert((err == nil) == fits, "error")
	sv.Reach("end")
}

// C16_UnsignedWidth: widths of 1 to 16 bits.
func C16_UnsignedWidth() {
	v := &ul.Wid{K: 64, A: sv.U64("a"), D: sv.U64("d")}
	n, err := v.ZserioBitSize(0)
	sv.Assert(err == nil, "error")
	sv.Assert(n == 64+8+64+int(v.D%7+1)+int(v.A>>60+1), "size")
	sv.Reach("end")
}

// C16_UnsignedSelector: the parameters of a choice.
func C16_UnsignedSelector() {
	v := &ul.Sel{B: sv.U64("b"), C: sv.U64("c")}
	sv.Assume(sv.Or(v.B < 128, v.B >= 1<<56))
	v.P.Q, v.P.R = uint8(v.B%5), uint8(v.C/(1<<63-1))
	k := v.P.Q*2 + v.P.R
	n, err := v.ZserioBitSize(0)
	sv.Assert(err == nil, "error")
	sv.Assert(n == 64+int(sv.IteU64(v.B < 128, 8, 72))+int(sv.IteU64(k == 0, 8, sv.IteU64(sv.Or(k == 1, k == 2), 3, 5))), "size")
	sv.Reach("end")
}
'''
open(V + '/schemas/ul.zs', 'w').write(z)
open(V + '/harness/c16/unsigned.go', 'w').write(h)
subprocess.check_call(['gofmt', '-w', V + '/harness/c16/unsigned.go'])
