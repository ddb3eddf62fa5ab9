"""Writes schemas/big.zs and the harnesses over it: declarations with many members."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 130          # union fields: tags of one and two bytes
C = 60           # choice cases
E = 300          # enum items
O = 40           # struct fields

u = ''.join(f'    {["uint8", "uint16", "bit:3", "string"][i % 4]} f{i};\n' for i in range(N))
c = ''.join(f'    case {5*i}: case {5*i+1}: case {5*i+3}: {["uint8", "uint16", "bit:3"][i % 3]} f{i};\n' for i in range(C))
e = ', '.join(f'I{i}' + (f' = {i+1000}' if i % 100 == 50 else '') for i in range(E))
m = ', '.join(f'B{i}' for i in range(64))
o = ''.join(f'    {["optional uint8", "bit:5", "uint16", "optional bool"][i % 4]} f{i}{" if f1 > 7" if i % 4 == 2 else ""};\n' for i in range(O))
open(V + '/schemas/big.zs', 'w').write(f'''package big;

union U
{{
{u}}};

choice C(uint16 k) on k
{{
{c}    default: bit:33 other;
}};

enum uint16 E {{ {e} }};
bitmask uint64 M {{ {m} }};

struct S
{{
{o}}};
''')

def w(prop, body, imports=()):
    im = ''.join(f'\t"{i}"\n' for i in imports)
    open(f'{V}/harness/{prop}/big.go', 'w').write(f'// Code generated by tools/genbig.py.\n\npackage {prop}\n\nimport (\n\t"gen/zs/big"\n\n{im}\t"verif/sv"\n)\n' + body)
    os.system(f'gofmt -w {V}/harness/{prop}/big.go')

HX = 'github.com/woven-planet/go-zserio/zzverif/hx'

# unions
mk = ''
put = ''
same = ''
for i in range(N):
    ty = i % 4
    if ty == 0:
        mk += f'case {i}: x := sv.U8("v"); v.F{i} = x; put = func(b *hx.Bits) {{ b.Put(uint64(x), 8) }}; same = func(g *big.U) bool {{ return g.F{i} == x }}\n'
    elif ty == 1:
        mk += f'case {i}: x := sv.U16("v"); v.F{i} = x; put = func(b *hx.Bits) {{ b.Put(uint64(x), 16) }}; same = func(g *big.U) bool {{ return g.F{i} == x }}\n'
    elif ty == 2:
        mk += f'case {i}: x := sv.U8("v") & 7; v.F{i} = x; put = func(b *hx.Bits) {{ b.Put(uint64(x), 3) }}; same = func(g *big.U) bool {{ return g.F{i} == x }}\n'
    else:
        mk += f'case {i}: x := sv.Str("v", 1); v.F{i} = x; put = func(b *hx.Bits) {{ b.PutVarUint(1, 5); b.PutBytes([]byte(x)) }}; same = func(g *big.U) bool {{ return g.F{i} == x }}\n'
w('c14', f'''
// C14_Many: a union of so many fields that tags take one or two bytes.
func C14_Many() {{
	choices := []big.UUnionChoiceType{{{', '.join(f'big.UChoiceF{i}' for i in range(N))}}}
	i := sv.Choose("selection", {N})
	v := &big.U{{UnionChoice: choices[i]}}
	var put func(*hx.Bits)
	var same func(*big.U) bool
	switch i {{
{mk}	}}
	b, w, done, ref := hx.WriterAt(3)
	sv.Section("predict")
	size, err := v.ZserioBitSize(3)
	sv.Assert(err == nil, "predicts")
	sv.Section("encode")
	sv.Assert(v.MarshalZserio(w) == nil, "accepts")
	sv.Assert(done() == nil, "close")
	ref.PutVarUint(uint64(i), 5)
	put(ref)
	sv.Assert(size == ref.Len()-3, "predicted-size")
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	sv.Section("decode")
	var got big.U
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(3)
	sv.Assert(err == nil && got.UnmarshalZserio(r) == nil, "decodes")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	sv.Assert(got.UnionChoice == choices[i], "selection")
	sv.Assert(same(&got), "round-trip")
	sv.Reach("round-trips")
}}

// C14_ManyTags: a tag above the last field is an error.
func C14_ManyTags() {{
	tag := sv.U64("tag")
	sv.Assume(tag >= {N})
	sv.Assume(tag < 1<<31)
	b := &hx.Bits{{}}
	b.PutVarUint(tag, 5)
	b.PutBytes(make([]byte, 4))
	var u big.U
	sv.Assert(u.UnmarshalZserio(hx.NewReader(b.Bytes())) != nil, "rejects-undeclared-tag")
	sv.Reach("rejected")
}}
''', [HX])

# choices
cases = ''
for i in range(C):
    bits = [8, 16, 3][i % 3]
    cases += f'case {5*i}, {5*i+1}, {5*i+3}: n = {bits}; v.F{i} = {["uint8", "uint16", "uint8"][i%3]}(x & (1<<{bits} - 1)); get = func(g *big.C) uint64 {{ return uint64(g.F{i}) }}\n'
w('c13', f'''
// C13_Many: a choice of many cases of several conditions.
func C13_Many() {{
	k := sv.Choose("selector", {5*C+2})
	v := &big.C{{K: uint16(k)}}
	x := sv.U64("v") & (1<<33 - 1)
	n := 33
	v.Other = x
	get := func(g *big.C) uint64 {{ return g.Other }}
	switch k {{
{cases}	}}
	x &= 1<<uint(n) - 1
	b, w, done, ref := hx.WriterAt(3)
	sv.Section("predict")
	size, err := v.ZserioBitSize(3)
	sv.Assert(err == nil && size == n, "predicted-size")
	sv.Section("encode")
	sv.Assert(v.MarshalZserio(w) == nil, "accepts")
	sv.Assert(done() == nil, "close")
	ref.Put(x, n)
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	sv.Section("decode")
	got := &big.C{{K: uint16(k)}}
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(3)
	sv.Assert(err == nil && got.UnmarshalZserio(r) == nil, "decodes")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	sv.Assert(get(got) == x, "round-trip")
	sv.Reach("round-trips")
}}
''', [HX])

# enums, bitmasks
vals = []
n = -1
for i in range(E):
    n = i + 1000 if i % 100 == 50 else n + 1
    vals.append(n)
w('c15', f'''
var manyItems = []struct {{
	item  big.E
	value uint16
	name  string
}}{{
{''.join(f'{{big.EI{i}, {v}, "I{i}"}},' + chr(10) for i, v in enumerate(vals))}}}

var manyBits = []big.M{{{', '.join(f'big.MB{i}' for i in range(64))}}}

// C15_Many: an enum of {E} items.
func C15_Many() {{
	sv.Long()
	for i, t := range manyItems {{
		sv.Assert(uint16(t.item) == t.value, "value")
		sv.Assert(t.item.String() == t.name, "name")
		if i%9 == 0 || i > 290 || i%100 > 48 && i%100 < 53 {{
			got, err := big.EString(t.name)
			sv.Assert(err == nil && got == t.item, "name-back")
		}}
	}}
	sv.Reach("checked")
}}

// C15_ManyBits: a bitmask that uses all 64 bits.
func C15_ManyBits() {{
	for i, b := range manyBits {{
		sv.Assert(uint64(b) == 1<<uint(i), "value")
	}}
	sv.Reach("checked")
}}
''')

# structs
fill = put = same = ''
for i in range(O):
    t = i % 4
    if t == 0:
        fill += f'has{i} := {"p0" if i % 3 else "p1"}; x{i} := sv.U8("v"); if has{i} {{ v.F{i} = &x{i} }}\n'
        put += f'if has{i} {{ ref.Put(1, 1); ref.Put(uint64(x{i}), 8) }} else {{ ref.Put(0, 1) }}\n'
        same += f'if has{i} {{ ok = sv.And(ok, g.F{i} != nil && *g.F{i} == x{i}) }} else {{ ok = sv.And(ok, g.F{i} == nil) }}\n'
    elif t == 1:
        if i == 1:
            fill += 'v.F1 = 3; if big7 { v.F1 = 20 }\n'
        else:
            fill += f'v.F{i} = sv.U8("v") & 31\n'
        put += f'ref.Put(uint64(v.F{i}), 5)\n'
        same += f'ok = sv.And(ok, g.F{i} == v.F{i})\n'
    elif t == 2:
        fill += f'v.F{i} = sv.U16("v")\n'
        put += f'if big7 {{ ref.Put(uint64(v.F{i}), 16) }}\n'
        same += f'if big7 {{ ok = sv.And(ok, g.F{i} == v.F{i}) }}\n'
    else:
        fill += f'has{i} := {"p0" if i % 3 else "p2"}; x{i} := sv.Bool("v"); if has{i} {{ v.F{i} = &x{i} }}\n'
        put += f'if has{i} {{ ref.Put(1, 1); ref.Put(sv.IteU64(x{i}, 1, 0), 1) }} else {{ ref.Put(0, 1) }}\n'
        same += f'if has{i} {{ ok = sv.And(ok, g.F{i} != nil && *g.F{i} == x{i}) }} else {{ ok = sv.And(ok, g.F{i} == nil) }}\n'
w('c12', f'''
// C12_Many: a struct of {O} fields, half of them optional.
func C12_Many() {{
	v := &big.S{{}}
	big7 := sv.Choose("condition", 2) == 1
	p0, p1, p2 := sv.Choose("present", 2) == 1, sv.Choose("present", 2) == 1, sv.Choose("present", 2) == 1
{fill}	b, w, done, ref := hx.WriterAt(3)
	sv.Section("predict")
	size, err := v.ZserioBitSize(3)
	sv.Assert(err == nil, "predicts")
	sv.Section("encode")
	sv.Assert(v.MarshalZserio(w) == nil, "accepts")
	sv.Assert(done() == nil, "close")
{put}	sv.Assert(size == ref.Len()-3, "predicted-size")
	sv.Assert(len(b.B) == (ref.Len()+7)/8, "length")
	sv.Assert(sv.BytesEqual(b.B, ref.Bytes()), "layout")
	sv.Section("decode")
	var g big.S
	r := hx.NewReader(b.B)
	_, err = r.ReadBits(3)
	sv.Assert(err == nil && g.UnmarshalZserio(r) == nil, "decodes")
	sv.Assert(hx.AtEnd(r), "consumes-all")
	ok := true
{same}	sv.Assert(ok, "round-trip")
	sv.Reach("round-trips")
}}
''', [HX])
