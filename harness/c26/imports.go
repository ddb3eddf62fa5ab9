package c26

//sv:bound the packages of schemas/sf: imports of imports, two packages that import others, packages of which one has the end of the name of the other; types, constants, enums and functions of both
//sv:bound graphs of 4 packages without cycles, every set of edges; the names of the packages and the name that is looked up have 1..3 arbitrary bytes

import (
	sf_base "gen/zs/sf/base"
	sf_deep "gen/zs/sf/deep"
	"gen/zs/sf/first"
	"gen/zs/sf/second"
	sf_top "gen/zs/sf/top"
	sf_longer "gen/zs/sf/x/sf/base"

	"github.com/woven-planet/go-zserio/internal/ast"
	"github.com/woven-planet/go-zserio/internal/model"
	"github.com/woven-planet/go-zserio/zzverif/pl"
	"verif/sv"
)

// The types come from the packages that the schema means.
var (
	_ first.Kind      = sf_top.A{}.K
	_ second.Two      = sf_top.A{}.Y
	_ uint32          = sf_top.A{}.Y
	_ []first.Inner   = sf_top.A{}.Parr
	_ sf_base.Tone    = sf_top.A{}.T
	_ uint16          = sf_top.A{}.Q.V
	_ uint16          = sf_top.A{}.R.V
	_ sf_longer.Tone  = sf_top.A{}.S
	_ sf_longer.Other = sf_top.A{}.O
)

func someA(n int) *sf_top.A {
	v := &sf_top.A{K: []first.Kind{first.Kind(sf_deep.DeepOne), first.Kind(sf_deep.DeepTwo)}[sv.Choose("k", 2)], Y: sv.U32("y")}
	v.Arr = []first.Inner{}
	if v.K == 0 {
		v.X.V = sv.U8("v")
	}
	for i := 0; i < n; i++ {
		v.Arr = append(v.Arr, first.Inner{A: uint8(bits("a", 3))})
	}
	v.Parr = []first.Inner{{A: uint8(bits("a", 3))}, {A: uint8(bits("b", 3))}}
	v.R.V, v.Q.V = sv.U16("r"), sv.U16("q")
	v.T = []sf_base.Tone{sf_base.ToneLow, sf_base.ToneHigh}[sv.Choose("t", 2)]
	v.S = []sf_longer.Tone{sf_longer.ToneLow, sf_longer.ToneHigh}[sv.Choose("s", 2)]
	if v.T == 5 {
		v.Z = sv.U8("z")
	}
	return v
}

func layA(l *pl.Lay, v *sf_top.A) {
	u(l, uint64(v.K), 8)
	if v.K == 0 {
		u(l, uint64(v.X.V), 8)
	}
	u(l, uint64(v.Y), 32)
	count(l, len(v.Arr))
	for _, x := range v.Arr {
		u(l, uint64(x.A), 3)
	}
	pl.Array(l, v.Parr, false, func(l *pl.Lay, x *first.Inner) { l.U("a", uint64(x.A), 3) })
	u(l, uint64(v.R.V), 16)
	u(l, uint64(v.T), 8)
	u(l, uint64(v.Q.V), 16)
	u(l, uint64(v.S), 16)
	u(l, uint64(v.O), 8)
	if v.T == 5 {
		u(l, uint64(v.Z), 8)
	}
}

// C26_SameEnds: names of packages that are the end of another's.
func C26_SameEnds() {
	sv.Assert(sf_base.SIZE == 2 && sf_base.ToneLow == 4 && sf_base.ToneHigh == 5, "constants")
	sv.Assert(sf_longer.ToneHigh == 0 && sf_longer.ToneLow == 1 && sf_longer.OtherO == 0, "constants")
	v := someA(sv.Choose("length", 3))
	got := &sf_top.A{}
	pl.Run(v, got, func(l *pl.Lay) { layA(l, v) }, func() {
		var w uint32 = got.Word()
		sv.Assert(w == v.Y, "functions")
	})
}

// C26_ImportedScope: a name finds the package of that name that is imported,
// directly or by an import, and no other.
func C26_ImportedScope() {
	const n = 4
	var p [n]*ast.Package
	for i := range p {
		p[i] = ast.NewPackage(sv.Str("package", 1+sv.Choose("size", 3)))
		for j := 0; j < i; j++ {
			sv.Assume(p[i].Name != p[j].Name)
		}
	}
	var reach [n]bool
	reach[0] = true
	for i := range p {
		for j := i + 1; j < n; j++ {
			if sv.Choose("edge", 2) == 1 {
				p[i].ImportedPackages = append(p[i].ImportedPackages, p[j])
				reach[j] = reach[j] || reach[i]
			}
		}
	}
	name := sv.Str("name", 1+sv.Choose("length", 3))
	got, err := p[0].GetImportedScope(name)
	if err == nil {
		sv.Assert(got != nil && got.Name == name, "the-package-of-that-name")
	}
	for i := range p {
		if reach[i] && p[i].Name == name {
			sv.Assert(err == nil && got == p[i], "finds-what-is-imported")
			sv.Reach("found")
		}
		if !reach[i] {
			sv.Assert(err != nil || got != p[i], "finds-only-what-is-imported")
		}
	}
	if err != nil {
		sv.Reach("missing")
	}
}

// C26_ResolveImports: the packages that a schema imports, whole ones first.
func C26_ResolveImports() {
	m := model.NewModel()
	names := []string{"p", "a.p", "p.a", "b.a.p"}
	for _, n := range names {
		m.Packages[n] = ast.NewPackage(n)
	}
	top := m.Packages["p"]
	var all, one []string
	missing := false
	for i := 0; i < 3; i++ {
		n := append([]string{"a"}, names...)[sv.Choose("import", 5)]
		imp := &ast.Import{Package: n, Type: "*"}
		if sv.Choose("single", 2) == 1 {
			imp.Type = "T"
			one = append(one, n)
		} else {
			all = append(all, n)
		}
		missing = missing || n == "a"
		top.Imports = append(top.Imports, imp)
	}
	err := m.ResolveImports()
	sv.Assert((err != nil) == missing, "unknown-packages")
	if missing {
		sv.Reach("missing")
		return
	}
	want, seen := []string{}, map[string]bool{"p": true}
	for _, n := range append(all, one...) {
		if !seen[n] {
			want, seen[n] = append(want, n), true
		}
	}
	sv.Assert(len(top.ImportedPackages) == len(want), "imports")
	for i, n := range want {
		sv.Assert(top.ImportedPackages[i] == m.Packages[n], "order")
	}
	sv.Reach("resolved")
}
