package c27

//sv:bound graphs of 5 packages, every set of edges from a package to a later one (thorough: and, with 4 packages, to any other)

import (
	"strconv"

	"github.com/woven-planet/go-zserio/internal/ast"
	"github.com/woven-planet/go-zserio/internal/generator"
	"verif/sv"
)

func graph(n int, cycles bool) {
	p := make([]*ast.Package, n)
	for i := range p {
		p[i] = ast.NewPackage("p" + strconv.Itoa(i))
	}
	edge := make([][]bool, n)
	for i := range p {
		edge[i] = make([]bool, n)
		for j := range p {
			if (j > i || cycles && j != i) && sv.Choose("edge", 2) == 1 {
				edge[i][j] = true
				p[i].ImportedPackages = append(p[i].ImportedPackages, p[j])
			}
		}
	}
	reach := make([]bool, n)
	for j := range p {
		reach[j] = edge[0][j]
	}
	for range p {
		for i := range p {
			for j := range p {
				reach[j] = reach[j] || reach[i] && edge[i][j]
			}
		}
	}
	got := map[string]int{}
	for _, name := range generator.GoGetAllImports(p[0]) {
		got[name]++
	}
	for i := range p {
		k := got[p[i].Name]
		sv.Assert(k > 0 || !reach[i], "imports-what-can-be-needed")
		sv.Assert(k == 0 || reach[i], "imports-only-what-is-imported")
		sv.Assert(k <= 1, "imports-once")
		delete(got, p[i].Name)
	}
	sv.Assert(len(got) == 0, "imports-only-packages")
	sv.Reach("listed")
}

// C27_Graph: the list of imports has every package once that is imported,
// directly or by an import.
func C27_Graph()        { graph(5, false) }
func C27T_GraphCycles() { graph(4, true) }
