// Package c19: the files of a run of the generator.
//
//sv:bound 1..3 declarations of structs, enums, bitmasks, unions and choices in 1..2 packages, with the file of each package
//sv:bound names of 1..3 arbitrary characters of [A-Za-z0-9_], with fixed parts that end in what the Go tools treat in a special way or in the suffix that makes a path unique
//sv:bound limits of the path length: none, 260, and from the length of the output directory on up to 14 more
//sv:assume the content of the files is left out: the template engine and the formatter write nothing, the file system is a stand-in that records paths
package c19

import (
	"strings"

	"github.com/woven-planet/go-zserio/internal/ast"
	"github.com/woven-planet/go-zserio/internal/generator"
	"github.com/woven-planet/go-zserio/internal/model"
	"github.com/woven-planet/go-zserio/internal/parser"
	"verif/sv"
)

func letter(c byte) bool {
	return sv.Or(sv.And(c >= 'a', c <= 'z'), sv.Or(sv.And(c >= 'A', c <= 'Z'), c == '_'))
}

func valid(c byte) bool { return sv.Or(letter(c), sv.And(c >= '0', c <= '9')) }

// word has n arbitrary characters of identifiers.
func word(name string, n int) string {
	s := sv.Str(name, n)
	for i := 0; i < n; i++ {
		sv.Assume(valid(s[i]))
	}
	return s
}

// id is an arbitrary identifier of n characters.
func id(name string, n int) string {
	s := word(name, n)
	sv.Assume(letter(s[0]))
	return s
}

func differ(a, b string) bool { return a != b }

type decl struct {
	pkg  int
	kind int
	name string
}

func add(pkg *ast.Package, kind int, name string) {
	u8 := &ast.TypeReference{IsBuiltin: true, Name: "uint8"}
	switch kind {
	case 0:
		pkg.Structs[name] = &ast.Struct{Name: name}
	case 1:
		pkg.Enums[name] = &ast.Enum{Name: name, Type: u8}
	case 2:
		pkg.Bitmasks[name] = &ast.BitmaskType{Name: name, Type: u8}
	case 3:
		pkg.Unions[name] = &ast.Union{Name: name}
	case 4:
		pkg.Choices[name] = &ast.Choice{Name: name, SelectorExpression: &ast.Expression{
			EvaluationState: ast.EvaluationStateComplete, FullyResolved: true, ResultType: ast.ExpressionTypeInteger, ResultIntValue: 1,
			Type: parser.ZserioParserDECIMAL_LITERAL, Text: "1",
		}}
	}
}

// special are the words at the end of the name of a file for which the Go tools
// do not always use it.
var special = strings.Fields("test aix android darwin dragonfly freebsd hurd illumos ios js linux nacl netbsd openbsd plan9 solaris wasip1 windows zos " +
	"386 amd64 arm arm64 loong64 mips mipsle mips64 mips64le ppc64 ppc64le riscv64 s390x sparc64 wasm")

// run generates the declarations into packages, with a limit (0: none), and
// checks the paths. It is to succeed unless the limit is a narrow one.
func run(packages []string, decls []decl, extra int) {
	dir := sv.TempDir()
	m := model.NewModel()
	longest := 0
	for _, name := range packages {
		m.Packages[name] = ast.NewPackage(name)
		longest = max(longest, len(dir)+1+len(name))
	}
	for _, d := range decls {
		add(m.Packages[packages[d.pkg]], d.kind, d.name)
	}
	limit := 0
	if extra > 0 {
		limit = longest + extra
	}
	err := generator.Generate(m, dir, "example.com/root", "", generator.DoNotFormatSource,
		generator.PathLengthLimiter{MaxPathLength: limit}.LimitPathLength)
	files := sv.Files(dir)
	sv.Assert(err == nil || extra > 0 && extra < 12, "generates")
	if err == nil {
		sv.Assert(len(files) == len(decls)+len(packages), "one-file-each")
		sv.Reach("generated")
	}
	for i, f := range files {
		sv.Assert(limit == 0 || len(f) <= limit, "within-limit")
		for _, g := range files[:i] {
			sv.Assert(!sameFold(f, g), "differ")
		}
		at := false
		for _, name := range packages {
			d := dir + "/" + strings.ReplaceAll(strings.ToLower(name), ".", "/") + "/"
			if strings.HasPrefix(f, d) {
				at = sv.Or(at, base(f[len(d):]))
			}
		}
		sv.Assert(at, "in-the-directory-of-a-package")
	}
}

// base tells if s is the name of a Go file that is part of each build.
func base(s string) bool {
	ok := len(s) > 3 && s[len(s)-3:] == ".go"
	if !ok {
		return false
	}
	s = s[:len(s)-3]
	ok = sv.And(s[0] != '_', s[0] != '.')
	for i := range []byte(s) {
		ok = sv.And(ok, s[i] != '/')
	}
	for _, w := range special {
		n := len(s) - len(w) - 1
		if n < 0 {
			continue
		}
		ok = sv.And(ok, !equal(s[n:], "_"+w))
	}
	return ok
}

func equal(a, b string) bool {
	ok := len(a) == len(b)
	for i := 0; ok && i < len(b); i++ {
		r := true
		for ; i < len(b); i++ {
			r = sv.And(r, a[i] == b[i])
		}
		return r
	}
	return ok
}

func lower(c byte) byte {
	return byte(sv.IteU64(sv.And(c >= 'A', c <= 'Z'), uint64(c+32), uint64(c)))
}

func sameFold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range []byte(a) {
		r = sv.And(r, lower(a[i]) == lower(b[i]))
	}
	return r
}

// limits has no limit and narrow ones.
func narrow() int { return []int{0, 1, 7, 8, 9, 10, 11, 12, 14}[sv.Choose("limit", 9)] }

func C19_One() {
	d := decl{kind: sv.Choose("kind", 5), name: id("name", 1+sv.Choose("length", 3))}
	run([]string{"a.b"}, []decl{d}, narrow())
}

func C19_Two() {
	a, b := id("a", 2), id("b", 2)
	sv.Assume(differ(a, b))
	run([]string{"a.b"}, []decl{{name: a}, {kind: sv.Choose("kind", 2), name: b}}, []int{0, 12}[sv.Choose("limit", 2)])
}

// C19_Three: names that run into the suffix which makes a path unique.
func C19_Three() {
	a, b := id("a", 1), id("b", 1)
	sv.Assume(differ(a, b))
	c := id("c", 1) + []string{"_", "_1", "1", "_1_1"}[sv.Choose("tail", 4)]
	run([]string{"a.b"}, []decl{{name: a}, {kind: 1, name: b}, {kind: 1, name: c}}, []int{0, 7, 9, 12}[sv.Choose("limit", 4)])
}

// C19_Special: names with a special meaning for the Go tools.
func C19_Special() {
	w := special[sv.Choose("word", len(special))]
	n := 1
	if sv.Thorough() {
		n = 2
	}
	name := id("a", n) + []string{"", "_"}[sv.Choose("sep", 2)] + strings.ToUpper(w[:1]) + w[1:]
	run([]string{"a.b"}, []decl{{name: name}}, 0)
}

// C19_Cut: the limit cuts a name just after a word with a special meaning.
func C19_Cut() {
	name := id("a", 2) + "_" + []string{"js", "ios", "test", "wasm"}[sv.Choose("word", 4)] + word("b", 2)
	run([]string{"a.b"}, []decl{{name: name}}, 6+sv.Choose("limit", 9))
}

// C19_Packages: equal names in packages of any relation.
func C19_Packages() {
	ps := [][]string{{"a", "b"}, {"a", "a.b"}, {"a.b", "a.B"}, {"x.y", "x.y.z"}}[sv.Choose("packages", 4)]
	a, b := id("a", 2), id("b", 2)
	run(ps, []decl{{name: a}, {pkg: 1, name: b}}, []int{0, 14}[sv.Choose("limit", 2)])
}

// C19_Package: a declaration whose file would be that of the package.
func C19_Package() {
	run([]string{"p"}, []decl{{name: id("a", 1) + "kg"}, {kind: 4, name: "Pkg"}, {kind: 3, name: id("b", 1) + "kg" + word("c", 2)}}, []int{0, 12}[sv.Choose("limit", 2)])
}

func C19T_TwoLong() {
	a, b := id("a", 3), id("b", 2)
	run([]string{"a.b"}, []decl{{name: a}, {kind: 1, name: b}}, narrow())
}

func C19T_Three() {
	a, b, c := id("a", 2), id("b", 2), id("c", 2)
	sv.Assume(differ(a, b))
	sv.Assume(differ(c, b))
	sv.Assume(differ(a, c))
	run([]string{"a.b"}, []decl{{name: a}, {name: b}, {name: c}}, 0)
}

// C19_Underscore: the only underscores are in the name of the package.
func C19_Underscore() {
	pkg := []string{"a_b", "a_b.c", "a.b_c.d"}[sv.Choose("package", 3)]
	w := "Long" + strings.ReplaceAll(id("a", 2), "_", "x") + "er"
	run([]string{pkg}, []decl{{kind: sv.Choose("kind", 2), name: w}}, 6+sv.Choose("limit", 9))
}

// C19_UnderscoreTwo: two names that the limit cuts to the same.
func C19_UnderscoreTwo() {
	w := "Long" + strings.ToUpper("er") + "name"
	run([]string{"a_b", "c"}, []decl{{name: w + id("a", 1)}, {kind: 1, name: w + "Z" + word("b", 1)}, {pkg: 1, name: w}}, 8+2*sv.Choose("limit", 6))
}
