// Package c27: the imports of generated files.
//
//sv:bound files with four imports (by path, with a path of several elements, and two aliases of which one ends in the other), each used or not
//sv:bound between them: comments, strings, identifiers and selectors that contain the name of an import, with 2 (thorough: 3) arbitrary characters before it and one after
//sv:assume characters are printable ASCII, line breaks and tabs
package c27

import (
	"strings"

	"github.com/woven-planet/go-zserio/internal/generator"
	"verif/sv"
)

var names = []string{"errors", "bitio", "a_b", "x_a_b"}
var lines = []string{`"errors"`, `"github.com/icza/bitio"`, `a_b "root/a/b"`, `x_a_b "root/x/a/b"`}

func in(c byte, lo, hi byte) bool { return sv.And(c >= lo, c <= hi) }

func letter(c byte) bool {
	return sv.Or(sv.Or(in(c, 'a', 'z'), in(c, 'A', 'Z')), sv.Or(c == '_', in(c, '0', '9')))
}

// text has n arbitrary characters; except are left out.
func text(n int, except string) string {
	s := sv.Str("text", n)
	for i := 0; i < n; i++ {
		sv.Assume(sv.Or(in(s[i], ' ', '~'), sv.Or(s[i] == '\n', s[i] == '\t')))
		for j := 0; j < len(except); j++ {
			sv.Assume(s[i] != except[j])
		}
	}
	return s
}

func size() int {
	if sv.Thorough() {
		return 3
	}
	return 2
}

// mention is Go code that contains the name and a dot, but uses no import.
func mention(name string) string {
	n := size()
	switch sv.Choose("mention", 8) {
	case 0:
		return "// " + text(n, "\n") + name + "." + text(1, "\n") + "\n"
	case 1:
		return "/* " + text(n, "*") + name + "." + text(1, "*") + " */\n"
	case 2:
		return "var _ = \"" + text(n, "\"\\\n") + name + "." + text(1, "\"\\\n") + "\"\n"
	case 3:
		return "var _ = `" + text(n, "`") + name + "." + text(1, "`") + "`\n"
	case 4: // another identifier
		s := sv.Str("text", 1)
		sv.Assume(sv.And(letter(s[0]), !in(s[0], '0', '9')))
		// x_a_b is an import too
		sv.Assume(sv.Or(name != "a_b", s[0] != 'x'))
		return "func f() { " + s + name + ".Error() }\n"
	case 5:
		s := sv.Str("text", 2)
		sv.Assume(sv.And(sv.And(letter(s[0]), letter(s[1])), !in(s[0], '0', '9')))
		sv.Assume(sv.Or(name != "a_b", s[1] != '_'))
		return "func f() { " + s + name + ".Error() }\n"
	case 6: // a member
		return "func f(v *T) { v." + name + ".Error() }\n"
	}
	// an identifier that goes on
	s := sv.Str("text", 1)
	sv.Assume(letter(s[0]))
	return "func f() { " + name + s + ".Error() }\n"
}

// use is Go code that uses the import.
func use(name string) string {
	switch sv.Choose("use", 5) {
	case 0:
		return "var _ " + name + ".T\n"
	case 1:
		return "/* " + text(1, "*") + "*/var _ = []" + name + ".T{}\n"
	case 2:
		return "var _ = \"" + text(1, "\"\\\n") + "\" + " + name + ".Text\n"
	case 3:
		return "func f() { x(\"\\\"\", '\"', `\\`, *" + name + ".V, `" + text(1, "`") + "`) }\n"
	}
	c := sv.Str("text", 1)
	sv.Assume(sv.Or(sv.Or(c[0] == ' ', c[0] == '\n'), sv.Or(sv.Or(c[0] == '(', c[0] == '!'), sv.Or(sv.Or(c[0] == '-', c[0] == '&'), c[0] == '*'))))
	end := ""
	if c[0] == '(' {
		end = ")"
	}
	return "var _ =" + c + name + ".T" + end + "\n"
}

func file(used [4]bool, body string) {
	head := "// Code generated\npackage p\n\nimport (\n"
	for i, l := range lines {
		head += "    " + l + "\n"
		_ = i
	}
	for i, n := range names {
		if used[i] {
			body = "var _ " + n + ".T\n" + body
		}
	}
	check(head, body, used)
}

func check(head, body string, used [4]bool) {
	out, err := generator.StripImports([]byte(head + ")\n" + body))
	sv.Assert(err == nil, "accepts")
	got := string(out)
	at := strings.Index(got, ")")
	sv.Assert(at > 0, "imports-end")
	for i, l := range lines {
		has := strings.Contains(got[:at], " "+l+"\n") || strings.HasSuffix(got[:at], " "+l) || strings.Contains(got[:at], "\t"+l+"\n")
		sv.Assert(has || !used[i], "keeps-what-is-used")
		sv.Assert(!has || used[i], "removes-what-is-unused")
	}
	sv.Assert(strings.HasPrefix(got, "// Code generated\npackage p\n\nimport ("), "head")
	rest := ")\n" + body
	sv.Assert(len(got) >= len(rest) && got[len(got)-len(rest):] == rest, "code")
	sv.Reach("checked")
}

// C27_Mentions: an import that is only mentioned is removed, others stay.
func C27_Mentions() {
	k := sv.Choose("import", 4)
	var used [4]bool
	for i := range used {
		used[i] = i != k && (i+k)%2 == 0
	}
	file(used, mention(names[k]))
}

// C27_Uses: an import that is used stays, others are removed.
func C27_Uses() {
	k := sv.Choose("import", 4)
	var used [4]bool
	head := "// Code generated\npackage p\n\nimport (\n"
	for _, l := range lines {
		head += "    " + l + "\n"
	}
	used[k] = true
	check(head, use(names[k]), used)
}

// C27_Sets: every set of used imports.
func C27_Sets() {
	var used [4]bool
	for i := range used {
		used[i] = sv.Choose("used", 2) == 1
	}
	file(used, "type T struct{}\n")
}

// C27_None: code without a list of imports is left as it is.
func C27_None() {
	code := "package p\n// " + text(3, "\n") + "\nvar x = 1\n"
	out, err := generator.StripImports([]byte(code))
	sv.Assert(err == nil && string(out) == code, "unchanged")
}
