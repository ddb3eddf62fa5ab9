package c17

import (
	"math"
	"unicode/utf8"

	"github.com/woven-planet/go-zserio/internal/ast"
	"github.com/woven-planet/go-zserio/internal/parser"
	"verif/sv"
)

func length(short, long int) int {
	if sv.Thorough() {
		return 1 + sv.Choose("digits", long)
	}
	n := 1 + sv.Choose("digits", short+1)
	if n > short {
		n = long
	}
	return n
}

// digits returns symbolic digits of a base and the number they denote.
func digits(n int, base uint64) (string, uint64) {
	s := sv.Bytes("digits", n)
	v := uint64(0)
	pattern := 0
	if base == 16 && n > 4 {
		// which of the digits are letters
		pattern = 1 + sv.Choose("letters", 4)
	}
	for i, c := range s {
		d := uint64(c - '0')
		if base <= 10 {
			sv.Assume(sv.And(c >= '0', d < base))
		} else {
			isDigit := sv.And(c >= '0', c <= '9')
			isLower := sv.And(c >= 'a', c <= 'f')
			isUpper := sv.And(c >= 'A', c <= 'F')
			isLetter := sv.Or(isLower, isUpper)
			sv.Assume(sv.Or(isDigit, isLetter))
			if pattern > 0 {
				sv.Assume(isLetter == (pattern == 1 || pattern == 2 && i%2 == 0 || pattern == 3 && i%2 == 1))
			}
			d = sv.IteU64(isDigit, d, sv.IteU64(isLower, uint64(c-'a')+10, uint64(c-'A')+10))
		}
		v = v*base + d
	}
	return string(s), v
}

func checkLiteral(kind int, text string, v uint64) {
	e := &ast.Expression{Type: kind, Text: text}
	sv.Section("evaluate")
	err := e.Evaluate(ast.NewPackage("p"))
	if v > math.MaxInt64 {
		sv.Assert(err != nil, "rejects")
		return
	}
	sv.Assert(err == nil, "accepts")
	same(e, val{kind: kInt, i: int64(v)})
	sv.Reach("value")
}

// C17_Decimal: decimal literals.
func C17_Decimal() {
	s, v := digits(length(4, decimalDigits()), 10)
	sv.Assume(sv.Or(len(s) == 1, s[0] != '0'))
	checkLiteral(parser.ZserioParserDECIMAL_LITERAL, s, v)
}

// C17_Octal: octal literals.
func C17_Octal() {
	s, v := digits(length(4, 21), 8)
	checkLiteral(parser.ZserioParserOCTAL_LITERAL, "0"+s, v)
}

// C17_Hexadecimal: hexadecimal literals.
func C17_Hexadecimal() {
	s, v := digits(length(4, 16), 16)
	checkLiteral(parser.ZserioParserHEXADECIMAL_LITERAL, []string{"0x", "0X"}[sv.Choose("prefix", 2)]+s, v)
}

// C17_Binary: binary literals.
func C17_Binary() {
	s, v := digits(length(8, 64), 2)
	checkLiteral(parser.ZserioParserBINARY_LITERAL, s+[]string{"b", "B"}[sv.Choose("suffix", 2)], v)
}

// C17_Bool: the boolean literals.
func C17_Bool() {
	b := sv.Choose("value", 2) == 1
	e := &ast.Expression{Type: parser.ZserioParserBOOL_LITERAL, Text: map[bool]string{false: "false", true: "true"}[b]}
	sv.Assert(e.Evaluate(ast.NewPackage("p")) == nil, "accepts")
	same(e, val{kind: kBool, b: b})
}

// C17_Float: float literals in all their forms.
func C17_Float() {
	c := []struct {
		text string
		kind int
		v    float64
	}{
		{"1.5", parser.ZserioParserDOUBLE_LITERAL, 1.5},
		{".25", parser.ZserioParserDOUBLE_LITERAL, 0.25},
		{"3.", parser.ZserioParserDOUBLE_LITERAL, 3},
		{"2e3", parser.ZserioParserDOUBLE_LITERAL, 2000},
		{"12.5E-2", parser.ZserioParserDOUBLE_LITERAL, 0.125},
		{"0.1", parser.ZserioParserDOUBLE_LITERAL, 0.1},
		{"1.5f", parser.ZserioParserFLOAT_LITERAL, 1.5},
		{"2.5e1F", parser.ZserioParserFLOAT_LITERAL, 25},
	}[sv.Choose("literal", 8)]
	e := &ast.Expression{Type: c.kind, Text: c.text}
	sv.Assert(e.Evaluate(ast.NewPackage("p")) == nil, "accepts")
	same(e, val{kind: kFloat, f: c.v})
}

// C17_String: string literals with and without escape sequences.
func C17_String() {
	body := sv.Str("text", sv.Choose("length", 3))
	for i := 0; i < len(body); i++ {
		c := body[i]
		sv.Assume(sv.And(c < 0x80, sv.And(c != '\\', c != '"')))
	}
	text, want := "", ""
	code := uint64(0)
	switch sv.Choose("escape", 5) {
	case 0:
		sv.Reach("plain")
	case 1:
		i := sv.Choose("character", 6)
		text = "\\" + "\"\\rnft"[i:i+1]
		want = "\"\\\r\n\f\t"[i : i+1]
	case 2:
		text, code = digits(2, 16)
		text = "\\x" + text
		sv.Reach("hex")
	case 3:
		text, code = digits(4, 16)
		sv.Assume(sv.Or(code < 0xD800, code > 0xDFFF))
		text = "\\u" + text
		sv.Reach("unicode")
	case 4:
		text, code = digits(1+sv.Choose("octal digits", 3), 8)
		sv.Assume(code < 256)
		text = "\\0" + text
		if len(body) > 0 {
			// not another digit of the sequence
			sv.Assume(sv.Or(body[0] < '0', body[0] > '7'))
		}
		sv.Reach("octal")
	}
	if len(text) > 2 {
		want = string(utf8.AppendRune(nil, rune(code)))
	}
	first := sv.Choose("order", 2) == 0
	if first {
		text, want = text+body, want+body
	} else {
		text, want = body+text, body+want
	}
	e := &ast.Expression{Type: parser.ZserioParserSTRING_LITERAL, Text: "\"" + text + "\""}
	sv.Section("evaluate")
	sv.Assert(e.Evaluate(ast.NewPackage("p")) == nil, "accepts")
	same(e, val{kind: kString, s: want})
}

// decimalDigits is the length of the long decimal literals.
func decimalDigits() int {
	if sv.Thorough() {
		return 19
	}
	return 9
}
