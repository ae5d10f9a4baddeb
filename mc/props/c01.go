package props

import (
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/qjebbs/go-sqlf/v2/syntax"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// isNumber reports whether v is a number of any type, and its value.
func isNumber(v any) (float64, bool) {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return float64(rv.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return float64(rv.Uint()), true
	case reflect.Float32, reflect.Float64:
		return rv.Float(), true
	}
	return 0, false
}

// parsed normalizes what the implementation parsed: adjacent plain text
// joined, empty plain text dropped.
func parsed(c *syntax.Clause) ([]ref.Node, error) {
	var out []ref.Node
	plain := ""
	for _, e := range c.ExprList {
		var n ref.Node
		switch e := e.(type) {
		case *syntax.PlainExpr:
			plain += e.Text
			continue
		case *syntax.BindVarExpr:
			n = ref.Node{Kind: ref.Bind, Dollar: e.Type == syntax.Dollar, Index: e.Index, Line: e.Pos().Line(), Col: e.Pos().Col()}
		case *syntax.FuncCallExpr:
			n = ref.Node{Kind: ref.Call, Name: e.Name, Args: e.Args, Line: e.Pos().Line(), Col: e.Pos().Col()}
		case *syntax.FuncExpr:
			n = ref.Node{Kind: ref.Func, Name: e.Name, Line: e.Pos().Line(), Col: e.Pos().Col()}
		default:
			return nil, fmt.Errorf("unknown expression %T", e)
		}
		if plain != "" {
			out = append(out, ref.Node{Kind: ref.Plain, Text: plain})
			plain = ""
		}
		out = append(out, n)
	}
	if plain != "" {
		out = append(out, ref.Node{Kind: ref.Plain, Text: plain})
	}
	return out, nil
}

func sameNode(a, b ref.Node, pos bool) bool {
	if a.Kind != b.Kind || a.Text != b.Text || a.Name != b.Name || len(a.Args) != len(b.Args) || a.Index != b.Index || a.Dollar != b.Dollar {
		return false
	}
	if pos && (a.Line != b.Line || a.Col != b.Col) {
		return false
	}
	for i := range a.Args {
		x, ok := isNumber(a.Args[i])
		y, ok2 := isNumber(b.Args[i])
		if ok != ok2 || x != y {
			return false
		}
		if !ok && a.Args[i] != b.Args[i] {
			return false
		}
	}
	return true
}

func showNodes(ns []ref.Node) string {
	b := new(strings.Builder)
	for _, n := range ns {
		switch n.Kind {
		case ref.Plain:
			fmt.Fprintf(b, " text%q", n.Text)
		case ref.Bind:
			fmt.Fprintf(b, " bind(dollar=%v,%d)@%d:%d", n.Dollar, n.Index, n.Line, n.Col)
		case ref.Call:
			fmt.Fprintf(b, " call:%s%#v@%d:%d", n.Name, n.Args, n.Line, n.Col)
		case ref.Func:
			fmt.Fprintf(b, " func:%s@%d:%d", n.Name, n.Line, n.Col)
		}
	}
	return "[" + strings.TrimSpace(b.String()) + "]"
}

func shapeOf(ns []ref.Node) string {
	b := make([]byte, 0, 2*len(ns))
	for _, n := range ns {
		b = append(b, "tbcf"[n.Kind])
		if n.Kind == ref.Call {
			for _, a := range n.Args {
				switch a.(type) {
				case nil:
					b = append(b, 'n')
				case string:
					b = append(b, 's')
				case bool:
					b = append(b, 'o')
				default:
					b = append(b, '1')
				}
			}
		}
	}
	return string(b)
}

// judgeParse compares the parse of s with the reference.
func judgeParse(c *ex.C, s string, pos bool) {
	c.Desc(func() string { return fmt.Sprintf("Parse(%q)", s) })
	clause, err := syntax.Parse(s)
	want, verdict := ref.Parse(s)
	switch verdict {
	case ref.Unspec:
		c.Class("unspecified by the grammar")
		return
	case ref.Invalid:
		if err == nil && !pos {
			got, _ := parsed(clause)
			c.Failf("malformed input accepted as %s", showNodes(got))
		}
		c.Class("error")
		return
	}
	if err != nil {
		if pos {
			return
		}
		c.Failf("well-formed input rejected: %v; want %s", err, showNodes(want))
	}
	got, err := parsed(clause)
	if err != nil {
		c.Failf("%v", err)
	}
	same := len(got) == len(want)
	for i := 0; same && i < len(got); i++ {
		same = sameNode(got[i], want[i], pos)
	}
	if !same {
		if pos {
			// wrong expressions are the business of C01
			for i := range got {
				if i >= len(want) || !sameNode(got[i], want[i], false) {
					c.Class("expressions differ")
					return
				}
			}
		}
		c.Failf("parsed as %s, want %s", showNodes(got), showNodes(want))
	}
	if pos {
		b := new(strings.Builder)
		for _, n := range got {
			if n.Kind != ref.Plain {
				fmt.Fprintf(b, "%d:%d ", n.Line, n.Col)
			}
		}
		for _, e := range clause.ExprList {
			p := e.Pos()
			if _, ok := e.(*syntax.PlainExpr); ok {
				continue
			}
			if w := fmt.Sprintf("%d:%d", p.Line(), p.Col()); p.String() != w {
				c.Failf("the text of position %s is %q", w, p.String())
			}
		}
		c.State(b.String())
		c.Class(fmt.Sprintf("%d positions", strings.Count(b.String(), " ")))
		return
	}
	c.State(shapeOf(want) + fmt.Sprint(len(s)))
	c.Class(fmt.Sprintf("ok: %d expressions", len(want)))
}

// lexical contexts of a symbol under test
var parseContexts = [][2]string{
	{"", ""}, {"a", "b"}, {"$1", "$2"}, {"?", "?"}, {"#f", "x"}, {"#f1", "x"}, {"'", "' $1"}, {"\"", "\" #f1"}, {"`", "` ?"},
	{"#", "(1)"}, {"#f(", ")"}, {"#f('", "')#f1"}, {"#f('a'", ",1)"}, {"#f(1,", ",1)"}, {"$", ""}, {"?", "1"}, {"#f(1", "2)"}, {"$$", "??"}, {"'it''", "s' ?"},
	{"#f", "#g"}, {"#f", "1"}, {"#f", "(1)"}, {"#f(1)", "$1"},
}

var templateTokens = []string{
	"$1", "?", "#f1", "#f", "#f('x')", "#join('#f=#arg', ',')", "x", " ", "'q?'",
	"$2", "$10", "$0", "$", "?1", "?0", "$$", "??", "#", "#f(1,true,null)", "#f()", "#f(", "(", "1", "'it''s #f'", "\"q$1\"", "`q'?`", "'open ",
	"\n", "#_a_B2", "é", "\x00", "\xff", ",", ")",
}

func codepoint(c *ex.C, max int) string {
	// every byte, then every code point
	n := c.N(2)
	if n == 0 {
		return string([]byte{byte(c.N(256))})
	}
	hi := c.N(max >> 8)
	r := rune(hi<<8 | c.N(256))
	if r >= 0xD800 && r < 0xE000 {
		c.Skip()
	}
	return string(r)
}

func symbols(c *ex.C, max int, alphabet []string) string {
	b := new(strings.Builder)
	n := c.N(max + 1)
	for i := 0; i < n; i++ {
		b.WriteString(alphabet[c.N(len(alphabet))])
	}
	return b.String()
}

func parseFamilies(pos bool) func(thorough bool) []*ex.Family {
	return func(thorough bool) []*ex.Family {
		lex := []string{"a", "$", "?", "#", "'", "\"", "`", "(", ")", ",", "1", "0", " ", "\n", "é"}
		argsA := []string{"'", ",", ")", " ", "1", "-", ".", "a", "true", "null", "\t", "\u00a0", "nil", "false", "''", "$"}
		if pos {
			lex = []string{"a", "$1", "?", "#f", "'", "\n", "\r", "é", "\xff", "\x00", "1", "日", "#g(1)", "\t"}
		}
		nLex, nArgs, nTok := 5, 4, 3
		cp := 0x10000
		if thorough {
			nLex, nArgs, nTok = 7, 6, 5
			cp = 0x110000
			if pos {
				nTok = 4
			}
		}
		fams := []*ex.Family{
			{Name: "strings", Rule: fmt.Sprintf("all strings of up to %d symbols over %q", nLex, lex),
				Body: func(c *ex.C) { judgeParse(c, symbols(c, nLex, lex), pos) }},
			{Name: "tokens", Rule: fmt.Sprintf("all sequences of up to %d of %d tokens %q", nTok, len(templateTokens), templateTokens),
				Body: func(c *ex.C) { judgeParse(c, symbols(c, nTok, templateTokens), pos) }},
			{Name: "code-points", Rule: fmt.Sprintf("every byte and every code point below %#x in %d contexts", cp, len(parseContexts)),
				Body: func(c *ex.C) {
					x := parseContexts[c.N(len(parseContexts))]
					s := codepoint(c, cp)
					judgeParse(c, x[0]+s+x[1], pos)
				}},
			{Name: "byte-pairs", Rule: "every pair of bytes in 6 contexts",
				Body: func(c *ex.C) {
					x := ex.Pick(c, [2]string{"", "$1"}, [2]string{"'", "'?"}, [2]string{"#f", "x"}, [2]string{"#f(", ")"}, [2]string{"#f(1,'", "')"}, [2]string{"\n", "#f"})
					s := string([]byte{byte(c.N(256)), byte(c.N(256))})
					judgeParse(c, x[0]+s+x[1], pos)
				}},
			{Name: "sizes", Rule: "repetitions of 0..300 (thorough 2000) of each of 12 units, before and after a reference",
				Body: func(c *ex.C) {
					unit := ex.Pick(c, "?", "$1", "#f", "#f1", "x", "é", "'a'", "\n", "??", " ", "#join('#f',',')", "\xff")
					n := c.N(choose(thorough, 301, 2001))
					s := strings.Repeat(unit, n)
					switch c.N(3) {
					case 1:
						s += "#g(1)"
					case 2:
						s = "#g" + s
					}
					judgeParse(c, s, pos)
				}},
			{Name: "numbers", Rule: "every bind variable and function index 0..2999 (thorough 99999), leading zeros, and the digit counts 1..40",
				Body: func(c *ex.C) {
					ref := ex.Pick(c, "$", "#f", "?", "#f(", "#f(-", "#f(1.")
					var num string
					switch c.N(3) {
					case 0:
						num = fmt.Sprint(c.N(choose(thorough, 3000, 100000)))
					case 1:
						num = fmt.Sprintf("%04d", c.N(1000))
					case 2:
						num = strings.Repeat(fmt.Sprint(c.N(10)), 1+c.N(40))
					}
					s := ref + num
					if strings.Contains(ref, "(") {
						s += ")"
					}
					judgeParse(c, s+ex.Pick(c, "", "x", " "), pos)
				}},
			{Name: "names", Rule: "function names of 1..300 letters, every pair of ASCII letters and underscore, in 4 uses",
				Body: func(c *ex.C) {
					const l = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
					var name string
					if c.N(2) == 0 {
						name = string([]byte{l[c.N(len(l))], l[c.N(len(l))]})
					} else {
						name = strings.Repeat("aB_", 101)[:1+c.N(300)]
					}
					judgeParse(c, "#"+name+ex.Pick(c, "", "1", "(1)", " "), pos)
				}},
		}
		if !pos {
			fams = append(fams, &ex.Family{Name: "arguments", Rule: fmt.Sprintf("'#f(' followed by all sequences of up to %d of %q, then ')' or nothing", nArgs+1, argsA),
				Body: func(c *ex.C) {
					s := "#f(" + symbols(c, nArgs+1, argsA)
					if c.Bool() {
						s += ")"
					}
					judgeParse(c, s+ex.Pick(c, "", "?"), pos)
				}})
			fams = append(fams, &ex.Family{Name: "argument-lists", Rule: "all lists of up to 4 (thorough 5) literals of each kind with each way to space them",
				Body: func(c *ex.C) {
					n := c.N(choose(thorough, 5, 6))
					var l []string
					for i := 0; i < n; i++ {
						l = append(l, ex.Pick(c, "1", "'a'", "true", "null", "-1.50", "'it''s, (x)'", "false", "nil", "''", "0", "'é\n'"))
					}
					sp := ex.Pick(c, "", " ", "\n\t ")
					judgeParse(c, "a#f("+sp+strings.Join(l, ","+sp)+")b", pos)
				}})
		} else {
			fams = append(fams, &ex.Family{Name: "lines", Rule: "all layouts of up to 3 (thorough 4) lines of 0..4 (thorough 8) characters of 5 widths, then 0, 1, 2 or 37 characters and a reference",
				Body: func(c *ex.C) {
					s := ""
					for n := c.N(choose(thorough, 3, 4)); n > 0; n-- {
						s += strings.Repeat(ex.Pick(c, "a", "é", "日", "😀", "\xff"), c.N(choose(thorough, 5, 9))) + ex.Pick(c, "\n", "\r\n", "\n\n")
					}
					s += strings.Repeat(ex.Pick(c, "a", "é", "日", "😀", "\xff"), ex.Pick(c, 0, 1, 2, 37)) + ex.Pick(c, "?", "$1", "#f", "#f1", "#f('\n',1)#g")
					judgeParse(c, s, pos)
				}},
				&ex.Family{Name: "pos-text", Rule: "positions built with NewPos for lines and columns 0..300",
					Body: func(c *ex.C) {
						l, col := uint(1+c.N(300)), uint(1+c.N(300))
						c.Desc(func() string { return fmt.Sprintf("NewPos(%d,%d)", l, col) })
						p := syntax.NewPos(l, col)
						if p.Line() != l || p.Col() != col || p.String() != fmt.Sprintf("%d:%d", l, col) {
							c.Failf("NewPos(%d,%d) is line %d column %d, text %q", l, col, p.Line(), p.Col(), p.String())
						}
						c.State(p.String())
					}})
		}
		return fams
	}
}

func init() {
	register(&Check{ID: "C01", Families: parseFamilies(false), Assumptions: []string{
		"Unspecified by the grammar, only termination is checked: unquoted literals with trailing white space, number forms other than decimal digits with an optional sign and one point (exponents, hex, inf, nan), a comma before the closing parenthesis, bind variable indexes above 2^31.",
		"Adjacent pieces of plain text count as one.",
	}})
	register(&Check{ID: "C25", Families: parseFamilies(true), Assumptions: []string{
		"Positions of plain text are not specified; inputs whose expressions are wrong are the business of C01.",
	}})
	_ = utf8.RuneError
}
