package props

import (
	"fmt"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"verif.local/mc/ex"
	"verif.local/mc/ref"
)

// verbatim builds the template made of alternating text and references, and
// checks that all the text is there.
func verbatim(c *ex.C, raw, want string, args []any, frags []sqlf.FragmentBuilder, dollar bool) {
	c.Desc(func() string { return fmt.Sprintf("%s build of %q", styleName(dollar), raw) })
	f := &sqlf.Fragment{Raw: raw, Args: args, Fragments: frags}
	got, _, err := f.BuildQuery(ref.Style(dollar))
	if err != nil {
		c.Failf("failed: %v", err)
	}
	if want = strings.TrimSpace(want); got != want {
		c.Failf("built to %q, want %q", got, want)
	}
}

func init() {
	register(&Check{ID: "C02", Assumptions: []string{
		"White space trimmed at the ends is what Unicode calls white space.",
	}, Families: func(thorough bool) []*ex.Family {
		plainSyms := []string{"a", " ", "'", "\"", "`", "$$", "??", "\n", "é", "\x00", "\xff", ";", "-", "\\", "(", "1"}
		refSyms := []string{"$1", "?", "#f1", "$", "#"}
		n := choose(thorough, 4, 6)
		cp := choose(thorough, 0x3000, 0x110000)
		type wrap struct{ pre, post, outPre, outPost string }
		// text before and after the symbol, and how it's built
		outside := []wrap{
			{"", "", "", ""}, {"a", "b", "a", "b"}, {"a ", " b", "a ", " b"}, {"$1 ", " $2", "@1 ", " @2"}, {"#f(1)", "#f(2)", "F", "G"},
			{"#arg(1)", "#arg(2)", "@1", "@2"}, {"", "a", "", "a"}, {"a", "", "a", ""}, {"'q'", "\"q\"", "'q'", "\"q\""}, {"$$", "??", "$$", "??"},
			{"#join('#f',',')", "x", "F,G", "x"},
		}
		inside := []wrap{
			{"'", "'", "'", "'"}, {"\"", "\"", "\"", "\""}, {"`", "`", "`", "`"}, {"'a''", "b'", "'a''", "b'"}, {"x'", "'#f(1)#f(2)", "x'", "'FG"},
			{"x\"", "\"$1$2", "x\"", "\"@1@2"}, {"x`", "`#arg1#arg2", "x`", "`@1@2"}, {"x'", "", "x'", ""}, {"'", "", "'", ""}, {"x\"", "", "x\"", ""}, {"`", "", "`", ""},
		}
		run := func(c *ex.C, w wrap, s string) {
			dollar := c.Bool()
			var args []any
			var frags []sqlf.FragmentBuilder
			out := w.outPre + s + w.outPost
			p1, p2 := "?", "?"
			if dollar {
				p1, p2 = "$1", "$2"
			}
			if strings.Contains(w.pre+w.post, "$1") || strings.Contains(w.pre+w.post, "#arg") {
				args = []any{"v", "w"}
				out = strings.Replace(strings.Replace(w.outPre, "@1", p1, 1)+s+strings.Replace(strings.Replace(w.outPost, "@1", p1, 1), "@2", p2, 1), "@2", p2, 1)
			}
			if strings.Contains(w.pre+w.post, "#f") {
				frags = []sqlf.FragmentBuilder{sqlf.F("F"), sqlf.F("G")}
			}
			verbatim(c, w.pre+s+w.post, out, args, frags, dollar)
			c.State(fmt.Sprintf("%v %q", dollar, out))
		}
		return []*ex.Family{
			{Name: "code-points-outside", Rule: fmt.Sprintf("every byte and every code point below %#x, except of $ ? # and quotes, outside of quotes in %d contexts", cp, len(outside)),
				Body: func(c *ex.C) {
					w := outside[c.N(len(outside))]
					s := codepoint(c, cp)
					if strings.ContainsAny(s, "$?#'\"`") {
						c.Skip()
					}
					run(c, w, s)
				}},
			{Name: "code-points-inside", Rule: fmt.Sprintf("every byte and every code point below %#x inside of quotes in %d contexts", cp, len(inside)),
				Body: func(c *ex.C) {
					w := inside[c.N(len(inside))]
					s := codepoint(c, cp)
					if strings.ContainsAny(s, "'\"`") {
						c.Skip()
					}
					run(c, w, s)
				}},
			{Name: "byte-pairs", Rule: "every pair of bytes inside each kind of quotes and after them",
				Body: func(c *ex.C) {
					w := ex.Pick(c, wrap{"'", "'", "'", "'"}, wrap{"\"", "\"", "\"", "\""}, wrap{"`", "`", "`", "`"}, wrap{"a", "a", "a", "a"})
					s := string([]byte{byte(c.N(256)), byte(c.N(256))})
					if strings.ContainsAny(s, "'\"`") || w.pre == "a" && strings.ContainsAny(s, "$?#") {
						c.Skip()
					}
					run(c, w, s)
				}},
			{Name: "quoting", Rule: fmt.Sprintf("all strings of up to %d symbols over %q and %q which have no reference outside of quotes", n, plainSyms, refSyms),
				Body: func(c *ex.C) {
					s := symbols(c, n, append(append([]string{}, plainSyms...), refSyms...))
					nodes, v := ref.Parse(s)
					if v != ref.OK || len(nodes) > 1 || len(nodes) == 1 && nodes[0].Kind != ref.Plain {
						c.Skip()
					}
					verbatim(c, s, s, nil, nil, c.Bool())
					c.State(s)
				}},
			{Name: "mixed", Rule: "all sequences of up to 4 (thorough 5) pieces of text, quoted text and references, with the items they need",
				Body: func(c *ex.C) {
					s := symbols(c, choose(thorough, 4, 5), []string{"a", "?", "#f1", "#arg1", "'$1'", "\"?\"", "`#f1`", "$$", "??", " ", "'x''y'", "\x00", "é", "#join('#f', ',')", "'open ", "\n"})
					nodes, v := ref.Parse(s)
					if v != ref.OK {
						c.Skip()
					}
					f := &ref.Frag{Raw: s}
					for _, n := range nodes {
						if n.Kind == ref.Bind || n.Name == "arg" {
							for len(f.Args) < max(n.Index, 1) {
								f.Args = append(f.Args, fmt.Sprint("v", len(f.Args)))
							}
						}
						if n.Name == "f" || n.Name == "join" {
							f.Items = []any{&ref.Frag{Raw: "'f?' f"}}
						}
					}
					c.Desc(func() string { return f.Show() })
					r := buildFrag(c, f, c.Bool(), false)
					if r.Err != nil {
						c.Skip() // a function value
					}
					note(c, r)
				}},
			{Name: "long", Rule: "texts of 0..1200 (thorough 5000) characters of 5 widths and kinds, with a reference at the end or the start, plain or quoted",
				Body: func(c *ex.C) {
					u := ex.Pick(c, "a", "é", "日", "\xff", "??")
					s := strings.Repeat(u, c.N(choose(thorough, 1201, 5001)))
					run(c, ex.Pick(c, wrap{"x", " #f(1)#f(2)", "x", " FG"}, wrap{"#f(1)#f(2) ", "x", "FG ", "x"}, wrap{"'", "'", "'", "'"}), s)
				}},
			{Name: "nested", Rule: "every byte as text of a fragment referenced from 4 kinds of places",
				Body: func(c *ex.C) {
					b := byte(c.N(256))
					if strings.ContainsRune("$?#'\"`", rune(b)) {
						c.Skip()
					}
					s := "a" + string([]byte{b}) + "b"
					k := c.N(4)
					var f *sqlf.Fragment
					want := s
					switch k {
					case 0:
						f = sqlf.Ff("#f1", sqlf.F(s))
					case 1:
						f = sqlf.Ff("#join('#f', '"+s+"')", sqlf.F(s), sqlf.F("x"))
						want = s + s + "x"
					case 2:
						f = sqlf.Ff("#join('"+s+"#f', ',')", sqlf.F("1"), sqlf.F("x"))
						want = s + "1," + s + "x"
					case 3:
						f = sqlf.F("m").WithPrefix(s).WithSuffix(s)
						want = s + " m " + s
					}
					c.Desc(func() string { return fmt.Sprintf("byte %#x in place %d", b, k) })
					got, _, err := f.BuildQuery(ref.Style(c.Bool()))
					if err != nil || got != want {
						c.Failf("built to %q (%v), want %q", got, err, want)
					}
					c.State(want)
				}},
		}
	}})
}
