// Package ref holds the reference models: what go-sqlf is meant to do,
// written independently and as boring as possible.
package ref

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Kind is the kind of a node.
type Kind int

// kinds
const (
	Plain Kind = iota
	Bind
	Call
	Func
)

// Node is an expression of a template.
type Node struct {
	Kind      Kind
	Text      string // Plain
	Dollar    bool   // Bind
	Index     int    // Bind
	Name      string // Call, Func
	Args      []any  // Call: float64, string, bool, nil
	Line, Col uint   // where it starts (not for Plain)
}

// Verdict tells what the template language says about an input.
type Verdict int

// verdicts
const (
	OK      Verdict = iota
	Invalid         // must be an error
	Unspec          // the language doesn't tell, but it must terminate
)

func letter(r byte) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_'
}
func digit(r byte) bool { return r >= '0' && r <= '9' }

// Parse parses a template.
func Parse(s string) ([]Node, Verdict) {
	var nodes []Node
	from := 0 // of the text not added yet
	i := 0
	var styled, dollar bool
	nBind := 0
	line, col, at := uint(1), uint(1), 0
	// pos is called with increasing offsets
	pos := func(off int) (uint, uint) {
		for at < off {
			_, w := utf8.DecodeRuneInString(s[at:])
			col++
			if s[at] == '\n' {
				line, col = line+1, 1
			}
			at += w
		}
		return line, col
	}
	// add adds the text up to start, and the node which ends at end
	add := func(n Node, start, end int) {
		if from < start {
			nodes = append(nodes, Node{Kind: Plain, Text: s[from:start]})
		}
		nodes = append(nodes, n)
		from = end
	}
	for i < len(s) {
		c := s[i]
		switch c {
		case '\'', '"', '`':
			j := i + 1
			for ; j < len(s); j++ {
				if s[j] != c {
					continue
				}
				if c == '\'' && j+1 < len(s) && s[j+1] == '\'' {
					j++
					continue
				}
				j++
				break
			}
			if j > len(s) {
				j = len(s)
			}
			i = j
		case '$', '?':
			if i+1 < len(s) && s[i+1] == c {
				i += 2
				continue
			}
			l, col := pos(i)
			j := i + 1
			for j < len(s) && digit(s[j]) {
				if j == i+1 && s[j] == '0' {
					break
				}
				j++
			}
			num := s[i+1 : j]
			if styled && dollar != (c == '$') {
				return nil, Invalid
			}
			styled, dollar = true, c == '$'
			n := Node{Kind: Bind, Dollar: dollar, Line: l, Col: col}
			if dollar {
				if num == "" {
					return nil, Invalid
				}
				v, err := strconv.ParseUint(num, 10, 64)
				if err != nil {
					return nil, Invalid
				}
				if v > 1<<31-1 {
					return nil, Unspec
				}
				n.Index = int(v)
			} else {
				if num != "" {
					return nil, Invalid
				}
				nBind++
				n.Index = nBind
			}
			add(n, i, j)
			i = j
		case '#':
			l, col := pos(i)
			j := i + 1
			for j < len(s) && letter(s[j]) {
				j++
			}
			name := s[i+1 : j]
			if name == "" {
				return nil, Invalid
			}
			n := Node{Kind: Func, Name: name, Line: l, Col: col}
			k := j
			for k < len(s) && digit(s[k]) {
				k++
			}
			switch {
			case k > j:
				v, err := strconv.ParseFloat(s[j:k], 64)
				if err != nil {
					return nil, Invalid
				}
				n.Kind = Call
				n.Args = []any{v}
				j = k
			case j < len(s) && s[j] == '(':
				args, end, v := parseArgs(s, j+1)
				if v != OK {
					return nil, v
				}
				n.Kind = Call
				n.Args = args
				j = end
			}
			add(n, i, j)
			i = j
		default:
			i++
		}
	}
	if from < len(s) {
		nodes = append(nodes, Node{Kind: Plain, Text: s[from:]})
	}
	return nodes, OK
}

func skipSpace(s string, i int) int {
	for i < len(s) {
		r, w := utf8.DecodeRuneInString(s[i:])
		if !unicode.IsSpace(r) {
			break
		}
		i += w
	}
	return i
}

// parseArgs parses the args after the '(' up to the ')'.
func parseArgs(s string, i int) (args []any, end int, v Verdict) {
	unspec := false
	i = skipSpace(s, i)
	if i < len(s) && s[i] == ')' {
		return nil, i + 1, OK
	}
	for {
		// a literal
		i = skipSpace(s, i)
		if i >= len(s) {
			return nil, 0, Invalid
		}
		switch s[i] {
		case ',':
			return nil, 0, Invalid
		case ')':
			// after a comma
			unspec = true
		case '\'':
			b := new(strings.Builder)
			closed := false
			for i++; i < len(s); i++ {
				if s[i] != '\'' {
					b.WriteByte(s[i])
					continue
				}
				if i+1 < len(s) && s[i+1] == '\'' {
					b.WriteByte('\'')
					i++
					continue
				}
				closed = true
				i++
				break
			}
			if !closed {
				return nil, 0, Invalid
			}
			args = append(args, b.String())
			i = skipSpace(s, i)
		default:
			j := i
			for j < len(s) && s[j] != ',' && s[j] != ')' {
				j++
			}
			val, ok, u := literal(s[i:j])
			if !ok && !u {
				return nil, 0, Invalid
			}
			unspec = unspec || u
			args = append(args, val)
			i = j
		}
		if i >= len(s) {
			return nil, 0, Invalid
		}
		switch s[i] {
		case ',':
			i++
		case ')':
			if unspec {
				return nil, 0, Unspec
			}
			return args, i + 1, OK
		default:
			return nil, 0, Invalid
		}
	}
}

// literal is the value of an unquoted literal. Unspecified are the forms
// which other readers of numbers may or may not accept, and spaces at its end.
func literal(lit string) (v any, ok, unspec bool) {
	t := strings.TrimRightFunc(lit, unicode.IsSpace)
	switch t {
	case "true":
		v, ok = true, true
	case "false":
		v, ok = false, true
	case "null", "nil":
		ok = true
	default:
		d := strings.TrimLeft(t, "+-")
		if len(t)-len(d) <= 1 && d != "" {
			simple, point, digits := true, 0, 0
			for i := 0; i < len(d); i++ {
				switch {
				case digit(d[i]):
					digits++
				case d[i] == '.':
					point++
				default:
					simple = false
				}
			}
			if simple && digits > 0 && point <= 1 && digits < 300 {
				f, err := strconv.ParseFloat(t, 64)
				if err != nil {
					return nil, false, false
				}
				if t[0] == '+' || d[0] == '.' || d[len(d)-1] == '.' {
					return f, false, true
				}
				v, ok = f, true
			} else if _, err := strconv.ParseFloat(t, 64); err == nil || digits >= 300 {
				return 0.0, false, true
			}
		}
	}
	if ok && t != lit {
		return v, false, true
	}
	return v, ok, false
}
