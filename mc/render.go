package main

import (
	"fmt"
	"regexp"
	"strings"
)

// Rendering of trees to YAML text, independent of the library under test and
// of its YAML writer.

type style struct {
	flow   bool // flow collections below the root
	quote  byte // 0 automatic, 'd' always double, 's' single where possible, 'l' literal where possible
	indent int
}

var plainOK = regexp.MustCompile(`^[A-Za-z(/][A-Za-z0-9_./()|-]*( [A-Za-z0-9_./()|-]+)*$`)
var reserved = regexp.MustCompile(`^(?i:true|false|yes|no|on|off|null|y|n)$`)

func rScalarStr(s string, st style, key bool) string {
	if st.quote == 0 && plainOK.MatchString(s) && !reserved.MatchString(s) && len(s) < 400 {
		return s
	}
	if st.quote == 's' && !strings.ContainsAny(s, "\n\t\r\\") && printable(s) {
		return "'" + strings.Replace(s, "'", "''", -1) + "'"
	}
	return rDouble(s)
}

func printable(s string) bool {
	for _, r := range s {
		if r < 0x20 || r == 0x7f || (r >= 0x80 && r < 0xa0) || r == 0x2028 || r == 0x2029 || r == 0xfeff || r > 0xffff || r == 0xfffd {
			return false
		}
	}
	return true
}

func rDouble(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"':
			b.WriteString(`\"`)
		case r == '\\':
			b.WriteString(`\\`)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\r':
			b.WriteString(`\r`)
		case r > 0xffff:
			fmt.Fprintf(&b, `\U%08X`, r)
		case !printable(string(r)):
			fmt.Fprintf(&b, `\u%04X`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func rScalar(v *Val, st style, key bool) string {
	switch v.K {
	case KNull:
		return "null"
	case KStr:
		return rScalarStr(v.S, st, key)
	case KFloat:
		if !strings.ContainsAny(v.S, ".einn") {
			return v.S + ".0"
		}
		return rFloat(v.S)
	case KInt, KBool, KTS, KNum:
		return v.S
	case KTag:
		i := strings.IndexByte(v.S, ' ')
		return v.S[:i] + " " + rScalarStr(v.S[i+1:], style{}, key)
	}
	panic("unrenderable scalar " + v.String())
}

// rFloat makes sure the YAML reader takes the text for a float: a mantissa
// without a point before an exponent is given one.
func rFloat(s string) string {
	if i := strings.IndexByte(s, 'e'); i >= 0 && !strings.Contains(s[:i], ".") {
		return s[:i] + ".0" + s[i:]
	}
	return s
}

func rFlow(b *strings.Builder, v *Val, st style) {
	switch v.K {
	case KList:
		b.WriteString("[")
		for i, x := range v.L {
			if i > 0 {
				b.WriteString(", ")
			}
			rFlow(b, x, st)
		}
		b.WriteString("]")
	case KMap:
		b.WriteString("{")
		for i, x := range v.M {
			if i > 0 {
				b.WriteString(", ")
			}
			k := rScalar(x.K, style{quote: 'd'}, true)
			b.WriteString(k + ": ")
			rFlow(b, x.V, st)
		}
		b.WriteString("}")
	case KStr:
		b.WriteString(rScalarStr(v.S, style{quote: 'd'}, false))
	default:
		b.WriteString(rScalar(v, style{quote: 'd'}, false))
	}
}

func literalOK(s string) bool {
	if !strings.HasSuffix(s, "\n") || strings.HasSuffix(s, "\n\n") || strings.HasPrefix(s, " ") || strings.HasPrefix(s, "\n") {
		return false
	}
	for _, l := range strings.Split(s, "\n") {
		if !printable(l) {
			return false
		}
	}
	return true
}

func rBlock(b *strings.Builder, v *Val, ind int, st style) {
	pad := strings.Repeat(" ", ind)
	step := st.indent
	if step == 0 {
		step = 2
	}
	switch v.K {
	case KMap:
		for _, x := range v.M {
			b.WriteString(pad + rScalar(x.K, st, true) + ":")
			rInner(b, x.V, ind, step, st)
		}
	case KList:
		for _, x := range v.L {
			b.WriteString(pad + "-")
			rInner(b, x, ind, step, st)
		}
	}
}

func rInner(b *strings.Builder, v *Val, ind, step int, st style) {
	switch v.K {
	case KMap, KList:
		if len(v.L) == 0 && len(v.M) == 0 || st.flow {
			b.WriteString(" ")
			rFlow(b, v, st)
			b.WriteString("\n")
			return
		}
		b.WriteString("\n")
		rBlock(b, v, ind+step, st)
	case KStr:
		if st.quote == 'l' && literalOK(v.S) {
			b.WriteString(" |\n")
			p := strings.Repeat(" ", ind+step)
			for _, l := range strings.Split(strings.TrimSuffix(v.S, "\n"), "\n") {
				if l == "" {
					b.WriteString("\n")
				} else {
					b.WriteString(p + l + "\n")
				}
			}
			return
		}
		b.WriteString(" " + rScalarStr(v.S, st, false) + "\n")
	default:
		b.WriteString(" " + rScalar(v, st, false) + "\n")
	}
}

// render writes a root mapping as a YAML document with the given first line.
func render(header string, v *Val, st style) string {
	var b strings.Builder
	if header != "" {
		b.WriteString(header + "\n")
	}
	switch {
	case v.K == KMap && len(v.M) > 0:
		rBlock(&b, v, 0, st)
	case v.K == KMap || v.K == KList && len(v.L) == 0:
		rFlow(&b, v, st)
		b.WriteString("\n")
	case v.K == KList:
		rBlock(&b, v, 0, st)
	default:
		b.WriteString(rScalar(v, st, false) + "\n")
	}
	return b.String()
}

const (
	hdrAPI = "#%RAML 1.0"
	hdrLib = "#%RAML 1.0 Library"
)
