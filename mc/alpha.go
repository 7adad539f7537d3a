package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// Alphabets: the values each facet type is exercised with.

var strAlpha = []string{
	"a", "Hello world", "", "true", "null", "~", "123", "-5", "1.5", "1e3", "0x1F", "2020-01-01", "2020-01-01T10:00:00Z",
	"- a", "a: b", "#c", "a #b", "'q'", "\"dq\"", "it's", "multi\nline\n", "multi\nline", "a\n\nb\n", "line one\nline two is longer\n  indented\n",
	"trail ", "  lead", "tab\there", "\u00fcn\u00ef", "\u65e5\u672c\u8a9e", "emoji \U0001F600", "yes", "no", "off", "Yes", "*a", "&a", "!t", "!include x", "%d", "@x", "`b", "{x}", "[x]", "a,b",
	"?", "-", ":", "|", ">", "=", "\\back\\slash", "a\\nb", "(ann)", "/path", "http://x.org/{v}?a=b&c=d#f", "^[a-z]+$", "<x/>", "false", "FALSE", "nil", "string", "value", "a|b",
	strings.Repeat("x", 63), strings.Repeat("x", 64), strings.Repeat("y", 100), strings.Repeat("z", 129), strings.Repeat("w", 257), strings.Repeat("q", 1025),
	strings.TrimSpace(strings.Repeat("word ", 30)), strings.TrimSpace(strings.Repeat("lorem ipsum: ", 25)), strings.Repeat("line\n", 20),
	"a\u00a0b", "\u200b", "carriage\rreturn", "dos\r\nline\r\n", "\u0007bell", "end\n\n", "\nstart", "\t", "\n", "a  b", "{\"json\": [1, 2]}", "12:30:00", "1:2", "0o17", "0b1", "1_000", ".5", "+1", ".inf", ".nan", "---", "...", "--- a", "<<", "=",
}

func aStr() []*Val {
	out := make([]*Val, 0, len(strAlpha))
	for _, s := range strAlpha {
		out = append(out, vS(s))
	}
	return out
}
func aStrRep() []*Val { return []*Val{vS("x1"), vS("two: words"), vS("")} }
func aBool() []*Val   { return []*Val{vB(true), vB(false)} }

var uintAlpha = []int64{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 999999, 1000000, 1 << 24, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<63 - 2, 1<<63 - 1}

func aUint() []*Val {
	out := make([]*Val, 0, len(uintAlpha))
	for _, i := range uintAlpha {
		out = append(out, vI(i))
	}
	return out
}
func aUintRep() []*Val { return []*Val{vI(7), vI(0), vI(2147483647)} }
func aInt() []*Val {
	out := aUint()
	for _, i := range uintAlpha {
		if i > 0 {
			out = append(out, vI(-i))
		}
	}
	return append(out, vI(math.MinInt64))
}
func aIntRep() []*Val { return []*Val{vI(5), vI(-3), vI(0)} }

var floatAlpha = []float64{0.5, -0.5, 1.5, 2.0, -1.0, 0.1, 0.01, 0.001, 1e-5, 1e-7, 1e-10, 3.141592653589793, 2.718281828, 123456.789, 123456789.125, 1234567890123.25, 0.30000000000000004, 99.99, 100.0, 1e6, 1e10, 1e15, 1e16, 1e20, 1e21, 1e22, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, -1e-7, -123.456, 16777217.0, 9007199254740993.0, 4294967296.5, 33.3333333333}

func aNum() []*Val {
	out := []*Val{}
	for _, f := range floatAlpha {
		out = append(out, vF(f))
	}
	for _, i := range []int64{0, 1, -1, 2, 10, 100, 255, 65536, 1 << 31, 1 << 32, 1 << 53, -1 << 53, 1<<53 + 1, 1<<63 - 1} {
		out = append(out, vI(i))
	}
	return out
}
func aNumRep() []*Val { return []*Val{vF(0.25), vI(4), vF(-7.5)} }

func aDate() []*Val {
	return []*Val{vTS("2020-01-01"), vS("2020-01-01"), vTS("2021-12-31"), vS("2021-02-03T04:05:06"), vTS("2021-02-03T04:05:06Z"), vTS("2021-02-03 04:05:06"), vTS("2021-02-03T04:05:06.789Z"), vTS("2021-02-03T04:05:06+02:00"), vS("Sun, 28 Feb 2016 16:41:41 GMT"), vS("12:30:00"), vS(""), vS("some text"), vTS("0001-01-01"), vTS("9999-12-31")}
}
func aDateRep() []*Val { return []*Val{vTS("2020-02-29"), vS("2020-03-01")} }

func aFmt() []*Val {
	return []*Val{vS("int8"), vS("rfc2616"), vS("int"), vS("int16"), vS("int32"), vS("int64"), vS("long"), vS("float"), vS("double"), vS("rfc3339"), vS("custom fmt"), vS("INT8"), vS(""), vS("true")}
}

func aRaw() []*Val {
	bigU := &Val{K: KInt, S: "18446744073709551615"}
	long := vL()
	for i := 0; i < 40; i++ {
		long.L = append(long.L, vI(int64(i)))
	}
	wide := vM()
	for i := 0; i < 40; i++ {
		wide.M = append(wide.M, kv(fmt.Sprintf("k%d", 39-i), vI(int64(i))))
	}
	deep := vS("bottom")
	for i := 0; i < 15; i++ {
		if i%2 == 0 {
			deep = vM(kv("d", deep))
		} else {
			deep = vL(deep)
		}
	}
	return []*Val{
		vNull(), vB(true), vB(false), vI(0), vI(-5), vI(42), vI(math.MaxInt64), vI(math.MinInt64), bigU,
		vF(1.5), vF(0.1), vF(1e21), vF(1e-7), vF(2), vF(123456789.123456789), vF(1234567.0),
		vS(""), vS("plain"), vS("two words"), vS("123"), vS("true"), vS("null"), vS("1.5"), vS("2020-01-01"), vS("multi\nline\n"), vS("a: b"), vS("- x"), vS("#x"), vS("\u00fc\u65e5"), vS(" sp "), vS(strings.Repeat("long ", 40) + "end"), vS("!include x"), vS("*x"), vS("~"), vS("yes"), vS("\t"),
		vTS("2020-01-01"), vTS("2021-02-03T04:05:06Z"),
		vL(), vM(), vL(vI(1), vS("a"), vNull(), vL(vI(2), vM())),
		vL(vS("c"), vS("a"), vS("b")), vL(vS("x"), vS("x")), vL(vL(), vL(vL(vS("y")))), vL(vM(kv("a", vI(1))), vM(kv("a", vI(2)))),
		vM(kv("a", vI(1)), kv("b", vM(kv("c", vL(vS("x")))))),
		vM(kv("z", vI(1)), kv("a", vI(2)), kv("m", vI(3))),
		vM(kv("type", vS("string"))), vM(kv("title", vS("t"))), vM(kv("strict", vB(false))), vM(kv("displayName", vS("dn")), kv("(ann)", vM(kv("q", vI(1))))),
		vM(KV{K: vI(1), V: vS("one")}, KV{K: vI(2), V: vS("two")}), vM(KV{K: vB(true), V: vS("yes")}), vM(KV{K: vNull(), V: vS("nul")}), vM(KV{K: vF(1.5), V: vS("f")}), vM(KV{K: vS("1"), V: vS("strkey")}, KV{K: vI(1), V: vS("intkey")}),
		vM(kv("", vS("emptykey"))), vM(kv("key with: colon", vI(1)), kv("q\"uote", vI(2))),
		vInc("foo.json"), vM(kv("x", vInc("a/b.raml"))), vL(vInc("c.txt")),
		long, wide, deep,
	}
}
func aRawRep() []*Val {
	return []*Val{vS("raw"), vM(kv("k", vL(vI(1), vNull()))), vI(3)}
}

// keysAlpha are names for named entries.
var keysAlpha = []string{"a", "b-c", "with space", "a?", "/x/", "//", "\u65e5\u672c", "1", "true", "null", "", "x.y", "A[]", "type", "value", "~", "- k", "k: v", "#k", "\"q\"", "2020-01-01", "1.5", strings.Repeat("k", 90), "[a-z]+", "!k", "*k", "&k", "(p)", "items", "properties", "required", "UPPER", "upper", "Upper", "tab\tkey", "new\nline", "<<", "="}

func lists(el func() []*Val) func() []*Val {
	return func() []*Val {
		e := el()
		out := []*Val{vL()}
		for _, x := range e {
			out = append(out, vL(x))
		}
		n := len(e)
		at := func(i int) *Val { return e[i%n] }
		out = append(out, vL(at(0), at(0)), vL(at(2), at(1), at(0)), vL(at(0), at(1), at(2), at(0), at(1)))
		for _, size := range []int{7, 8, 9, 15, 16, 17, 33, 64, 100} {
			l := vL()
			for i := 0; i < size; i++ {
				l.L = append(l.L, at(size-i))
			}
			out = append(out, l)
		}
		out = append(out, vL(e...))
		return out
	}
}

func listsRep(el func() []*Val) func() []*Val {
	return func() []*Val {
		e := el()
		return []*Val{vL(e[0], e[1], e[0]), vL(e[len(e)-1])}
	}
}

func maps(el func() []*Val, pfx string) func() []*Val {
	return func() []*Val {
		e := el()
		out := []*Val{vM()}
		for i, x := range e {
			out = append(out, vM(kv(pfx+strconv.Itoa(i), x)))
		}
		n := len(e)
		at := func(i int) *Val { return e[i%n] }
		for i, k := range keysAlpha {
			out = append(out, vM(kv(k, at(i))))
		}
		out = append(out, vM(kv("z", at(0)), kv("a", at(1)), kv("m", at(2))))
		for _, size := range []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 64, 65, 100} {
			m := vM()
			for i := 0; i < size; i++ {
				m.M = append(m.M, kv(fmt.Sprintf("%s%03d", pfx, (i*37+11)%101), at(i)))
			}
			out = append(out, m)
		}
		m := vM()
		for i, k := range keysAlpha {
			m.M = append(m.M, kv(k, at(i)))
		}
		return append(out, m)
	}
}

func mapsRep(el func() []*Val, pfx string) func() []*Val {
	return func() []*Val {
		e := el()
		return []*Val{vM(kv(pfx+"z", e[0]), kv(pfx+"a", e[1%len(e)])), vM(kv(pfx+"1", e[len(e)-1]))}
	}
}

func aDeclRep() []*Val {
	return []*Val{vS("string"), vM(kv("type", vS("number")), kv("maximum", vI(9))), vM(kv("properties", vM(kv("q", vS("integer")), kv("b", vM(kv("type", vS("boolean")), kv("required", vB(false)))))))}
}

var exprAlpha = []string{"any", "array", "boolean", "date-only", "datetime-only", "datetime", "file", "integer", "nil", "number", "object", "string", "time-only",
	"Custom", "lib.Custom", "string[]", "Custom[]", "string[][]", "(string | nil)[]", "string | nil", "A|B", "A | B | C", "string?", "union", "multi", "custom", "include", "String", "Object", "ANY", "date", "time", "bool", "int", "float", "null", " string", "string ", "", "|", "date-time", "strings", "datetimeonly", "array[]", "!include t.raml", "!includex", "!include", "{\"type\": \"object\"}", "<xs:schema/>"}

func aDecl() []*Val {
	out := []*Val{}
	for _, s := range exprAlpha {
		out = append(out, vS(s))
	}
	out = append(out, vNull(), vInc("types/t.raml"), vM(), vM(kv("type", vInc("x.json"))))
	out = append(out, vM(kv("items", vS("string"))), vM(kv("items", vM(kv("items", vS("Custom"))))),
		vM(kv("properties", vM())), vM(kv("description", vS("d"))), vM(kv("type", vS("Custom")), kv("extra", vI(1))),
		vM(kv("schema", vS("integer")), kv("minimum", vI(-2))), vM(kv("required", vB(false)), kv("type", vS("date-only"))))
	return append(out, aDeclRep()...)
}

func aXML() []*Val {
	return []*Val{
		vM(kv("attribute", vB(true)), kv("name", vS("n"))), vM(kv("wrapped", vB(true)), kv("prefix", vS("p"))),
		vM(kv("attribute", vB(false))), vM(kv("wrapped", vB(false))), vM(), vM(kv("name", vS("")), kv("namespace", vS("http://x.org/ns#a")), kv("prefix", vS("123"))),
		vM(kv("prefix", vS("a")), kv("namespace", vS("b")), kv("name", vS("c")), kv("wrapped", vB(true)), kv("attribute", vB(true))),
		vM(kv("attribute", vB(true)), kv("wrapped", vB(false))), vM(kv("attribute", vB(false)), kv("wrapped", vB(true))),
		vM(kv("other", vI(5)), kv("name", vS("n")), kv("more", vM(kv("z", vI(1)), kv("a", vI(2))))),
		vM(kv("zz", vS("1")), kv("aa", vNull()), KV{K: vI(7), V: vS("int key")}),
		vM(kv("name", vS("only name"))), vM(kv("namespace", vS("only ns"))), vM(kv("prefix", vS("only prefix"))),
	}
}

func aDocs() []*Val {
	d := func(t, c string) *Val { return vM(kv("title", vS(t)), kv("content", vS(c))) }
	out := []*Val{
		vL(d("Intro", "# Hello\n\ntext\n"), d("B", "c")), vL(d("Z", "z")), vL(), vL(vM(kv("title", vS("only")))), vL(vM(kv("content", vS("only")))),
		vL(vM()), vL(vM(kv("content", vS("c")), kv("title", vS("t")))), vL(vM(kv("title", vS("t")), kv("content", vS("c")), kv("x", vI(1)), kv("(a)", vM(kv("b", vNull()))))),
		vL(d("c", "1"), d("a", "2"), d("b", "3")), vL(d("same", "same"), d("same", "same")),
		vL(vM(KV{K: vI(3), V: vS("intkey")}, kv("title", vS("t")))),
	}
	for _, s := range strAlpha {
		out = append(out, vL(d(s, "c")), vL(d("t", s)))
	}
	for _, n := range []int{4, 5, 8, 9, 16, 17, 40} {
		l := vL()
		for i := 0; i < n; i++ {
			l.L = append(l.L, d(fmt.Sprintf("t%d", (i*7)%n), fmt.Sprintf("c%d", i)))
		}
		out = append(out, l)
	}
	return out
}

func aEx(kind string, val *FT) func() []*Val {
	return func() []*Val {
		var out []*Val
		vals := val.full()
		for _, v := range vals {
			if v.K == KMap && v.get("value") != nil {
				continue
			}
			out = append(out, v)
		}
		for i, v := range vals {
			out = append(out, vM(kv("value", v), kv("displayName", vS(strAlpha[i%len(strAlpha)]))))
		}
		rep := val.rep()
		one := []KV{kv("displayName", vS("dn")), kv("description", vS("de")), kv("strict", vB(false)), kv("strict", vB(true)), kv("(ann)", vM(kv("q", vS("r")))), kv("ext", vI(1)), {K: vI(5), V: vL(vS("intkey"))}}
		for _, v := range rep {
			for i, o := range one {
				out = append(out, vM(o, kv("value", v)), vM(kv("value", v), o))
				for j, p := range one {
					if j != i && keyStr(p.K) != keyStr(o.K) {
						out = append(out, vM(p, kv("value", v), o))
					}
				}
			}
			out = append(out, vM(kv("value", v)), vM(one[0], one[1], one[2], one[4], one[5], one[6], kv("value", v)), vM(kv("zz", vI(1)), kv("(z)", vM()), kv("aa", vI(2)), kv("(a)", vM()), kv("value", v)))
		}
		for _, s := range strAlpha {
			out = append(out, vM(kv("value", rep[0]), kv("description", vS(s))))
		}
		for _, raw := range aRaw() {
			out = append(out, vM(kv("value", rep[0]), kv("ex", raw), kv("(n)", vM(kv("r", raw)))))
		}
		if rawKind(kind) {
			out = append(out, vM(kv("value", vM(kv("value", vI(1))))), vM(kv("value", vM(kv("value", vI(1)))), kv("strict", vB(false))), vM(kv("value", vL(vM(kv("value", vI(1)))))))
		}
		return out
	}
}

func aExRep(kind string, val *FT) func() []*Val {
	return func() []*Val {
		r := val.rep()
		return []*Val{r[0], vM(kv("displayName", vS("dn")), kv("value", r[len(r)-1]), kv("strict", vB(false)), kv("(an)", vM(kv("x", vI(1)))), kv("other", vI(2)))}
	}
}
