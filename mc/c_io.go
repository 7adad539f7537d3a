package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
)

// C13 and C14: failing destinations and sources.

type ioBase struct {
	name string
	d    *RootDef
	text string
	big  bool
}

func ioBases(thorough bool) (out []ioBase) {
	add := func(name string, d *RootDef, tree *Val, st style) {
		out = append(out, ioBase{name, d, render(d.header, tree, st), false})
	}
	for _, d := range []*RootDef{rootAPI, rootLib} {
		add("empty "+d.name, d, vM(), stDefault)
		add("tiny "+d.name, d, vM(kv("title", vS("t"))), stDefault)
		for v := 0; v < 3; v++ {
			add(fmt.Sprint("full ", d.name, " ", v), d, fullRoot(d, v), styles[v%3])
		}
		add("unicode "+d.name, d, vM(kv("title", vS("\u65e5\u672c\u8a9e \U0001F600 \u00e9")), kv("x-\u00e9", vS("\u00fc\u2028 x"))), stDefault)
	}
	for i, kind := range kindNames {
		for wi, w := range wraps {
			if (wi+i)%4 == 0 || thorough {
				add(kind+" as "+w.name, w.def(), w.f(fullDecl(kind, wi%2)), styles[(i+wi)%2])
			}
		}
	}
	long := vM()
	for i := 0; i < 60; i++ {
		long.M = append(long.M, kv(fmt.Sprintf("T%02d", (i*37)%60), fullDecl(kindNames[i%len(kindNames)], i%2)))
	}
	add("long", rootAPI, vM(kv("title", vS("long")), kv("types", long)), stDefault)
	out[len(out)-1].big = true
	huge := vM()
	for i := 0; i < 1200; i++ {
		huge.M = append(huge.M, kv(fmt.Sprintf("T%04d", (i*37)%1201), vM(kv("type", vS("string")), kv("description", vS(strings.Repeat(fmt.Sprintf("text %d ", i), 30))))))
	}
	add("huge", rootLib, vM(kv("usage", vS("huge")), kv("types", huge)), stDefault)
	out[len(out)-1].big = true
	return
}

// badWriter accepts limit bytes and then fails.
type badWriter struct {
	limit     int
	mode      int // 0: takes what fits and fails; 1: takes nothing of the failing call; 2: takes the whole failing call
	transient bool
	got       bytes.Buffer
	failed    int
	calls     int
	err       error
}

func (w *badWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.failed > 0 {
		if w.transient {
			w.got.Write(p)
			return len(p), nil
		}
		return 0, w.err
	}
	left := w.limit - w.got.Len()
	if len(p) <= left {
		w.got.Write(p)
		return len(p), nil
	}
	w.failed++
	n := left
	switch w.mode {
	case 1:
		n = 0
	case 2:
		n = len(p)
	}
	w.got.Write(p[:n])
	return n, w.err
}

// failCall fails at the nth call after taking everything given to it.
var errDest = errors.New("destination failed")

func destErrors() []error {
	return []error{errDest, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, os.ErrClosed, context.Canceled, fmt.Errorf("wrapped: %w", io.EOF)}
}

func offsets(n int, big, thorough bool) (out []int) {
	for i := 0; i < n; i++ {
		if !big || i < 200 || i > n-200 || i%4096 < 3 || i%4096 > 4093 || i%(n/150) == 0 || (thorough && i%31 == 0) {
			out = append(out, i)
		}
	}
	return
}

func c13(r *R) {
	for _, b := range ioBases(r.thorough()) {
		b := b
		doc, err := parseDoc(b.d, b.text)
		if err != nil {
			panic(fmt.Sprintf("%s: %v", b.name, err))
		}
		var want []byte
		var before *Val
		prepare := func(t *T) bool {
			if want != nil {
				return true
			}
			out, err := doc.write()
			if err != nil {
				t.Failf("writing to a buffer failed: %v", err)
				return false
			}
			want, before = out, doc.snap()
			return true
		}
		out, _ := doc.write() // the length only
		errs := destErrors()
		for _, mode := range []int{0, 1, 2} {
			for _, transient := range []bool{false, true} {
				for oi, k := range offsets(len(out), b.big, r.thorough()) {
					if b.big && (mode+oi)%3 != 0 {
						continue
					}
					for ei, e := range errs {
						if ei > 0 && (k+ei)%97 != 0 && !(k < 20 && mode == 0) {
							continue
						}
						r.Case(func() string {
							return fmt.Sprintf("writing %s to a destination failing at byte %d with %q (mode %d, transient %v)\n%s", b.name, k, e, mode, transient, firstN(b.text, 3000))
						}, func(t *T) {
							if !prepare(t) {
								return
							}
							t.State(fmt.Sprint(b.name, k, mode, transient, ei))
							w := &badWriter{limit: k, mode: mode, transient: transient, err: e}
							t.Trans(1)
							err := doc.x.WriteRAML(w)
							if w.failed == 0 {
								t.Failf("the document was written with %d bytes, a successful write has %d", w.got.Len(), len(want))
								return
							}
							if err == nil {
								t.Failf("the destination failed at byte %d but the write returned no error", k)
							}
							if !bytes.HasPrefix(want, w.got.Bytes()) {
								t.Failf("what the destination accepted is not a prefix of the full text:\n%q", firstN(w.got.String(), 2000))
							}
							if b.big && k%5 != 0 {
								return
							}
							var again bytes.Buffer
							t.Trans(1)
							if err := doc.x.WriteRAML(&again); err != nil {
								t.Failf("a write after a failed one failed: %v", err)
							} else if !bytes.Equal(again.Bytes(), want) {
								t.Failf("a write after a failed one gives different text")
							}
							if k%7 == 0 {
								if d := diff(before, doc.snap(), "doc"); d != "" {
									t.Failf("a failed write changed the document: %s", d)
								}
							}
						})
					}
				}
			}
		}
		// destinations that take the text in other portions
		for _, k := range []int{1, 2, 3, 7, 64, 511, 512, 513, 4096} {
			k := k
			r.Case(func() string { return fmt.Sprintf("writing %s through a pipe read in portions of %d", b.name, k) }, func(t *T) {
				if !prepare(t) {
					return
				}
				t.State(fmt.Sprint(b.name, "pipe", k))
				pr, pw := io.Pipe()
				var werr error
				go func() { werr = doc.x.WriteRAML(pw); pw.CloseWithError(werr) }()
				var got bytes.Buffer
				buf := make([]byte, k)
				_, err := io.CopyBuffer(&got, struct{ io.Reader }{pr}, buf)
				t.Trans(1)
				if err != nil || !bytes.Equal(got.Bytes(), want) {
					t.Failf("written through a pipe: error %v, %d bytes of %d", err, got.Len(), len(want))
				}
			})
		}
	}
}

// ---------------------------------------------------------------- C14

// chunkReader delivers text in the given portions and then fails or ends.
type chunkReader struct {
	text   []byte
	sizes  []int // cyclic; 0 is an empty read
	i      int
	failAt int // -1: never
	err    error
	with   bool // the error (or EOF) comes along with the last bytes
	once   bool // after the error the rest is delivered
	failed bool
	off    int
	trash  bool // unused buffer space is overwritten
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	end := len(c.text)
	if c.failAt >= 0 && !c.failed {
		end = c.failAt
	}
	n := c.sizes[c.i%len(c.sizes)]
	c.i++
	if n > len(p) {
		n = len(p)
	}
	if n > end-c.off {
		n = end - c.off
	}
	copy(p, c.text[c.off:c.off+n])
	if c.trash {
		for i := n; i < len(p); i++ {
			p[i] = '#'
		}
	}
	c.off += n
	if c.off == end && (n == 0 || c.with) {
		if c.failAt >= 0 {
			if !c.failed {
				c.failed = true
				return n, c.err
			}
			if !c.once {
				return n, c.err
			}
		}
		return n, io.EOF
	}
	return n, nil
}

func sourceErrors() []error {
	return []error{errors.New("source failed"), io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrClosed, context.DeadlineExceeded, errors.New("EOF"), fmt.Errorf("wrapped: %w", io.EOF), io.ErrNoProgress}
}

func utf16of(s string, big bool) string {
	var b strings.Builder
	put := func(u uint16) {
		if big {
			b.WriteByte(byte(u >> 8))
			b.WriteByte(byte(u))
		} else {
			b.WriteByte(byte(u))
			b.WriteByte(byte(u >> 8))
		}
	}
	put(0xFEFF)
	for _, r := range s {
		if r > 0xFFFF {
			r -= 0x10000
			put(uint16(0xD800 + (r >> 10)))
			put(uint16(0xDC00 + (r & 0x3FF)))
			continue
		}
		put(uint16(r))
	}
	return b.String()
}

func c14(r *R) {
	bases := ioBases(r.thorough())
	for _, b := range bases[:14] {
		if len(b.text) < 800 {
			bases = append(bases, ioBase{b.name + " (BOM)", b.d, "\xef\xbb\xbf" + b.text, false}, ioBase{b.name + " (UTF-16)", b.d, utf16of(b.text, len(bases)%2 == 0), false})
		}
	}
	bases = append(bases,
		ioBase{"malformed at the end", rootAPI, "#%RAML 1.0\ntitle: t\ntypes:\n  A: string\n  B: [x\n", false},
		ioBase{"malformed facet", rootLib, "#%RAML 1.0 Library\ntypes:\n  A:\n    type: string\n    minLength: x\nusage: u\n", false},
		ioBase{"no newline at the end", rootAPI, "#%RAML 1.0\ntitle: t\nversion: v", false},
		ioBase{"second document", rootAPI, "#%RAML 1.0\ntitle: t\n---\ntitle: u\n", false},
		ioBase{"dos line ends", rootLib, "#%RAML 1.0 Library\r\nusage: u\r\ntypes:\r\n  A: string\r\n", false},
		ioBase{"blank", rootLib, "", false}, ioBase{"blank", rootAPI, "", false}, ioBase{"comment", rootAPI, "#%RAML 1.0\n", false}, ioBase{"trailing comment", rootAPI, "title: t\n# end\n", false})
	for _, b := range bases {
		b := b
		want, wantErr := parseDoc(b.d, b.text)
		var wantSnap *Val
		var wantText []byte
		same := func(t *T, rd io.Reader) {
			t.Trans(1)
			got, err := parseFrom(b.d, rd)
			if (err == nil) != (wantErr == nil) || (err != nil && err.Error() != wantErr.Error()) {
				t.Failf("read at once: error %v; read in portions: error %v", wantErr, err)
				return
			}
			if err != nil {
				return
			}
			if wantSnap == nil {
				wantSnap = want.snap()
				wantText, _ = want.write()
			}
			if d := diff(wantSnap, got.snap(), "doc"); d != "" {
				t.Failf("the document depends on the portions it is read in: %s", d)
			}
			if x, _ := got.write(); !bytes.Equal(x, wantText) {
				t.Failf("the written text depends on the portions the document was read in")
			}
		}
		text := []byte(b.text)
		var cyc [][]int
		for k := 1; k <= 70; k++ {
			cyc = append(cyc, []int{k})
		}
		cyc = append(cyc, []int{0, 1}, []int{0, 0, 0, 1}, []int{1, 2, 3, 4, 5}, []int{100}, []int{127}, []int{128}, []int{129}, []int{255}, []int{256}, []int{257}, []int{511}, []int{512}, []int{513}, []int{1023}, []int{1024}, []int{4096}, []int{0, 512}, []int{512, 1}, []int{1, 511}, []int{511, 1, 1}, []int{3, 0}, []int{1 << 20})
		for _, sizes := range cyc {
			if b.big && sizes[0] < 3 && len(sizes) == 1 && !r.thorough() {
				continue
			}
			for v := 0; v < 4; v++ {
				sizes, v := sizes, v
				r.Case(func() string {
					return fmt.Sprintf("reading %s in portions of %v (variant %d)\n%s", b.name, sizes, v, firstN(b.text, 2000))
				}, func(t *T) {
					t.State(fmt.Sprint(b.name, sizes, v))
					same(t, &chunkReader{text: text, sizes: sizes, failAt: -1, with: v&1 != 0, trash: v&2 != 0})
				})
			}
		}
		// split in two at every byte
		for _, k := range offsets(len(text), b.big, r.thorough()) {
			k := k
			r.Case(func() string {
				return fmt.Sprintf("reading %s split at byte %d\n%s", b.name, k, firstN(b.text, 2000))
			}, func(t *T) {
				t.State(fmt.Sprint(b.name, "split", k))
				same(t, &chunkReader{text: text, sizes: []int{k, 0, 1 << 20}, failAt: -1, with: k%2 == 0, trash: k%3 == 0})
			})
		}
		// all portionings of short documents
		if len(text) <= 12 {
			for m := 0; m < 1<<uint(len(text)); m++ {
				var sizes []int
				n := 1
				for i := 0; i < len(text); i++ {
					if m>>uint(i)&1 == 1 {
						sizes = append(sizes, n)
						n = 0
					}
					n++
				}
				sizes = append(sizes, n+1)
				m := m
				r.Case(func() string { return fmt.Sprintf("reading %s in portions of %v", b.name, sizes) }, func(t *T) {
					t.State(fmt.Sprint(b.name, "portions", m))
					same(t, &chunkReader{text: text, sizes: sizes, failAt: -1})
				})
			}
		}
		if wantErr != nil || b.name == "second document" || len(text) == 0 {
			continue
		}
		// a failure at every byte
		for _, k := range offsets(len(text), b.big, r.thorough()) {
			for ei, e := range sourceErrors() {
				if ei > 0 && !(k < 6 || k >= len(text)-3 || (k+ei*13)%29 == 0) {
					continue
				}
				for v := 0; v < 8; v++ {
					if b.big && (k+v)%8 != 0 && k > 10 {
						continue
					}
					k, e, v := k, e, v
					r.Case(func() string {
						return fmt.Sprintf("reading %s from a source failing at byte %d with %q (variant %d)\n%s", b.name, k, e, v, firstN(b.text, 2000))
					}, func(t *T) {
						t.State(fmt.Sprint(b.name, "fail", k, ei, v))
						sizes := []int{1 << 20}
						if v&2 != 0 {
							sizes = []int{7}
						}
						rd := &chunkReader{text: text, sizes: sizes, failAt: k, err: e, with: v&1 != 0, once: v&4 != 0}
						t.Trans(1)
						_, err := parseFrom(b.d, rd)
						if err == nil {
							t.Failf("the source failed at byte %d of %d but reading succeeded", k, len(text))
						} else if _, both := err.(errBoth); both || strings.Contains(err.Error(), "a document was returned along") {
							t.Failf("%v", err)
						}
					})
				}
			}
		}
	}
}

func init() {
	reg(&checkDef{id: "C13", level: "model_checking", fn: c13, stateIs: "document, failing byte, kind of failure",
		rule:   "every document is written to a destination failing at every byte offset (every 4096-byte boundary, both ends and a regular grid for texts beyond 100 kB), in three ways of failing, permanently and once, with eight errors; then written again",
		assume: []string{"destinations honour io.Writer: a short write comes with an error"}})
	reg(&checkDef{id: "C14", level: "model_checking", fn: c14, stateIs: "document and portioning or failing byte",
		rule:   "every document is read in regular portions of 1 to 70 and block-sized bytes, split in two at every byte, in all portionings when short; and from sources failing at every byte with eight errors in eight variants",
		assume: []string{"sources honour io.Reader", "a failure in place of the end of input, after the last byte, is not judged"}})
}
