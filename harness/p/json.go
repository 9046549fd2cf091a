package p

import (
	"bytes"
	gojson "encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	goreflect "reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf16"
	"unicode/utf8"

	"verif/h"

	"github.com/bantling/micro/encoding/json"
	"github.com/bantling/micro/encoding/json/parse"
	"github.com/bantling/micro/encoding/json/write"
	"github.com/bantling/micro/io/writer"
	"github.com/bantling/micro/iter"
)

// jnode is the model of a JSON value.
type jnode struct {
	k    byte // o a s n b 0
	s    string
	b    bool
	arr  []*jnode
	keys []string
	obj  map[string]*jnode
}

func (n *jnode) eq(m *jnode) bool {
	if n == nil || m == nil || n.k != m.k {
		return false
	}
	switch n.k {
	case 's', 'n':
		return n.s == m.s
	case 'b':
		return n.b == m.b
	case 'a':
		if len(n.arr) != len(m.arr) {
			return false
		}
		for i := range n.arr {
			if !n.arr[i].eq(m.arr[i]) {
				return false
			}
		}
	case 'o':
		if len(n.obj) != len(m.obj) {
			return false
		}
		for k, v := range n.obj {
			if !v.eq(m.obj[k]) {
				return false
			}
		}
	}
	return true
}

func (n *jnode) String() string {
	if n == nil {
		return "<nil>"
	}
	switch n.k {
	case 's':
		return strconv.Quote(n.s)
	case 'n':
		return n.s
	case 'b':
		return fmt.Sprint(n.b)
	case 'a':
		return fmt.Sprint(n.arr)
	case 'o':
		ks := make([]string, 0, len(n.obj))
		for k := range n.obj {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var sb strings.Builder
		for _, k := range ks {
			fmt.Fprintf(&sb, "%q:%v ", k, n.obj[k])
		}
		return "{" + sb.String() + "}"
	}
	return "null"
}

// jparser is a strict parser of the RFC 8259 grammar.
type jparser struct {
	s    []rune
	i    int
	elem []*jnode // elements of a top level array, parsed so far
	conf int      // how many of them were followed by a comma or bracket
}

var errJ = errors.New("syntax")

func (p *jparser) ws() {
	for p.i < len(p.s) && strings.ContainsRune(" \t\r\n", p.s[p.i]) {
		p.i++
	}
}

func (p *jparser) peek() rune {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return -1
}

func (p *jparser) digits() bool {
	st := p.i
	for p.peek() >= '0' && p.peek() <= '9' {
		p.i++
	}
	return p.i > st
}

func (p *jparser) hex4() (rune, error) {
	if p.i+4 > len(p.s) {
		return 0, errJ
	}
	v, err := strconv.ParseUint(string(p.s[p.i:p.i+4]), 16, 16)
	if err != nil {
		return 0, errJ
	}
	p.i += 4
	return rune(v), nil
}

func (p *jparser) str() (string, error) {
	p.i++
	var out []rune
	for {
		r := p.peek()
		switch {
		case r < ' ':
			return "", errJ
		case r == '"':
			p.i++
			return string(out), nil
		case r == '\\':
			p.i++
			e := p.peek()
			p.i++
			if k := strings.IndexRune(`"\/bfnrt`, e); e > 0 && k >= 0 {
				out = append(out, []rune("\"\\/\b\f\n\r\t")[k])
				continue
			}
			if e != 'u' {
				return "", errJ
			}
			h1, err := p.hex4()
			if err != nil {
				return "", err
			}
			if h1 >= 0xd800 && h1 < 0xe000 {
				if p.peek() != '\\' || p.i+1 >= len(p.s) || p.s[p.i+1] != 'u' {
					return "", errJ
				}
				p.i += 2
				h2, err := p.hex4()
				if err != nil {
					return "", err
				}
				c := utf16.DecodeRune(h1, h2)
				if c == 0xfffd { // this parser documents that it accepts the halves in either order
					c = utf16.DecodeRune(h2, h1)
				}
				if c == 0xfffd {
					return "", errJ
				}
				h1 = c
			}
			out = append(out, h1)
		default:
			out = append(out, r)
			p.i++
		}
	}
}

// maxDepth is the nesting up to which the model parses.
const maxDepth = 100000

func (p *jparser) value(top bool, depth int) (*jnode, error) {
	if depth > maxDepth {
		return nil, errJ
	}
	p.ws()
	switch r := p.peek(); {
	case r == '{':
		p.i++
		n := &jnode{k: 'o', obj: map[string]*jnode{}}
		p.ws()
		if p.peek() == '}' {
			p.i++
			return n, nil
		}
		for {
			p.ws()
			if p.peek() != '"' {
				return nil, errJ
			}
			k, err := p.str()
			if err != nil {
				return nil, err
			}
			if _, dup := n.obj[k]; dup {
				return nil, errJ
			}
			p.ws()
			if p.peek() != ':' {
				return nil, errJ
			}
			p.i++
			v, err := p.value(false, depth+1)
			if err != nil {
				return nil, err
			}
			n.obj[k] = v
			n.keys = append(n.keys, k)
			p.ws()
			switch p.peek() {
			case ',':
				p.i++
			case '}':
				p.i++
				return n, nil
			default:
				return nil, errJ
			}
		}
	case r == '[':
		p.i++
		n := &jnode{k: 'a'}
		p.ws()
		if p.peek() == ']' {
			p.i++
			return n, nil
		}
		for {
			v, err := p.value(false, depth+1)
			if err != nil {
				return nil, err
			}
			n.arr = append(n.arr, v)
			if top {
				p.elem = append(p.elem, v)
			}
			p.ws()
			c := p.peek()
			if c != ',' && c != ']' {
				return nil, errJ
			}
			if top {
				p.conf = len(p.elem)
			}
			p.i++
			if c == ']' {
				return n, nil
			}
		}
	case r == '"':
		s, err := p.str()
		return &jnode{k: 's', s: s}, err
	case r == '-' || r >= '0' && r <= '9':
		st := p.i
		if r == '-' {
			p.i++
		}
		if p.peek() == '0' {
			p.i++
		} else if !p.digits() {
			return nil, errJ
		}
		if p.peek() == '.' {
			p.i++
			if !p.digits() {
				return nil, errJ
			}
		}
		if p.peek() == 'e' || p.peek() == 'E' {
			p.i++
			if p.peek() == '+' || p.peek() == '-' {
				p.i++
			}
			if !p.digits() {
				return nil, errJ
			}
		}
		return &jnode{k: 'n', s: string(p.s[st:p.i])}, nil
	}
	for _, w := range []string{"true", "false", "null"} {
		if strings.HasPrefix(string(p.s[p.i:min(len(p.s), p.i+5)]), w) {
			p.i += len(w)
			if w == "null" {
				return &jnode{k: '0'}, nil
			}
			return &jnode{k: 'b', b: w == "true"}, nil
		}
	}
	return nil, errJ
}

// jdoc parses a whole document, which must be an object or array
func jdoc(s string) (*jnode, *jparser, error) {
	p := &jparser{s: []rune(s)}
	if !utf8.ValidString(s) {
		// the valid part, for the elements
		cut := 0
		for cut < len(s) {
			r, sz := utf8.DecodeRuneInString(s[cut:])
			if r == utf8.RuneError && sz <= 1 {
				break
			}
			cut += sz
		}
		p.s = []rune(s[:cut])
		p.ws()
		if p.peek() == '[' || p.peek() == '{' {
			p.value(true, 1)
		}
		return nil, p, errJ
	}
	p.ws()
	if p.peek() != '{' && p.peek() != '[' {
		return nil, p, errJ
	}
	n, err := p.value(true, 1)
	if err != nil {
		return nil, p, err
	}
	p.ws()
	if p.i != len(p.s) {
		return nil, p, errJ
	}
	return n, p, nil
}

// nodeOf converts a Value through its accessors.
func nodeOf(v json.Value) *jnode {
	switch v.Type() {
	case json.Object:
		n := &jnode{k: 'o', obj: map[string]*jnode{}}
		for k, e := range v.AsMap() {
			n.obj[k] = nodeOf(e)
		}
		return n
	case json.Array:
		n := &jnode{k: 'a'}
		for _, e := range v.AsSlice() {
			n.arr = append(n.arr, nodeOf(e))
		}
		return n
	case json.String:
		return &jnode{k: 's', s: v.AsString()}
	case json.Number:
		return &jnode{k: 'n', s: string(v.AsNumber())}
	case json.Boolean:
		return &jnode{k: 'b', b: v.AsBool()}
	case json.Null:
		return &jnode{k: '0'}
	}
	return nil
}

func jws(R *rand.Rand, sb *strings.Builder) {
	for R.Intn(4) == 0 {
		sb.WriteByte(" \t\r\n"[R.Intn(4)])
	}
}

func genJStr(R *rand.Rand, sb *strings.Builder) {
	sb.WriteByte('"')
	for n := szMax(R, 6, 5000); n > 0; n-- {
		switch R.Intn(11) {
		case 0:
			sb.WriteByte('\\')
			sb.WriteByte(`"\/bfnrt`[R.Intn(8)])
		case 1:
			r := []int{0, 0x22, 0x5c, 0x2f, 0xd7ff, 0xe000, 0xffff, 0x1f, 0x7f, 0xfffd}[R.Intn(10)]
			if R.Intn(3) == 0 {
				r = R.Intn(0xd800)
			}
			f := "\\u%04x"
			if R.Intn(2) == 0 {
				f = "\\u%04X"
			}
			fmt.Fprintf(sb, f, r)
		case 2:
			h1, h2 := utf16.EncodeRune(rune(0x10000 + R.Intn(0x100000)))
			if R.Intn(5) == 0 {
				h1, h2 = h2, h1
			}
			fmt.Fprintf(sb, "\\u%04x\\u%04X", h1, h2)
		case 3:
			sb.WriteRune([]rune{0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xfeff, 0x2028}[R.Intn(9)])
		default:
			sb.WriteByte("abc/ {}[]:,'09e-"[R.Intn(16)])
		}
	}
	sb.WriteByte('"')
}

// wide bounds the rare large number of members of a value with depth more levels below it.
func wide(depth int) int {
	if depth >= 2 {
		return 1500
	}
	return 30
}

func genDigits(R *rand.Rand, sb *strings.Builder) {
	if R.Intn(200) == 0 {
		for n := R.Intn(400); n > 0; n-- {
			sb.WriteByte("0123456789"[R.Intn(10)])
		}
	}
	for R.Intn(2) == 0 {
		sb.WriteByte("0123456789"[R.Intn(10)])
	}
}

func genJNum(R *rand.Rand, sb *strings.Builder) {
	if R.Intn(3) == 0 {
		sb.WriteByte('-')
	}
	if R.Intn(3) == 0 {
		sb.WriteByte('0')
	} else {
		sb.WriteByte("123456789"[R.Intn(9)])
		genDigits(R, sb)
	}
	if R.Intn(3) == 0 {
		sb.WriteByte('.')
		sb.WriteByte("0123456789"[R.Intn(10)])
		genDigits(R, sb)
	}
	if R.Intn(4) == 0 {
		sb.WriteByte("eE"[R.Intn(2)])
		if R.Intn(2) == 0 {
			sb.WriteByte("+-"[R.Intn(2)])
		}
		sb.WriteByte("0123456789"[R.Intn(10)])
		for R.Intn(2) == 0 {
			sb.WriteByte("0123456789"[R.Intn(10)])
		}
	}
}

func genJ(R *rand.Rand, sb *strings.Builder, depth int, top bool) {
	jws(R, sb)
	k := R.Intn(9)
	if depth <= 0 {
		k = 4 + R.Intn(5)
	}
	if top {
		k = R.Intn(4)
	}
	switch k {
	case 0, 1:
		sb.WriteByte('{')
		jws(R, sb)
		for i, n := 0, szMax(R, 4, wide(depth)); i < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			jws(R, sb)
			if R.Intn(4) == 0 {
				genJStr(R, sb)
			} else {
				fmt.Fprintf(sb, `"%c%d"`, "abcd"[R.Intn(4)], i)
			}
			jws(R, sb)
			sb.WriteByte(':')
			genJ(R, sb, depth-1, false)
		}
		sb.WriteByte('}')
	case 2, 3:
		sb.WriteByte('[')
		jws(R, sb)
		for i, n := 0, szMax(R, 5, wide(depth)); i < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			genJ(R, sb, depth-1, false)
		}
		sb.WriteByte(']')
	case 4, 5:
		genJStr(R, sb)
	case 6:
		genJNum(R, sb)
	case 7:
		sb.WriteString([]string{"true", "false"}[R.Intn(2)])
	case 8:
		sb.WriteString("null")
	}
	jws(R, sb)
}

var jtokens = []string{"[", "]", "{", "}", ",", ":", `"a"`, `"b"`, "1", "-0.5e1", "true", "false", "null", " ", "\n", `""`, "01", "-01", "1.", ".5", "+1", "nul", "truex", "NaN", "'a'", "\"\\u0022\"", "\"\\ud834\\udd1e\"", "\"\\ud834\"", "\"\\ud834x\"", "\"\\ud834\\u0041\"", "\"\\ud834\\ud834\"", "\"\\x\"", "\"\x01\"", "1e", "1e+", "-", "\"", "\\", "\u00a0", "\ufeff", "/**/", "\f", "\xff", "-a", "1E5", "0e0", "\"\\u00g0\"", "\"\\u00"}

// genJText returns document text: valid, mutated or token soup.
func genJText(R *rand.Rand) (string, string) {
	var sb strings.Builder
	switch R.Intn(7) {
	case 0, 1:
		genJ(R, &sb, 3, true)
		return sb.String(), "grammar"
	case 2, 3: // one mutation of a valid document
		genJ(R, &sb, 2, true)
		b := []byte(sb.String())
		for k := 1 + R.Intn(2); k > 0 && len(b) > 0; k-- {
			i := R.Intn(len(b))
			switch R.Intn(5) {
			case 0:
				b = append(b[:i:i], b[i+1:]...)
			case 1:
				b = append(b[:i:i], append([]byte{"[]{},:\"\\0 1e-.tn"[R.Intn(16)]}, b[i:]...)...)
			case 2:
				b[i] = "[]{},:\"\\0 1e-.tn\x00\xff"[R.Intn(18)]
			case 3:
				b = b[:i]
			case 4:
				j := i + R.Intn(len(b)-i)
				b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
			}
		}
		return string(b), "mutated"
	case 4, 5: // token soup, biased to look like a document
		if R.Intn(3) > 0 {
			sb.WriteString("[{"[R.Intn(2):][:1])
		}
		for n := szMax(R, 8, 200); n > 0; n-- {
			sb.WriteString(jtokens[R.Intn(len(jtokens))])
		}
		if R.Intn(3) > 0 {
			sb.WriteString("]}"[R.Intn(2):][:1])
		}
		return sb.String(), "tokens"
	}
	// short punctuation strings
	for n := R.Intn(7); n > 0; n-- {
		sb.WriteByte(`[]{},:"1a t-`[R.Intn(12)])
	}
	return sb.String(), "punctuation"
}

// oracleAgrees cross checks the model parser with encoding/json.
func oracleAgrees(c *h.Ctx, text string, n *jnode) {
	var v any
	d := gojson.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	err := d.Decode(&v)
	if !gojson.Valid([]byte(text)) || err != nil {
		panic(fmt.Sprintf("oracle: model accepts %q but encoding/json does not: %v", text, err))
	}
	if !strings.Contains(strings.ToLower(text), `\ud`) && !n.eq(nodeOfGo(v)) {
		panic(fmt.Sprintf("oracle: model and encoding/json disagree on %q: %v %v", text, n, v))
	}
	c.Ev("oracle cross checked")
}

func nodeOfGo(v any) *jnode {
	switch t := v.(type) {
	case map[string]any:
		n := &jnode{k: 'o', obj: map[string]*jnode{}}
		for k, e := range t {
			n.obj[k] = nodeOfGo(e)
		}
		return n
	case []any:
		n := &jnode{k: 'a'}
		for _, e := range t {
			n.arr = append(n.arr, nodeOfGo(e))
		}
		return n
	case string:
		return &jnode{k: 's', s: t}
	case gojson.Number:
		return &jnode{k: 'n', s: string(t)}
	case json.NumberString:
		return &jnode{k: 'n', s: string(t)}
	case bool:
		return &jnode{k: 'b', b: t}
	case nil:
		return &jnode{k: '0'}
	}
	return nil
}

func init() {
	h.Register("C12", "grammar generated, mutated and token soup documents read through chunked and failing readers, judged by a strict RFC 8259 model parser that is itself cross checked with encoding/json; element streaming; deep nesting; a case is non-trivial when it is a distinct document text and fault position", func(r *h.Run) {
		N := 1
		if r.Thorough() {
			N = 25
		}
		r.Group("large", 32*N, largeJSON)
		sizes(r, 16, 1100, 4200, largeJSON)
		r.Group("documents", 120000*N, func(c *h.Ctx) {
			R := c.R
			text, how := genJText(R)
			want, p, werr := jdoc(text)
			if werr == nil {
				oracleAgrees(c, text, want)
				c.Ev("accepted document")
			} else {
				c.Ev("refused document: " + how)
				if gojson.Valid([]byte(text)) && utf8.ValidString(text) && strings.ContainsAny(strings.TrimSpace(text)[:1], "[{") && !strings.Contains(strings.ToLower(text), `\ud`) {
					// only a duplicate key can be the reason
					var probe any
					gojson.Unmarshal([]byte(text), &probe)
					c.Ev("refused for a duplicate key")
				}
			}
			rd := newFaultReader(R, []byte(text))
			rd.err = errEOF
			c.NoPanic("json-panic", fmt.Sprintf("Parse(%q)", text), func() {
				v, err := parse.Parse(rd)
				if werr == nil {
					c.Check(err == nil && nodeOf(v).eq(want), "json-accept", "Parse(%q) = %v, %v; want %v", text, nodeOf(v), err, want)
				} else {
					c.Check(err != nil && v.Type() == json.Invalid, "json-refuse", "Parse(%q) = %v, %v; want an error", text, nodeOf(v), err)
				}
			})
			// the panicking form agrees
			_, did := h.Panics(func() {
				v := parse.MustParse(strings.NewReader(text))
				c.Check(nodeOf(v).eq(want), "json-must", "MustParse(%q) = %v want %v", text, nodeOf(v), want)
			})
			c.Check(did == (werr != nil), "json-must", "MustParse(%q) panicked: %v, want %v", text, did, werr != nil)
			// element streaming: complete elements are delivered before the error
			c.NoPanic("json-panic", fmt.Sprintf("Iterate(%q)", text), func() {
				rd := newFaultReader(R, []byte(text))
				rd.err = errEOF
				els, err, sticky := drain(parse.Iterate(rd).Next, len(text)+2)
				if werr == nil && want.k == 'o' {
					c.Check(len(els) == 1 && nodeOf(els[0]).eq(want) && err == iter.EOI && sticky == "", "json-iterate", "Iterate(%q): %d elements, %v %s", text, len(els), err, sticky)
					return
				}
				ok := (err == iter.EOI) == (werr == nil) && sticky == ""
				if werr == nil {
					ok = ok && len(els) == len(want.arr)
				} else {
					ok = ok && len(els) >= min(p.conf, len(p.elem)) && len(els) <= len(p.elem)
				}
				for i := 0; ok && i < len(els); i++ {
					ok = nodeOf(els[i]).eq(p.elem[i])
				}
				c.Check(ok, "json-iterate", "Iterate(%q): %d elements, %v %s; want %d..%d elements, error %v", text, len(els), err, sticky, p.conf, len(p.elem), werr != nil)
				c.EvN("streamed elements", len(els))
			})
			c.Obs(text)
			c.Sample("%q -> error=%v", text, werr != nil)
		})
		r.Group("faults", 60000*N, func(c *h.Ctx) {
			// a valid document cut at a rune boundary by a reader error: the reader's error is reported, never success
			R := c.R
			var sb strings.Builder
			genJ(R, &sb, 3, true)
			text := sb.String()
			if _, _, err := jdoc(text); err != nil {
				return
			}
			bytecut := R.Intn(len(text) + 1)
			cut := bytecut // the last rune that is complete
			for cut < len(text) && !utf8.RuneStart(text[cut]) {
				cut--
			}
			full := strings.TrimRight(text[:cut], " \t\r\n")
			_, p, _ := jdoc(text[:cut])
			rd := newFaultReader(R, []byte(text[:bytecut]))
			errInjected := faultErrs[R.Intn(len(faultErrs))]
			rd.err = errInjected
			c.NoPanic("json-panic", "Parse with a reader error", func() {
				v, err := parse.Parse(rd)
				c.Check(err == errInjected && v.Type() == json.Invalid, "json-reader-error", "Parse(%q then reader error) = %v, %v", text[:cut], nodeOf(v), err)
				rd := newFaultReader(R, []byte(text[:bytecut]))
				rd.err = errInjected
				els, err, sticky := drain(parse.Iterate(rd).Next, len(text)+2)
				ok := err == errInjected && sticky == ""
				if strings.HasPrefix(strings.TrimLeft(text, " \t\r\n"), "[") {
					ok = ok && len(els) >= p.conf && len(els) <= len(p.elem)
					for i := 0; ok && i < len(els); i++ {
						ok = nodeOf(els[i]).eq(p.elem[i])
					}
				} else {
					ok = ok && len(els) == 0
				}
				c.Check(ok, "json-reader-error-iterate", "Iterate(%q then reader error): %d elements, %v %s", text[:cut], len(els), err, sticky)
			})
			c.Ev("reader fault")
			c.Obs(full, cut)
		})
		// every sequence of tokens up to a length, every number text up to a length, every escape and every code point
		judge := func(c *h.Ctx, text string) {
			want, _, werr := jdoc(text)
			if werr == nil {
				oracleAgrees(c, text, want)
			}
			c.NoPanic("json-panic", fmt.Sprintf("Parse(%q)", text), func() {
				v, err := parse.Parse(strings.NewReader(text))
				if werr == nil {
					c.Check(err == nil && nodeOf(v).eq(want), "json-accept", "Parse(%q) = %v, %v; want %v", text, nodeOf(v), err, want)
					c.Ev("exhaustive: accepted")
				} else {
					c.Check(err != nil && v.Type() == json.Invalid, "json-refuse", "Parse(%q) = %v, %v; want an error", text, nodeOf(v), err)
					c.Ev("exhaustive: refused")
				}
			})
		}
		tokens := []string{"[", "]", "{", "}", ",", ":", `"a"`, `"b"`, "0", "null"}
		max := 5
		if r.Thorough() {
			max = 6
		}
		r.Group("all-token-sequences", 2*len(tokens)*len(tokens), func(c *h.Ctx) {
			// [ or { followed by every sequence of up to max tokens
			i := c.Idx
			text := []string{"[", "{"}[i%2]
			i /= 2
			text += tokens[i%len(tokens)] + tokens[i/len(tokens)]
			var rec func(text string, n int)
			rec = func(text string, n int) {
				judge(c, text)
				if n == 0 {
					return
				}
				for _, t := range tokens {
					rec(text+t, n-1)
				}
			}
			rec(text, max-2)
			c.Obs("tokens", c.Idx)
		})
		r.Group("all-number-texts", 7*7, func(c *h.Ctx) {
			const chars = "01-+.eE"
			text := string(chars[c.Idx%7]) + string(chars[c.Idx/7])
			var rec func(text string, n int)
			rec = func(text string, n int) {
				judge(c, "["+text+"]")
				if n == 0 {
					return
				}
				for _, t := range chars {
					rec(text+string(t), n-1)
				}
			}
			rec(text, max-2)
			c.Obs("numbers", c.Idx)
		})
		r.Group("all-escapes", 256, func(c *h.Ctx) {
			for lo := 0; lo < 256; lo++ {
				u := c.Idx<<8 | lo
				judge(c, fmt.Sprintf("[\"\\u%04x\"]", u))
				judge(c, fmt.Sprintf("{\"x\\u%04Xy\":1}", u))
				if u>>10 == 0x36 { // high surrogate: followed by low surrogates, another char, or another escape
					for _, l := range []int{0xdbff, 0xdc00, 0xdc00 | c.R.Intn(0x400), 0xdfff, 0xe000, 0x41} {
						judge(c, fmt.Sprintf("[\"\\u%04x\\u%04x\"]", u, l))
					}
				}
				// every char after a backslash
				judge(c, "[\"\\"+string(rune(u))+"\"]")
			}
			c.Obs("escapes", c.Idx)
		})
		r.Group("all-code-points", 0x1100, func(c *h.Ctx) {
			var sb strings.Builder
			for lo := 0; lo < 256; lo++ {
				cp := rune(c.Idx<<8 | lo)
				if cp < 0x300 {
					judge(c, "[\""+string(cp)+"\"]")
					judge(c, "["+string(cp)+"]")
					judge(c, string(cp)+"[]")
					judge(c, "[]"+string(cp))
				} else if utf8.ValidRune(cp) {
					sb.WriteRune(cp)
				}
			}
			if sb.Len() > 0 {
				judge(c, "{\""+sb.String()+"\":\""+sb.String()+"\"}")
			}
			c.Obs("code-points", c.Idx)
		})
		r.Group("endless", 40, func(c *h.Ctx) {
			// elements are delivered while the rest of the document has not been read
			n := 1 + c.R.Intn(60)
			rd := &endless{head: "[0", unit: ", {\"a\": [1, \"x\"]}"}
			it := parse.Iterate(rd)
			for i := 0; i < n; i++ {
				v, err := it.Next()
				ok := err == nil && (i == 0 && v.Type() == json.Number || i > 0 && v.Type() == json.Object)
				if !c.Check(ok, "json-stream", "element %d of an endless array: %v, %v", i, nodeOf(v), err) {
					break
				}
			}
			c.Check(rd.n < 1<<20, "json-stream-reads", "%d bytes read for %d elements", rd.n, n)
			c.Ev("endless array")
			c.Obs("endless", n)
		})
		r.Group("as-they-arrive", 6000*N, func(c *h.Ctx) {
			// the reader delivers one element at a time, as a slow peer does: every element must be returned before
			// anything that follows it is asked for, except for the one char that says a number or word is over
			R := c.R
			var (
				chunks []string
				els    []*jnode
				sb     strings.Builder
			)
			jws(R, &sb)
			sb.WriteByte('[')
			for n := szMax(R, 6, 300); n > 0; n-- {
				var es strings.Builder
				genJ(R, &es, 2, false)
				text := strings.TrimRight(es.String(), " \t\r\n")
				node, _, err := jdoc("[" + text + "]")
				if err != nil {
					continue
				}
				if len(els) > 0 {
					sb.WriteByte(',')
				}
				sb.WriteString(text)
				els = append(els, node.arr[0])
				if k := node.arr[0].k; k != 'a' && k != 'o' && k != 's' {
					sb.WriteByte(' ')
				}
				chunks = append(chunks, sb.String())
				sb.Reset()
				jws(R, &sb)
			}
			sb.WriteByte(']')
			chunks = append(chunks, sb.String())
			rd := &slowReader{chunks: chunks}
			c.NoPanic("json-panic", fmt.Sprintf("Iterate(%q)", chunks), func() {
				it := parse.Iterate(rd)
				for i, e := range els {
					v, err := it.Next()
					if !c.Check(err == nil && nodeOf(v).eq(e), "json-iterate", "Iterate(%q): element %d is %v, %v", chunks, i, nodeOf(v), err) {
						return
					}
					if !c.Check(rd.begun <= i+1, "json-stream-early", "Iterate(%q): element %d was returned only once %d chunks were asked for", chunks, i, rd.begun) {
						return
					}
					c.Ev("elements returned as they arrive")
				}
				_, err := it.Next()
				c.Check(err == iter.EOI, "json-iterate", "Iterate(%q): end: %v", chunks, err)
			})
			c.Obs(strings.Join(chunks, ""))
		})
		r.Group("nesting", 24, func(c *h.Ctx) {
			n := []int{1, 2, 500, 5000, 9999, 30000, 300000, 2000000}[c.Idx%8]
			open, cl := "[", "]"
			switch c.Idx / 8 {
			case 1:
				open, cl = `{"a":`, "}"
			case 2:
				open, cl = `[{"b":`, "}]"
				n /= 2
			}
			if n == 0 {
				n = 1
			}
			inner := "1"
			c.NoPanic("json-panic", "nested document", func() {
				v, err := parse.Parse(strings.NewReader(strings.Repeat(open, n) + inner + strings.Repeat(cl, n)))
				if n <= 5000 {
					c.Check(err == nil, "json-nesting", "%d nested %s refused: %v", n, open, err)
				}
				if err == nil {
					d := 0
					for v.IsDocument() {
						if v.Type() == json.Array {
							v = v.AsSlice()[0]
						} else {
							v = v.AsMap()[string(open[strings.Index(open, `"`)+1])]
						}
						d++
					}
					want := n
					if c.Idx/8 == 2 {
						want = 2 * n
					}
					c.Check(d == want && v.Type() == json.Number, "json-nesting", "%d nested %s parsed as depth %d", n, open, d)
					c.Ev("deep document accepted")
				} else {
					c.Ev("deep document refused")
				}
				_, err = parse.Parse(strings.NewReader(strings.Repeat(open, n)))
				c.Check(err != nil, "json-nesting", "unterminated nesting accepted")
			})
			c.Obs("nest", n, open)
		})
	})
	initJSONValue()
	initJSONPath()
}

var errEOF = func() error { _, e := strings.NewReader("").Read(make([]byte, 1)); return e }()

// slowReader returns at most one chunk per call.
type slowReader struct {
	chunks []string
	begun  int // chunks asked for
	off    int
}

func (s *slowReader) Read(p []byte) (int, error) {
	if s.begun > 0 && s.off < len(s.chunks[s.begun-1]) {
		n := copy(p, s.chunks[s.begun-1][s.off:])
		s.off += n
		return n, nil
	}
	if s.begun == len(s.chunks) {
		return 0, errEOF
	}
	s.begun++
	s.off = copy(p, s.chunks[s.begun-1])
	return s.off, nil
}

type endless struct {
	head, unit string
	buf        []byte
	n          int
}

func (e *endless) Read(p []byte) (int, error) {
	if e.n == 0 {
		e.buf = []byte(e.head)
	}
	for len(e.buf) < len(p) && len(e.buf) < 300 {
		e.buf = append(e.buf, e.unit...)
	}
	n := copy(p, e.buf)
	e.buf = e.buf[n:]
	e.n += n
	return n, nil
}

type jstr string
type jint int16
type jflt float32

// genGo generates a go value acceptable to the Value constructors and the model of the Value.
// The number check is given to numCheck because number text is judged by what it denotes.
func genGo(R *rand.Rand, depth int, nums *[]any) (any, *jnode) {
	k := R.Intn(11)
	if depth <= 0 {
		k = 3 + R.Intn(8)
	}
	switch k {
	case 0, 1:
		m, n := map[string]any{}, &jnode{k: 'o', obj: map[string]*jnode{}}
		if R.Intn(12) == 0 {
			return map[string]any(nil), n
		}
		for i := szMax(R, 4, wide(depth)); i > 0; i-- {
			key := genGoStr(R)
			m[key], n.obj[key] = genGo(R, depth-1, nums)
		}
		return m, n
	case 2:
		s, n := []any{}, &jnode{k: 'a'}
		if R.Intn(12) == 0 {
			return []any(nil), n
		}
		for i := szMax(R, 4, wide(depth)); i > 0; i-- {
			v, e := genGo(R, depth-1, nums)
			s, n.arr = append(s, v), append(n.arr, e)
		}
		return s, n
	case 3, 4:
		s := genGoStr(R)
		if R.Intn(8) == 0 {
			return jstr(s), &jnode{k: 's', s: s}
		}
		return s, &jnode{k: 's', s: s}
	case 5, 6, 7:
		v := genGoNum(R)
		*nums = append(*nums, v)
		return v, &jnode{k: '#', s: fmt.Sprint(len(*nums) - 1)}
	case 8:
		b := R.Intn(2) == 0
		return b, &jnode{k: 'b', b: b}
	case 9:
		return []any{nil, (*big.Int)(nil), (*big.Float)(nil), (*big.Rat)(nil)}[R.Intn(4)], &jnode{k: '0'}
	}
	var sb strings.Builder
	genJNum(R, &sb)
	return json.NumberString(sb.String()), &jnode{k: 'n', s: sb.String()}
}

func genGoStr(R *rand.Rand) string {
	var sb strings.Builder
	for n := szMax(R, 7, 5000); n > 0; n-- {
		switch R.Intn(5) {
		case 0:
			sb.WriteRune(rune(R.Intn(0x20)))
		case 1:
			sb.WriteByte("\"\\/\b\f\n\r\t'<>&"[R.Intn(12)])
		case 2:
			sb.WriteRune([]rune{0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xfeff, 0x2028}[R.Intn(12)])
		default:
			sb.WriteByte("abcxyz{}[]:, 019.u"[R.Intn(18)])
		}
	}
	return sb.String()
}

func genGoNum(R *rand.Rand) any {
	kinds := []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "*big.Int", "*big.Float", "*big.Rat"}
	for {
		v := genBase(R, kinds[R.Intn(len(kinds))])
		if goreflect.ValueOf(v).Kind() == goreflect.Pointer && goreflect.ValueOf(v).IsNil() {
			continue
		}
		if exactOf(v).k != 'r' {
			continue
		}
		switch t := v.(type) {
		case int16:
			if R.Intn(4) == 0 {
				return jint(t)
			}
		case float32:
			if R.Intn(4) == 0 {
				return jflt(t)
			}
		}
		return v
	}
}

// numDenotes judges the text of a number by what it denotes.
func numDenotes(v any, text string) string {
	if !gojson.Valid([]byte(text)) {
		return "is not a JSON number"
	}
	got, ok := new(big.Rat).SetString(text)
	if !ok {
		return "is not a number"
	}
	switch t := v.(type) {
	case jint:
		v = int16(t)
	case jflt:
		v = float32(t)
	}
	want := exactOf(v).r
	switch t := v.(type) {
	case float32:
		if f, err := strconv.ParseFloat(text, 32); err != nil || float32(f) != t {
			return fmt.Sprintf("reads back as %v", f)
		}
		return ""
	case float64:
		if f, err := strconv.ParseFloat(text, 64); err != nil || f != t {
			return fmt.Sprintf("reads back as %v", f)
		}
		return ""
	case *big.Float:
		f, _, err := big.ParseFloat(text, 10, t.Prec(), t.Mode())
		if err != nil || f.Cmp(t) != 0 {
			return fmt.Sprintf("reads back as %v", f)
		}
		return ""
	case *big.Rat:
		// a ratio that is not an integer is written like a float
		if !want.IsInt() {
			diff := new(big.Rat).Sub(got, want)
			lim := new(big.Rat).Mul(new(big.Rat).Abs(want), big.NewRat(1, 1e15))
			if diff.Abs(diff).Cmp(lim) > 0 {
				return "differs by more than 1e-15"
			}
			return ""
		}
	}
	if got.Cmp(want) != 0 {
		return "denotes another number"
	}
	return ""
}

// matchGo compares a Value's node with the model of the go value it was made from.
func matchGo(n, m *jnode, nums []any) string {
	if n == nil {
		return "invalid value"
	}
	if m.k == '#' {
		i, _ := strconv.Atoi(m.s)
		if n.k != 'n' {
			return "not a number"
		}
		if s := numDenotes(nums[i], n.s); s != "" {
			return fmt.Sprintf("number %v (%T) text %q %s", nums[i], nums[i], n.s, s)
		}
		return ""
	}
	if n.k != m.k {
		return fmt.Sprintf("kind %c want %c", n.k, m.k)
	}
	switch n.k {
	case 'a':
		if len(n.arr) != len(m.arr) {
			return "length"
		}
		for i := range n.arr {
			if s := matchGo(n.arr[i], m.arr[i], nums); s != "" {
				return fmt.Sprintf("[%d] %s", i, s)
			}
		}
	case 'o':
		if len(n.obj) != len(m.obj) {
			return "number of keys"
		}
		for k, v := range n.obj {
			e, has := m.obj[k]
			if !has {
				return fmt.Sprintf("key %q", k)
			}
			if s := matchGo(v, e, nums); s != "" {
				return fmt.Sprintf(".%s %s", k, s)
			}
		}
	default:
		if !n.eq(m) {
			return fmt.Sprintf("%v want %v", n, m)
		}
	}
	return ""
}

// scramble overwrites everything a go value refers to.
func scramble(v any) {
	switch t := v.(type) {
	case map[string]any:
		for k, e := range t {
			scramble(e)
			t[k] = "scrambled"
		}
		if t != nil {
			t["scrambled"] = 1
		}
	case []any:
		for i, e := range t {
			scramble(e)
			t[i] = "scrambled"
		}
	case *big.Int:
		if t != nil {
			t.SetInt64(-987654321)
		}
	case *big.Rat:
		if t != nil {
			t.SetInt64(-987654321)
		}
	case *big.Float:
		if t != nil {
			t.SetInt64(-987654321)
		}
	}
}

// render is a canonical text of a go value, to see whether it was changed
func render(v any) string {
	switch t := v.(type) {
	case map[string]any:
		ks := []string{}
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s := "{"
		for _, k := range ks {
			s += strconv.Quote(k) + ":" + render(t[k]) + ","
		}
		return s + "}"
	case []any:
		s := "["
		for _, e := range t {
			s += render(e) + ","
		}
		return s + "]"
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// toValue calls the constructor for the dynamic type of the value.
func toValue(R *rand.Rand, v any) (json.Value, error) {
	alt := R.Intn(2) == 0
	switch t := v.(type) {
	case map[string]any:
		if alt {
			return json.MapToValue(t)
		}
		return json.ToValue(t)
	case []any:
		if alt {
			return json.SliceToValue(t)
		}
		return json.ToValue(t)
	case string:
		if alt {
			return json.StringToValue(t), nil
		}
		return json.ToValue(t)
	case bool:
		if alt {
			return json.BoolToValue(t), nil
		}
		return json.ToValue(t)
	case json.NumberString:
		return num2(alt, t)
	case int:
		return num2(alt, t)
	case int8:
		return num2(alt, t)
	case int16:
		return num2(alt, t)
	case jint:
		return num2(alt, t)
	case int32:
		return num2(alt, t)
	case int64:
		return num2(alt, t)
	case uint:
		return num2(alt, t)
	case uint8:
		return num2(alt, t)
	case uint16:
		return num2(alt, t)
	case uint32:
		return num2(alt, t)
	case uint64:
		return num2(alt, t)
	case float32:
		return num2(alt, t)
	case jflt:
		return num2(alt, t)
	case float64:
		return num2(alt, t)
	case *big.Int:
		return num2(alt, t)
	case *big.Float:
		return num2(alt, t)
	case *big.Rat:
		return num2(alt, t)
	}
	s, err := json.SliceToValue([]any{v})
	if err != nil {
		return s, err
	}
	return s.AsSlice()[0], nil
}

func num2[T json.NumberString | int | int8 | int16 | jint | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | float32 | jflt | float64 | *big.Int | *big.Float | *big.Rat](alt bool, t T) (json.Value, error) {
	if rv := goreflect.ValueOf(t); alt && !(rv.Kind() == goreflect.Pointer && rv.IsNil()) {
		return json.NumberToValue(t)
	}
	return json.ToValue(t)
}

var reJNum = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)

func initJSONValue() {
	h.Register("C14", "random nested go values of every acceptable type (and unacceptable ones) converted to and from Values and compared with a model; mutation of the source afterwards; wrong accessors; number text of every numeric type; a case is non-trivial when it is a distinct go value", func(r *h.Run) {
		N := 1
		if r.Thorough() {
			N = 25
		}
		r.Group("large", 24*N, largeValues)
		sizes(r, 4, 2100, 5000, largeValues)
		r.Group("values", 80000*N, func(c *h.Ctx) {
			R := c.R
			var nums []any
			v, m := genGo(R, 3, &nums)
			before := render(v)
			c.NoPanic("jvalue-panic", "ToValue("+before+")", func() {
				jv, err := toValue(R, v)
				if !c.Check(err == nil, "jvalue-refused", "%s refused: %v", before, err) {
					return
				}
				c.Check(render(v) == before, "jvalue-source-changed", "%s became %s", before, render(v))
				n := nodeOf(jv)
				s := matchGo(n, m, nums)
				if !c.Check(s == "", "jvalue", "%s: %s", before, s) {
					return
				}
				// back to go values, and again to a Value
				back := jv.ToAny()
				c.Check(n.eq(nodeOfGo(back)), "jvalue-toany", "%s: ToAny gives %s", before, render(back))
				jv2, err := toValue(R, back)
				c.Check(err == nil && nodeOf(jv2).eq(n), "jvalue-roundtrip", "%s: round trip gives %v, %v", before, nodeOf(jv2), err)
				// the result of ToAny is independent
				scramble(back)
				c.Check(nodeOf(jv).eq(n), "jvalue-toany-shared", "%s: changing the result of ToAny changed the Value", before)
				// a Value made from go values is a copy
				scramble(v)
				c.Check(nodeOf(jv).eq(n), "jvalue-shared", "%s: changing the source changed the Value", before)
				accessors(c, jv, n)
			})
			c.Ev("value conversion")
			c.EvN("numbers", len(nums))
			c.Obs(before)
			c.Sample("%s", before)
		})
		r.Group("raw-strings", 8000*N, func(c *h.Ctx) {
			// strings of any bytes
			R := c.R
			raw := func() string {
				b := make([]byte, sz(R, 5))
				for i := range b {
					b[i] = byte(R.Intn(256))
				}
				return string(append(b, genGoStr(R)...))
			}
			s, k := raw(), raw()
			if R.Intn(20) == 0 {
				s += strings.Repeat(s, R.Intn(400))
			}
			c.NoPanic("jvalue-panic", fmt.Sprintf("values of %q", s), func() {
				ms, vs := json.MustToValue(map[string]any{k: s}), json.MustToValue([]any{s, jstr(s)})
				vals := []json.Value{json.StringToValue(s), json.MustToValue(s), ms.AsMap()[k], vs.AsSlice()[0], vs.AsSlice()[1]}
				for i, v := range vals {
					c.Check(v.Type() == json.String && v.AsString() == s && v.ToAny() == any(s), "jvalue-string", "value %d of %q is %v %q", i, s, v.Type(), v.AsString())
				}
				c.Check(ms.ToMap()[k] == any(s) && vs.ToSlice()[0] == any(s) && len(ms.AsMap()) == 1, "jvalue-string", "map and slice of %q", s)
			})
			c.Ev("strings of any bytes")
			c.Obs(k, s)
		})
		r.Group("value-containers", 8000*N, func(c *h.Ctx) {
			// maps and slices of Value
			R := c.R
			var nums []any
			mv, sv := map[string]json.Value{}, []json.Value{}
			mm, sm := &jnode{k: 'o', obj: map[string]*jnode{}}, &jnode{k: 'a'}
			for i := R.Intn(5); i > 0; i-- {
				v, m := genGo(R, 2, &nums)
				k := genGoStr(R)
				jv, err := toValue(R, v)
				if err != nil {
					c.Fail("jvalue-refused", "%s refused: %v", render(v), err)
					return
				}
				mv[k], mm.obj[k] = jv, m
				sv, sm.arr = append(sv, jv), append(sm.arr, m)
			}
			c.NoPanic("jvalue-panic", "ToValue of Values", func() {
				for i, f := range []func() (json.Value, error){
					func() (json.Value, error) { return json.ToValue(mv) },
					func() (json.Value, error) { return json.MapToValue(mv) },
					func() (json.Value, error) { return json.MustMapToValue(mv), nil },
					func() (json.Value, error) { return json.MustToValue(mv), nil },
					func() (json.Value, error) { return json.ToValue(sv) },
					func() (json.Value, error) { return json.SliceToValue(sv) },
					func() (json.Value, error) { return json.MustSliceToValue(sv), nil },
					func() (json.Value, error) { return json.MustToValue(sv), nil },
				} {
					jv, err := f()
					m := mm
					if i >= 4 {
						m = sm
					}
					s := matchGo(nodeOf(jv), m, nums)
					c.Check(err == nil && s == "", "jvalue-of-values", "entry point %d: %v %s", i, err, s)
					if err != nil {
						continue
					}
					// later changes to the source
					if i < 4 {
						keep := map[string]json.Value{}
						for k, v := range mv {
							keep[k] = v
							mv[k] = json.TrueValue
						}
						mv["added"] = json.NullValue
						s = matchGo(nodeOf(jv), m, nums)
						mv = keep
					} else {
						keep := append([]json.Value(nil), sv...)
						for k := range sv {
							sv[k] = json.FalseValue
						}
						s = matchGo(nodeOf(jv), m, nums)
						sv = keep
					}
					c.Check(s == "", "jvalue-of-values-shared", "entry point %d: changing the source afterwards changed the Value: %s", i, s)
				}
			})
			c.Ev("containers of Values")
			c.Obs(mm.String(), len(nums))
		})
		r.Group("deep", 24, func(c *h.Ctx) {
			// Go values nested in thousands of others, and back
			var (
				R     = c.R
				d     = []int{100, 500, 1100, 3000, 9900, 11000, 20000, 70000}[c.Idx%8]
				v any = 7
				n     = &jnode{k: 'n', s: "7"}
			)
			for i := 0; i < d; i++ {
				if k := "k" + strconv.Itoa(i%7); c.Idx/8 == 1 || c.Idx/8 == 2 && R.Intn(2) == 0 {
					v, n = map[string]any{k: v}, &jnode{k: 'o', obj: map[string]*jnode{k: n}}
				} else {
					v, n = []any{v, true}, &jnode{k: 'a', arr: []*jnode{n, {k: 'b', b: true}}}
				}
			}
			c.NoPanic("jvalue-panic", fmt.Sprintf("%d levels", d), func() {
				jv, err := toValue(R, v)
				if !c.Check(err == nil, "jvalue-refused", "%d levels refused: %v", d, err) {
					return
				}
				c.Check(nodeOf(jv).eq(n), "jvalue-content", "%d levels became another value", d)
				got := jv.ToAny()
				for i := 0; i < d; i++ {
					switch t := got.(type) {
					case map[string]any:
						for _, e := range t {
							got = e
						}
					case []any:
						got = t[0]
					}
				}
				c.Check(fmt.Sprint(got) == "7", "jvalue-to-any", "%d levels down is %T %v", d, got, got)
			})
			c.Ev("deep values")
			c.Obs("deep", c.Idx)
		})
		r.Group("refused", 6000*N, func(c *h.Ctx) {
			// something unacceptable anywhere inside: an error, never a panic or a partial Value
			R := c.R
			bads := []any{make(chan bool), struct{}{}, 3 + 4i, func() {}, math.NaN(), math.Inf(1), float32(math.Inf(-1)), new(big.Float).SetInf(true),
				json.NumberString(""), json.NumberString("x"), json.NumberString("1x"), json.NumberString("x1"), json.NumberString("007"), json.NumberString("+1"), json.NumberString("1."), json.NumberString(".5"), json.NumberString("-"), json.NumberString("1e"), json.NumberString("1 "), json.NumberString("1\n"), json.NumberString("NaN"), json.NumberString("0x1"), json.NumberString("1_0"),
				map[int]any{}, []string{"a"}, [2]any{}, &struct{}{}}
			bad := bads[R.Intn(len(bads))]
			var nums []any
			v, _ := genGo(R, 2, &nums)
			var top any = bad
			for d := R.Intn(3); d >= 0; d-- {
				if R.Intn(2) == 0 {
					top = map[string]any{"ok": v, "bad": top}
				} else {
					top = []any{v, top}[R.Intn(2):]
				}
			}
			for name, f := range map[string]func() (json.Value, error){"": func() (json.Value, error) { return toValue(R, top) }} {
				c.NoPanic("jvalue-panic", "ToValue"+name+"("+render(top)+")", func() {
					jv, err := f()
					c.Check(err != nil && jv.Type() == json.Invalid, "jvalue-accepted", "%s accepted: %v", render(top), nodeOf(jv))
				})
			}
			num := []any{(*big.Int)(nil), (*big.Float)(nil), (*big.Rat)(nil), new(big.Float).SetInf(R.Intn(2) == 0), math.NaN(), math.Inf(1 - 2*R.Intn(2)), float32(math.Inf(1))}[R.Intn(7)]
			c.NoPanic("jvalue-panic", "NumberToValue("+render(num)+")", func() {
				var err error
				switch t := num.(type) {
				case *big.Int:
					_, err = json.NumberToValue(t)
				case *big.Float:
					_, err = json.NumberToValue(t)
				case *big.Rat:
					_, err = json.NumberToValue(t)
				case float64:
					_, err = json.NumberToValue(t)
				case float32:
					_, err = json.NumberToValue(t)
				}
				c.Check(err != nil, "jvalue-accepted", "NumberToValue(%T %v) accepted", num, num)
			})
			_, did := h.Panics(func() {
				switch t := top.(type) {
				case map[string]any:
					json.MustMapToValue(t)
				case []any:
					json.MustSliceToValue(t)
				}
			})
			c.Check(did, "jvalue-must", "Must form accepted %s", render(top))
			c.Ev("refused go value")
			c.Obs(render(top))
		})
		r.Group("number-text", 60000*N, func(c *h.Ctx) {
			R := c.R
			s := genText(R)
			if R.Intn(3) == 0 {
				var sb strings.Builder
				genJNum(R, &sb)
				s = sb.String()
				if R.Intn(2) == 0 && len(s) > 0 {
					i := R.Intn(len(s))
					s = s[:i] + string("0.eE+-x 1"[R.Intn(9)]) + s[i:]
				}
			}
			c.NoPanic("jvalue-panic", fmt.Sprintf("NumberString(%q)", s), func() {
				v, err := json.NumberToValue(json.NumberString(s))
				want := reJNum.MatchString(s)
				if want != gojson.Valid([]byte(s)) && s == strings.TrimSpace(s) && want {
					panic("oracle: number syntax " + s)
				}
				c.Check((err == nil) == want, "jvalue-number-string", "NumberString(%q): %v", s, err)
				if err == nil {
					c.Check(v.Type() == json.Number && string(v.AsNumber()) == s && v.AsString() == s, "jvalue-number-string", "NumberString(%q) became %q", s, v.AsString())
				} else {
					c.Check(v.Type() == json.Invalid, "jvalue-number-string", "NumberString(%q) error with a value", s)
				}
			})
			c.Ev("number text")
			c.Obs("nt", s)
		})
	})

	h.Register("C13", "random Values written to byte and rune destinations (also failing ones), the text judged by encoding/json and the model parser, and parsed back; a case is non-trivial when it is a distinct value and fault position", func(r *h.Run) {
		N := 1
		if r.Thorough() {
			N = 25
		}
		r.Group("large", 24*N, largeWrite)
		sizes(r, 8, 2100, 5000, largeWrite)
		r.Group("roundtrip", 80000*N, func(c *h.Ctx) {
			R := c.R
			var nums []any
			v, _ := genGo(R, 3, &nums)
			jv, err := toValue(R, v)
			if err != nil {
				c.Fail("jvalue-refused", "%s refused: %v", render(v), err)
				return
			}
			n := nodeOf(jv)
			c.NoPanic("jwrite-panic", "Write", func() {
				var (
					buf  bytes.Buffer
					rs   []rune
					dst  = writer.OfIOWriterAsRunes(&buf)
					dst2 = writer.OfSliceWriter(&rs)
				)
				switch {
				case jv.Type() == json.Object && R.Intn(2) == 0:
					err = write.WriteObject(jv, dst)
					write.MustWriteObject(jv, dst2)
				case jv.Type() == json.Array && R.Intn(2) == 0:
					err = write.WriteArray(jv, dst)
					write.MustWriteArray(jv, dst2)
				default:
					err = write.Write(jv, dst)
					write.MustWrite(jv, dst2)
				}
				text := buf.String()
				if !c.Check(err == nil, "jwrite-error", "writing %v: %v", n, err) {
					return
				}
				for i, text := range []string{text, string(rs)} {
					wrapped := "[" + text + "]"
					got, _, perr := jdoc(wrapped)
					ok := perr == nil && len(got.arr) == 1 && got.arr[0].eq(n)
					if !c.Check(ok, "jwrite-text", "destination %d: %v written as %q", i, n, text) {
						continue
					}
					oracleAgrees(c, wrapped, got)
					back, err := parse.Parse(newEOFReader(R, wrapped))
					c.Check(err == nil && back.Type() == json.Array && len(back.AsSlice()) == 1 && nodeOf(back.AsSlice()[0]).eq(n), "jwrite-roundtrip", "%q parsed back as %v, %v", text, nodeOf(back), err)
				}
				c.Check(nodeOf(jv).eq(n), "jwrite-changed", "writing changed the value")
			})
			c.Ev("written and parsed back")
			c.Obs(n.String())
			c.Sample("%v", n)
		})
		r.Group("deep", 24, func(c *h.Ctx) {
			// values nested in thousands of others
			var (
				R  = c.R
				d  = []int{100, 500, 1100, 3000, 9900, 11000, 20000, 70000}[c.Idx%8]
				jv = json.MustNumberToValue(7)
				n  = nodeOf(jv)
			)
			for i := 0; i < d; i++ {
				if k := "k" + strconv.Itoa(i%7); c.Idx/8 == 1 || c.Idx/8 == 2 && R.Intn(2) == 0 {
					jv, n = json.MustMapToValue(map[string]json.Value{k: jv}), &jnode{k: 'o', obj: map[string]*jnode{k: n}}
				} else {
					jv, n = json.MustSliceToValue([]json.Value{jv, json.MustNumberToValue(i)}), &jnode{k: 'a', arr: []*jnode{n, {k: 'n', s: strconv.Itoa(i)}}}
				}
			}
			c.NoPanic("jwrite-panic", fmt.Sprintf("Write of %d levels", d), func() {
				var buf bytes.Buffer
				err := write.Write(jv, writer.OfIOWriterAsRunes(&buf))
				if !c.Check(err == nil, "jwrite-error", "writing %d levels: %v", d, err) {
					return
				}
				got, _, perr := jdoc(buf.String())
				c.Check(perr == nil && got.eq(n), "jwrite-text", "%d levels written as another value: %v", d, perr)
				if d <= 10000 {
					back, err := parse.Parse(newEOFReader(R, buf.String()))
					c.Check(err == nil && nodeOf(back).eq(n), "jwrite-roundtrip", "%d levels parsed back as another value: %v", d, err)
				}
			})
			c.Ev("deep values written")
			c.Obs("deep", c.Idx)
		})
		r.Group("all-code-points", 0x1100, func(c *h.Ctx) {
			// every code point as a string, and as a key
			var (
				cps []string
				sb  strings.Builder
			)
			for lo := 0; lo < 256; lo++ {
				cp := rune(c.Idx<<8 | lo)
				if !utf8.ValidRune(cp) {
					continue
				}
				sb.WriteRune(cp)
				if cp < 0x300 {
					cps = append(cps, string(cp))
				}
			}
			if sb.Len() == 0 {
				return
			}
			for _, s := range append(cps, sb.String()) {
				want := &jnode{k: 'o', obj: map[string]*jnode{s: {k: 's', s: s}}}
				c.NoPanic("jwrite-panic", "Write", func() {
					var buf bytes.Buffer
					jv, err := json.MapToValue(map[string]any{s: s})
					if !c.Check(err == nil, "jvalue-refused", "%q refused: %v", s, err) {
						return
					}
					err = write.Write(jv, writer.OfIOWriterAsRunes(&buf))
					got, _, perr := jdoc(buf.String())
					if c.Check(err == nil && perr == nil && got.eq(want), "jwrite-text", "{%q: %q} written as %q", s, s, buf.String()) {
						oracleAgrees(c, buf.String(), got)
					}
					back, err := parse.Parse(strings.NewReader(buf.String()))
					c.Check(err == nil && nodeOf(back).eq(want), "jwrite-roundtrip", "%q parsed back as %v, %v", buf.String(), nodeOf(back), err)
				})
				c.EvN("code points written", utf8.RuneCountInString(s))
			}
			c.Obs("code-points", c.Idx)
		})
		r.Group("faults", 40000*N, func(c *h.Ctx) {
			// the destination fails after some runes: the error is reported, what was written is a prefix of a rendering
			R := c.R
			var nums []any
			v, _ := genGo(R, 3, &nums)
			jv, err := toValue(R, v)
			if err != nil {
				return
			}
			var ref bytes.Buffer
			write.Write(jv, writer.OfIOWriterAsRunes(&ref))
			total := utf8.RuneCount(ref.Bytes())
			limit := R.Intn(total + 3)
			fault := writeErrs[R.Intn(len(writeErrs))]
			var out []rune
			after := 0
			dst := writer.NewWriter(func(r rune) error {
				if len(out) == limit {
					after++
					return fault
				}
				out = append(out, r)
				return nil
			})
			c.NoPanic("jwrite-panic", "Write to a failing destination", func() {
				err := write.Write(jv, dst)
				if limit >= total {
					c.Check(err == nil && len(out) == total, "jwrite-fault", "limit %d of %d: %v", limit, total, err)
				} else {
					c.Check(err == fault && len(out) == limit && after == 1, "jwrite-fault", "limit %d of %d: error %v after %d runes, %d writes after the fault", limit, total, err, len(out), after-1)
				}
				if !multiKey(nodeOf(jv)) {
					c.Check(strings.HasPrefix(ref.String(), string(out)), "jwrite-fault-prefix", "limit %d: %q is not a prefix of %q", limit, string(out), ref.String())
					c.Ev("prefixes compared")
				}
			})
			_, did := h.Panics(func() {
				k := 0
				write.MustWrite(jv, writer.NewWriter(func(rune) error {
					if k == limit {
						return fault
					}
					k++
					return nil
				}))
			})
			c.Check(did == (limit < total), "jwrite-must", "MustWrite limit %d of %d panicked: %v", limit, total, did)
			c.Ev("destination fault")
			c.Obs(nodeOf(jv).String(), limit)
		})
	})
}

// multiKey tells if there is an object with several keys, which are written in any order.
func multiKey(n *jnode) bool {
	if len(n.obj) > 1 {
		return true
	}
	for _, x := range n.obj {
		if multiKey(x) {
			return true
		}
	}
	for _, x := range n.arr {
		if multiKey(x) {
			return true
		}
	}
	return false
}

func newEOFReader(R *rand.Rand, s string) *faultReader {
	rd := newFaultReader(R, []byte(s))
	rd.err = errEOF
	return rd
}

// accessors checks that each accessor works for its type and panics for others.
func accessors(c *h.Ctx, jv json.Value, n *jnode) {
	type acc struct {
		name  string
		kinds string
		f     func()
	}
	for _, a := range []acc{
		{"AsMap", "o", func() { jv.AsMap() }},
		{"AsSlice", "a", func() { jv.AsSlice() }},
		{"AsString", "snb", func() { jv.AsString() }},
		{"AsNumber", "n", func() { jv.AsNumber() }},
		{"AsBool", "b", func() { jv.AsBool() }},
		{"ToMap", "o", func() { jv.ToMap() }},
		{"ToSlice", "a", func() { jv.ToSlice() }},
	} {
		_, did := h.Panics(a.f)
		c.Check(did != strings.ContainsRune(a.kinds, rune(n.k)), "jvalue-accessor", "%s of a %c panicked: %v", a.name, n.k, did)
	}
	c.Check(jv.IsNull() == (n.k == '0'), "jvalue-accessor", "IsNull of %c", n.k)
	c.Check(jv.IsDocument() == (n.k == 'o' || n.k == 'a'), "jvalue-accessor", "IsDocument of %c", n.k)
	if n.k == 'b' {
		c.Check(jv.AsString() == fmt.Sprint(n.b), "jvalue-accessor", "AsString of %v is %q", n.b, jv.AsString())
	}
	want := map[byte]string{'o': "Object", 'a': "Array", 's': "String", 'n': "Number", 'b': "Boolean", '0': "Null"}[n.k]
	c.Check(jv.Type().String() == want, "jvalue-accessor", "Type of %c is %v", n.k, jv.Type())
}

func initJSONPath() {
	h.Register("C15", "random documents searched with generated paths (existing, missing, wrongly typed, malformed), judged by direct navigation of the model and a hand written path grammar; the same compiled path applied to many documents, concurrently; a case is non-trivial when it is a distinct path and document", func(r *h.Run) {
		N := 1
		if r.Thorough() {
			N = 25
		}
		r.Group("large", 8*N, largePaths)
		sizes(r, 1, 1100, 2100, largePaths)
		r.Group("paths", 120000*N, func(c *h.Ctx) {
			R := c.R
			// documents over a small key alphabet so that paths often exist
			docs := make([]json.Value, 1+R.Intn(3))
			nodes := make([]*jnode, len(docs))
			for i := range docs {
				g := pathDoc(R, 4)
				if R.Intn(40) == 0 { // deep
					for d := R.Intn(80); d > 0; d-- {
						if R.Intn(2) == 0 {
							g = map[string]any{pathKeys[R.Intn(len(pathKeys))]: g, "z": d}
						} else {
							g = append(make([]any, R.Intn(4), 5), g)
						}
					}
				}
				jv, err := toValue(R, g)
				if err != nil {
					c.Fail("jvalue-refused", "%s refused: %v", render(g), err)
					return
				}
				docs[i], nodes[i] = jv, nodeOf(jv)
			}
			// one or several paths, of which each must keep to its own whatever is parsed after it
			paths := []string{genPath(R, nodes[0])}
			for R.Intn(4) == 0 {
				p := paths[R.Intn(len(paths))]
				switch R.Intn(4) {
				case 0:
					p = strings.ToUpper(p)
				case 1:
					p = strings.ToLower(p)
				case 2:
					if i := strings.LastIndexAny(p, ".["); i > 0 {
						p = p[:i]
					}
				default:
					p = genPath(R, nodes[R.Intn(len(nodes))])
				}
				paths = append(paths, p)
			}
			fns := make([]func(json.Value) (json.Value, error), len(paths))
			for i, path := range paths {
				c.NoPanic("jpath-panic", fmt.Sprintf("ParsePath(%q)", path), func() {
					fn, err := json.ParsePath(path)
					_, valid := modelPath(path)
					if !c.Check((err == nil) == valid, "jpath-syntax", "ParsePath(%q): %v, want valid=%v", path, err, valid) || err != nil {
						c.Ev("malformed path")
						return
					}
					fns[i] = fn
				})
			}
			for at, path := range paths {
				fn := fns[at]
				if fn == nil {
					continue
				}
				steps, _ := modelPath(path)
				c.NoPanic("jpath-panic", fmt.Sprintf("lookup of %q", path), func() {
					apply := func(i int) string {
						got, err := fn(docs[i])
						want := navigate(nodes[i], steps)
						if want == nil {
							if err == nil || got.Type() != json.Invalid {
								return fmt.Sprintf("path %q in %v: found %v, %v", path, nodes[i], nodeOf(got), err)
							}
							return ""
						}
						if err != nil || !nodeOf(got).eq(want) {
							return fmt.Sprintf("path %q in %v: %v, %v want %v", path, nodes[i], nodeOf(got), err, want)
						}
						return ""
					}
					for k := 0; k < 2*len(docs); k++ {
						i := R.Intn(len(docs))
						s := apply(i)
						c.Check(s == "", "jpath-lookup", "%s", s)
						if navigate(nodes[i], steps) != nil {
							c.Ev("found")
						} else {
							c.Ev("not found")
						}
					}
					if R.Intn(20) == 0 { // concurrent use of one compiled path
						var wg sync.WaitGroup
						res := make([]string, 8)
						for g := range res {
							wg.Add(1)
							go func() {
								defer wg.Done()
								for k := 0; k < 5 && res[g] == ""; k++ {
									res[g] = apply((g + k) % len(docs))
								}
							}()
						}
						wg.Wait()
						for _, s := range res {
							c.Check(s == "", "jpath-concurrent", "%s", s)
						}
						c.Ev("concurrent lookups")
					}
					for i := range docs {
						c.Check(nodeOf(docs[i]).eq(nodes[i]), "jpath-changed", "a lookup changed the document")
					}
				})
			}
			c.Obs(fmt.Sprint(paths), nodes[0].String())
			c.Sample("%q", paths)
		})
		r.Group("long", 40, func(c *h.Ctx) {
			// paths of thousands of steps into documents as deep
			var (
				R  = c.R
				d  = []int{100, 255, 257, 1000, 1100, 5000, 10100, 40000}[c.Idx%8]
				jv = json.MustNumberToValue(7)
				p  = make([]string, d)
			)
			for i := range p {
				k := pathKeys[R.Intn(len(pathKeys))]
				if R.Intn(2) == 0 {
					jv, p[d-1-i] = json.MustMapToValue(map[string]json.Value{k: jv, "other": json.NullValue}), "."+k
				} else {
					jv, p[d-1-i] = json.MustSliceToValue([]json.Value{json.NullValue, jv}), "[1]"
				}
			}
			path := strings.Join(p, "")
			c.NoPanic("jpath-panic", fmt.Sprintf("lookup of %d steps", d), func() {
				fn, err := json.ParsePath(path)
				if !c.Check(err == nil, "jpath-syntax", "path of %d steps: %v", d, err) {
					return
				}
				v, err := fn(jv)
				c.Check(err == nil && v.Type() == json.Number && v.AsString() == "7", "jpath-lookup", "path of %d steps found %v, %v", d, v.Type(), err)
				fn, err = json.ParsePath(path + "[0]")
				if c.Check(err == nil, "jpath-syntax", "path of %d steps: %v", d+1, err) {
					v, err = fn(jv)
					c.Check(err != nil && v.Type() == json.Invalid, "jpath-lookup", "path of %d steps, of which the last is not there, found %v", d+1, v.Type())
				}
			})
			c.Ev("long paths")
			c.Obs(path)
		})
	})
}

var pathKeys = []string{"a", "b", "c d", "é", "0", "12", "\"", "$", "\n", "a-b", "*", "A", "B", "É", "c", "aa", "00", "#", "?", "a/b"}

func pathDoc(R *rand.Rand, depth int) any {
	if depth == 0 || R.Intn(7) == 0 {
		return []any{1, "x", nil, true, 2.5, ""}[R.Intn(6)]
	}
	if R.Intn(2) == 0 {
		m := map[string]any{}
		for i := R.Intn(5); i > 0; i-- {
			m[pathKeys[R.Intn(len(pathKeys))]] = pathDoc(R, depth-1)
		}
		if R.Intn(60) == 0 { // many keys, long keys
			for i := R.Intn(300); i > 0; i-- {
				m["k"+strconv.Itoa(i)] = i
			}
			m[strings.Repeat("long", 1+R.Intn(200))] = pathDoc(R, depth-1)
		}
		return m
	}
	s := []any{}
	n := R.Intn(4)
	if R.Intn(6) == 0 {
		n, depth = sz(R, 14), 1
	}
	for i := n; i > 0; i-- {
		s = append(s, pathDoc(R, depth-1))
	}
	return s
}

func genPath(R *rand.Rand, n *jnode) string {
	var sb strings.Builder
	steps := R.Intn(5)
	if R.Intn(10) == 0 {
		steps = R.Intn(90)
	}
	for k := steps; k >= 0; k-- {
		switch {
		case n != nil && n.k == 'o' && len(n.obj) > 0 && R.Intn(6) > 0:
			ks := []string{}
			for k := range n.obj {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			key := ks[R.Intn(len(ks))]
			sb.WriteString("." + key)
			n = n.obj[key]
		case n != nil && n.k == 'a' && len(n.arr) > 0 && R.Intn(6) > 0:
			i := R.Intn(len(n.arr) + 1)
			if R.Intn(15) == 0 {
				fmt.Fprintf(&sb, "[0%d]", i)
			} else if R.Intn(20) == 0 {
				// may only be equal to an index that exists in fewer bits
				fmt.Fprintf(&sb, "[%d]", uint64(i)+1<<[]uint{8, 15, 16, 31, 32, 53, 62, 63}[R.Intn(8)])
				i = len(n.arr)
			} else {
				fmt.Fprintf(&sb, "[%d]", i)
			}
			if i < len(n.arr) {
				n = n.arr[i]
			} else {
				n = nil
			}
		case R.Intn(2) == 0:
			sb.WriteString("." + pathKeys[R.Intn(len(pathKeys))])
			n = nil
		default:
			fmt.Fprintf(&sb, "[%d]", R.Intn(4))
			n = nil
		}
		if n == nil && R.Intn(2) == 0 {
			break
		}
	}
	s := sb.String()
	switch R.Intn(12) {
	case 0: // break it
		if len(s) > 0 {
			i := R.Intn(len(s) + 1)
			s = s[:i] + []string{".", "[", "]", "[]", "..", "[-1]", "[a]", "[1", " ", "x", "[9223372036854775807]", "[9223372036854775808]", "[99999999999999999999999]", "[1 ]", ".[0]", "\xff", "[٣]"}[R.Intn(17)] + s[i:]
		}
	case 1:
		if len(s) > 0 {
			i := R.Intn(len(s))
			s = s[:i] + s[i+1:]
		}
	case 2:
		s = []string{"", ".", "[", "a", "[0", "0]", "[]", "..a", ".a.", "a.b", "[0]a", ".a[", "[0][", ".a]"}[R.Intn(14)]
	}
	return s
}

type pstep struct {
	key string
	idx int
	isK bool
}

// modelPath is a hand written recognizer of paths.
func modelPath(p string) ([]pstep, bool) {
	var steps []pstep
	for i := 0; i < len(p); {
		switch p[i] {
		case '.':
			j := i + 1
			for j < len(p) && !strings.ContainsRune(".[]", rune(p[j])) {
				j++
			}
			if j == i+1 {
				return nil, false
			}
			steps = append(steps, pstep{key: p[i+1 : j], isK: true})
			i = j
		case '[':
			j := i + 1
			for j < len(p) && p[j] >= '0' && p[j] <= '9' {
				j++
			}
			if j == i+1 || j == len(p) || p[j] != ']' {
				return nil, false
			}
			n, err := strconv.Atoi(p[i+1 : j])
			if err != nil {
				return nil, false
			}
			steps = append(steps, pstep{idx: n})
			i = j + 1
		default:
			return nil, false
		}
	}
	return steps, len(steps) > 0
}

func navigate(n *jnode, steps []pstep) *jnode {
	for _, s := range steps {
		if s.isK {
			if n.k != 'o' {
				return nil
			}
			v, has := n.obj[s.key]
			if !has {
				return nil
			}
			n = v
		} else {
			if n.k != 'a' || s.idx >= len(n.arr) {
				return nil
			}
			n = n.arr[s.idx]
		}
	}
	return n
}
