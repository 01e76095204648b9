package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"github.com/netascode/xmldot"
)

// copyNodes copies a tree, adding lexical noise that carries no meaning.
func (g *G) respell(ns []*Node, noise int, inElem bool) []*Node {
	t := g.t
	var out []*Node
	add := func() {
		if noise > 0 && t.Chance(noise) {
			out = append(out, g.noiseNode(inElem))
		}
	}
	add()
	for _, n := range ns {
		c := *n
		switch n.Kind {
		case Text:
			rs := []rune(n.Text)
			if noise > 0 && len(rs) > 1 && inElem && t.Chance(noise) {
				k := t.Int(1, len(rs)-1)
				out = append(out, &Node{Kind: Text, Text: string(rs[:k])}, g.noiseNode(true))
				c.Text = string(rs[k:])
			}
		case Elem:
			c.Attrs = append([]Attr(nil), n.Attrs...)
			for i := len(c.Attrs) - 1; i > 0; i-- {
				j := i - t.N(i+1)
				c.Attrs[i], c.Attrs[j] = c.Attrs[j], c.Attrs[i]
			}
			c.Kids = g.respell(n.Kids, noise, true)
		}
		out = append(out, &c)
		add()
	}
	return out
}

// same compares two library results up to lexical noise in raw content.
func same(a, b xmldot.Result) string {
	if a.Type != b.Type || a.Str != b.Str || a.Num != b.Num || len(a.Results) != len(b.Results) {
		return fmt.Sprintf("%v %q (%d items) against %v %q (%d items)", a.Type, clip(a.String(), 300), len(a.Results), b.Type, clip(b.String(), 300), len(b.Results))
	}
	if a.Type == xmldot.Element {
		x, e1 := parseXML(a.Raw, true)
		y, e2 := parseXML(b.Raw, true)
		if e1 != nil || e2 != nil {
			return fmt.Sprintf("raw content does not parse: %v, %v", e1, e2)
		}
		if p, q := canon(x, false), canon(y, false); p != q {
			return fmt.Sprintf("raw content %s against %s", clip(p, 400), clip(q, 400))
		}
	}
	for i := range a.Results {
		if d := same(a.Results[i], b.Results[i]); d != "" {
			return fmt.Sprintf("item %d: %s", i, d)
		}
	}
	return ""
}

// exact compares two library results byte for byte.
func exact(a, b xmldot.Result) string {
	if a.Type != b.Type || a.Str != b.Str || a.Raw != b.Raw || a.Index != b.Index || a.Num != b.Num && !(math.IsNaN(a.Num) && math.IsNaN(b.Num)) || len(a.Results) != len(b.Results) {
		return fmt.Sprintf("%v %q raw %q index %d num %v (%d items) against %v %q raw %q index %d num %v (%d items)", a.Type, clip(a.Str, 200), clip(a.Raw, 200), a.Index, a.Num, len(a.Results),
			b.Type, clip(b.Str, 200), clip(b.Raw, 200), b.Index, b.Num, len(b.Results))
	}
	for i := range a.Results {
		if d := exact(a.Results[i], b.Results[i]); d != "" {
			return fmt.Sprintf("item %d: %s", i, d)
		}
	}
	return ""
}

var ci = &xmldot.Options{CaseSensitive: false}

// casePools makes names that differ in case only frequent.
func (g *G) casePools() {
	t := g.t
	g.names = nil
	n := t.Int(1, 5)
	for i := 0; i < n; i++ {
		if t.Chance(25) {
			x := g.anyXMLName()
			g.names = append(g.names, x)
			if t.Bool() {
				g.names = append(g.names, g.flip(x))
			}
			continue
		}
		g.names = append(g.names, pick(t, []string{"item", "Item", "ITEM", "a", "A", "ns:a", "NS:A", "Ns:a", "name", "Name", "a.B", "A.b"}))
	}
	g.attrs = nil
	n = t.Int(1, 3)
	for i := 0; i < n; i++ {
		if t.Chance(20) {
			g.attrs = append(g.attrs, g.anyXMLName())
			continue
		}
		g.attrs = append(g.attrs, pick(t, []string{"id", "ID", "x", "Class", "ns:Id", "A.b"}))
	}
}

// noCaseTwins drops attributes equal to an earlier one of the same element but for case.
func noCaseTwins(ns []*Node) {
	walk(ns, func(n *Node) {
		var out []Attr
		for _, a := range n.Attrs {
			dup := false
			for _, b := range out {
				dup = dup || strings.EqualFold(a.Name, b.Name)
			}
			if !dup {
				out = append(out, a)
			}
		}
		n.Attrs = out
	})
}

func (g *G) docOf(roots []*Node) *Doc {
	ns := g.prolog(roots)
	d := mustParse(spell(g.t, ns, pick(g.t, []int{0, 30, 60})))
	return d
}

// nearPath is a path that is easily taken for the given one.
func nearPath(t *T, ps string) string {
	b := []byte(ps)
	switch t.W(25, 10, 10, 10, 10, 10, 10, 5, 5, 5) {
	case 0:
		return strings.ReplaceAll(ps, "\\", "")
	case 1:
		return strings.ToLower(ps)
	case 2:
		return strings.ToUpper(ps)
	case 3:
		if len(b) > 1 {
			i := t.N(len(b))
			return string(append(b[:i:i], b[i+1:]...))
		}
	case 4:
		if len(b) > 0 {
			b[t.N(len(b))] = pick(t, []byte("ab.0#*@1:x"))
		}
		return string(b)
	case 5:
		if len(b) > 1 {
			i, j := t.N(len(b)), t.N(len(b))
			b[i], b[j] = b[j], b[i]
		}
		return string(b)
	case 6:
		i := t.N(len(b) + 1)
		return ps[:i] + pick(t, []string{" ", ".", "\\", "0", "#", "*", "a", "@", "'", "\x00", ":"}) + ps[i:]
	case 7:
		return ps[:t.N(len(b)+1)]
	case 8:
		return ps + pick(t, []string{".a", ".0", ".#", "|@first", ".%", ".@id", " ", "."})
	case 9:
		parts := strings.Split(ps, ".")
		i, j := t.N(len(parts)), t.N(len(parts))
		parts[i], parts[j] = parts[j], parts[i]
		return strings.Join(parts, ".")
	}
	return strings.NewReplacer(`"`, "", "'", "", " ", "").Replace(ps)
}

// flip changes the case of some letters.
func (g *G) flip(s string) string {
	b := []byte(s)
	for i, c := range b {
		if ('a' <= c && c <= 'z' || 'A' <= c && c <= 'Z') && g.t.Chance(30) {
			b[i] = c ^ 0x20
		}
	}
	return string(b)
}

func (g *G) flipPath(p []Seg) []Seg {
	q := append([]Seg(nil), p...)
	for i := range q {
		switch q[i].Kind {
		case SElem, SAttr:
			q[i].Name = g.flip(q[i].Name)
		case SField:
			q[i].Name = g.flip(q[i].Name)
		case SFilter, SFilterAll:
			c := *q[i].Cond
			c.Path = g.flipPath(c.Path)
			if c.PathStr != "" {
				c.PathStr = "@" + c.Path[0].Name
			}
			q[i].Cond = &c
		}
	}
	return q
}

func (g *G) options() *xmldot.Options {
	t := g.t
	o := &xmldot.Options{CaseSensitive: true}
	if t.Bool() {
		o.Indent = pick(t, []string{"", "  ", "\t"})
	}
	o.PreserveWhitespace = t.Bool()
	if t.Bool() {
		o.Namespaces = map[string]string{"ns": "urn:x", "p": "urn:y"}
	}
	return o
}

func squeeze(s string) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsSpace(r) {
			return -1
		}
		return r
	}, s)
}

// tokens is the token list of a fragment with white space outside tags removed.
func tokens(s string) (string, error) {
	var b strings.Builder
	d := xml.NewDecoder(strings.NewReader(s))
	text := ""
	for {
		tk, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return "", err
		}
		if c, ok := tk.(xml.CharData); ok {
			text += string(c)
			continue
		}
		fmt.Fprintf(&b, "T%q", squeeze(text))
		text = ""
		switch e := tk.(type) {
		case xml.StartElement:
			var as []string
			for _, a := range e.Attr {
				as = append(as, fmt.Sprintf("%s:%s=%q", a.Name.Space, a.Name.Local, a.Value))
			}
			sort.Strings(as)
			fmt.Fprintf(&b, "<%s:%s %v>", e.Name.Space, e.Name.Local, as)
		case xml.EndElement:
			fmt.Fprintf(&b, "</%s:%s>", e.Name.Space, e.Name.Local)
		case xml.Comment:
			fmt.Fprintf(&b, "C%q", squeeze(string(e)))
		case xml.ProcInst:
			fmt.Fprintf(&b, "P%q%q", e.Target, squeeze(string(e.Inst)))
		case xml.Directive:
			fmt.Fprintf(&b, "D%q", squeeze(string(e)))
		}
	}
	fmt.Fprintf(&b, "T%q", squeeze(text))
	return b.String(), nil
}

func init() {
	register(&Prop{
		ID: "C02", Quick: 500000, Thorough: 5000000,
		Rule: "two different spellings of one tree and a path that yields a result on them",
		Assume: []string{
			"white space between elements is character data and is not varied",
		},
		Run: func(t *T) {
			g := newG(t)
			g.noise = 0
			tree := g.tree()
			// first spelling: noisy or bare; second: noisy
			na := g.respell(tree, pick(t, []int{0, 10, 30}), false)
			nb := g.respell(tree, pick(t, []int{15, 30, 0}), false)
			g.noise = 20
			a := mustParse(spell(t, g.prologOf(na), pick(t, []int{0, 30})))
			b := mustParse(spell(t, g.prologOf(nb), pick(t, []int{50, 20})))
			if x, y := canon(a.roots(), false), canon(b.roots(), false); x != y {
				bug("respelling changed the tree\n%s\n%s", x, y)
			}
			p := g.path(a, allSteps)
			ps := pathString(p)
			t.Note("first spelling", a.Src)
			t.Note("second spelling", b.Src)
			t.Note("path", ps)
			ra, rb := xmldot.Get(a.Src, ps), xmldot.Get(b.Src, ps)
			if d := same(ra, rb); d != "" {
				t.Failf("spelling", "Get(%q) differs between the spellings: %s", ps, d)
			}
			// and both are what the tree says
			want := Eval{}.Get(b.roots(), p)
			if d := diff(want, rb); d != "" {
				t.Failf("wrong-answer", "Get(%q): %s", ps, d)
			}
			if a.Src != b.Src && rb.Exists() {
				t.Nontrivial(a.Src, b.Src, ps)
			}
			labelResult(t, want)
			// markup inside comments etc. is never an element: the model's element count stands
			if n := len(allElems(b.Kids)); n < 900 {
				got := len(xmldot.Get(b.Src, "**.*").Array())
				if got != n {
					t.Failf("phantom", "Get(\"**.*\") finds %d elements, the document has %d", got, n)
				}
			}
		},
		Fixed: []Fixed{
			fixedQuery("comment containing a greater-than sign", `<r><!-- > <a>no</a> --><a>yes</a></r>`, "r.a", "yes"),
			fixedQuery("CDATA containing a close tag", `<r><b><![CDATA[</b>]]><a>1</a></b><a>yes</a></r>`, "r.a", "yes"),
			fixedQuery("instruction containing a tag", `<r><?pi <a>no</a>?><a>yes</a></r>`, "r.a", "yes"),
			fixedQuery("comment before the root", `<!-- <r><a>no</a></r> --><r><a>yes</a></r>`, "r.a", "yes"),
		},
	})

	register(&Prop{
		ID: "C07", Quick: 200000, Thorough: 2000000,
		Rule: "a history of calls in which at least one path was spelled with escapes or asked again after more distinct paths than the cache holds",
		Run: func(t *T) {
			g := newG(t)
			if t.Bool() {
				g.casePools()
			}
			roots := g.tree()
			noCaseTwins(roots)
			d := g.docOf(roots)
			t.Note("document", d.Src)
			type q struct {
				p  []Seg
				ps string
				ci bool
			}
			var qs []q
			n := t.Int(1, 6)
			for i := 0; i < n; i++ {
				p := g.path(d, allSteps)
				ci := t.Chance(35)
				if ci && t.Bool() {
					p = g.flipPath(p)
				}
				ps := pathString(p)
				if t.Chance(60) {
					ps = g.escapeAll(p)
				}
				// the same steps asked with and without case
				qs = append(qs, q{p, ps, ci})
				if t.Chance(30) {
					qs = append(qs, q{p, ps, !ci})
				}
			}
			if t.Chance(1) {
				// paths of up to several thousand characters that differ at the end, the beginning or the middle only
				d = g.longNames()
				qs = nil
				for range t.Int(2, 6) {
					p := g.elemPath(d)
					qs = append(qs, q{p, pathString(p), false})
				}
				t.Note("document", d.Src)
				t.Label("long paths")
			}
			ask := func(k int) {
				x := qs[k]
				var got xmldot.Result
				if x.ci {
					got = xmldot.GetWithOptions(d.Src, x.ps, ci)
				} else {
					got = xmldot.Get(d.Src, x.ps)
				}
				want := Eval{fold: x.ci}.Get(d.roots(), x.p)
				if df := diff(want, got); df != "" {
					t.Failf("wrong-answer", "query %d: path %q (case-insensitive: %v): %s", k, x.ps, x.ci, df)
				}
			}
			for k := range qs {
				t.Notef("path", "%s ci=%v", qs[k].ps, qs[k].ci)
			}
			fill := 0
			if t.Chance(8) {
				fill = t.Int(250, 600) // turn the cache over
				t.Label("cache turned over")
			}
			// paths that look like the ones to be asked come first, so that they are the ones remembered
			twins := func() {
				x := nearPath(t, qs[t.N(len(qs))].ps)
				t.Note("asked in between", x)
				switch t.W(60, 20, 10, 10) {
				case 0:
					xmldot.Get(d.Src, x)
				case 1:
					xmldot.GetWithOptions(d.Src, x, ci)
				case 2:
					xmldot.Set(d.Src, x, "v")
				case 3:
					xmldot.Delete(d.Src, x)
				}
			}
			for n := t.Int(0, 4); n > 0; n-- {
				twins()
			}
			steps := t.Int(2, 12)
			for i := 0; i < steps; i++ {
				switch t.W(60, 8, 8, 14, 10) {
				case 4:
					twins()
				case 0:
					ask(t.N(len(qs)))
				case 1:
					xmldot.Set(d.Src, qs[t.N(len(qs))].ps, "v")
				case 2:
					xmldot.Delete(d.Src, qs[t.N(len(qs))].ps)
				case 3:
					for j := 0; j < fill; j++ {
						xmldot.Get("<a/>", fmt.Sprintf("fill%d.x%d", i, j))
					}
					if fill == 0 {
						xmldot.GetWithOptions(d.Src, qs[t.N(len(qs))].ps, ci)
					}
				}
			}
			for k := range qs {
				ask(k)
			}
			t.Nontrivial(d.Src, fmt.Sprint(qs))
			// over-long paths address nothing, whatever they contain
			if t.Chance(20) {
				base := qs[0].ps
				k := t.Int(0, 3)
				long := base + strings.Repeat(".", 100+k)
				if got := xmldot.Get(d.Src, long); got.Exists() {
					t.Failf("long-path", "a path of more than 100 steps (%q and %d dots) answers %q", base, 100+k, got.String())
				}
			}
		},
		Fixed: []Fixed{
			fixedQuery("hyphen and digits are a name", `<r><a-1>x</a-1></r>`, "r.a-1", "x"),
			fixedQuery("escaped dot", `<r><a.b>x</a.b><a><b>y</b></a></r>`, `r.a\.b`, "x"),
			fixedQuery("escaped letters", `<r><ab>x</ab></r>`, `\r.\a\b`, "x"),
			fixedQuery("empty steps", `<r><ab>x</ab></r>`, `..r...ab..`, "x"),
		},
	})

	register(&Prop{
		ID: "C20", Quick: 300000, Thorough: 3000000,
		Rule: "a path ending in at least one modifier, on a result that exists without it",
		Assume: []string{
			"modifiers are written at the end of the path only",
			"white space inside attribute values is compared, white space anywhere else is what @pretty and @ugly may change",
		},
		Run: func(t *T) {
			g := newG(t)
			d := g.anyDoc()
			o := allSteps
			o.Mods = false
			p := g.path(d, o)
			if t.Chance(40) {
				d = g.records()
				p = g.path(d, o)
			}
			base := pathString(p)
			plain := Eval{}.Get(d.roots(), p)
			labelResult(t, plain)
			l := &p[len(p)-1]
			k := t.Int(1, 4)
			if t.Chance(4) {
				k = t.Int(18, 23)
			}
			for i := 0; i < k; i++ {
				m := pick(t, builtinMods)
				if t.Chance(3) {
					m = pick(t, []string{"nosuch", "Sort", "raw", "keys"})
				}
				l.Mods = append(l.Mods, m)
			}
			ps := pathString(p)
			noteQuery(t, d.Src, ps)
			want := query(t, d, p, ps)
			if !plain.isNull() {
				t.Nontrivial(d.Src, ps)
				if len(plain.Items) > 1 {
					t.Label("modifiers on several")
				}
			}
			_ = want
			// the same with (irrelevant) options
			if t.Chance(20) {
				if df := diff(want, xmldot.GetWithOptions(d.Src, ps, &xmldot.Options{CaseSensitive: true, Indent: " "})); df != "" {
					t.Failf("with-options", "GetWithOptions(%q): %s", ps, df)
				}
			}
			mark := base
			if t.Chance(30) {
				mark += "|@" + pick(t, builtinMods)
			}
			checkMark(t, d.Src, mark, pick(t, []*xmldot.Options{nil, {CaseSensitive: true, Indent: " "}, ci}))
			one := xmldot.Get(d.Src, base)
			if one.Type == xmldot.Array && len(one.Results) > 0 {
				checkSorted(t, base, one, xmldot.Get(d.Src, base+"|@sort"))
				if len(one.Results) > 12 {
					t.Label("sort of more than twelve")
				}
			}
			// formatting
			for _, m := range []string{"pretty", "ugly"} {
				got := xmldot.Get(d.Src, base+"|@"+m)
				checkFormat(t, base+"|@"+m, m, one, got)
				if one.Type == xmldot.Array {
					got = xmldot.Get(d.Src, base+"|@first|@"+m)
					first := one
					if len(one.Results) > 0 {
						first = one.Results[0]
					}
					checkFormat(t, base+"|@first|@"+m, m, first, got)
				}
			}
		},
		Fixed: []Fixed{
			fixedQuery("modifier after root-level count", `<a>1</a><a>2</a>`, "a.#|@nosuch", ""),
			fixedQuery("modifier after root-level index", `<a>1</a><a>2</a>`, "a.0|@nosuch", ""),
			fixedQuery("reverse applied once below a wildcard", `<r><x><i><n>1</n></i><i><n>2</n></i></x><x><i><n>3</n></i></x></r>`, "r.*.i.#.n|@reverse", `["3","2","1"]`),
			fixedQuery("an unknown modifier is no reason to look further", `<i><q>1</q><q>2</q></i><i><z/></i>`, "i.q.#.%|@nosuch", ""),
			fixedQuery("an unknown modifier on an empty extraction", `<r><i/></r>`, "r.i.#.n|@nosuch", ""),
			{"ugly keeps comments and instructions as they are", func(t *T) {
				inner := "<!--a>- --><?p a > ? > c?>"
				if got := xmldot.Get("<r><a> 1 </a>"+inner+"</r>", "r|@ugly"); got.Raw != "<a>1</a>"+inner {
					t.Failf("ugly", "@ugly gives %q", got.Raw)
				}
			}},
			{"pretty keeps prefixes", func(t *T) {
				got := xmldot.Get(`<r><p:a xmlns:p="u" p:x="1"><p:b>1</p:b></p:a></r>`, "r|@pretty")
				if !strings.Contains(got.Raw, "<p:a") || !strings.Contains(got.Raw, "</p:b>") || !strings.Contains(got.Raw, `p:x="1"`) {
					t.Failf("pretty", "@pretty gives %q", got.Raw)
				}
			}},
		},
	})

	register(&Prop{
		ID: "C21", Quick: 600000, Thorough: 6000000,
		Rule: "a history of registry calls with at least one successful registration",
		Run:  runRegistry,
	})

	register(&Prop{
		ID: "C22", Quick: 8000000, Thorough: 80000000,
		Rule: "a result whose text is not empty",
		Run:  runConversions,
	})

	register(&Prop{
		ID: "C23", Quick: 250000, Thorough: 2500000,
		Rule: "a first part addressing an element with content, and a rest that yields a result on it",
		Assume: []string{
			"the rest starts with an element name or a wildcard (an element result does not carry its own attributes, and an index or text step would address the element itself)",
			"an empty field extraction counts as missing",
		},
		Run: func(t *T) {
			g := newG(t)
			d := g.anyDoc()
			n := g.target(d)
			if n == nil {
				return
			}
			ch := chain(n)
			k := t.Int(1, len(ch))
			// the first part, by index where needed so that it addresses exactly one element
			var p []Seg
			for _, x := range ch[:k] {
				p = append(p, Seg{Kind: SElem, Name: x.Name})
				if len(Eval{}.matching(siblings(d, x), x.Name)) > 1 || t.Bool() {
					p = append(p, Seg{Kind: SIndex, Idx: g.indexOf(x, siblings(d, x), x.Name)})
				}
			}
			at := ch[k-1]
			sub := &Doc{Kids: at.Kids}
			// a path below it: generated on the subtree
			var rest []Seg
			for try := 0; try < 8; try++ {
				if len(allElems(at.Kids)) == 0 {
					rest = []Seg{{Kind: SElem, Name: g.anyName()}}
					break
				}
				rest = g.subPath(sub, at)
				if rest[0].Kind != SFilter && rest[0].Kind != SFilterAll {
					break
				}
				rest = []Seg{{Kind: SStar}}
			}
			first := pathString(p)
			rs := pathString(rest)
			t.Note("document", d.Src)
			t.Note("first", first)
			t.Note("rest", rs)
			r := xmldot.Get(d.Src, first)
			if df := diff(elemR(at), r); df != "" {
				t.Failf("first-part", "Get(%q): %s", first, df)
			}
			direct := xmldot.Get(d.Src, first+"."+rs)
			chained := r.Get(rs)
			if emptyArr(direct) {
				direct = xmldot.Result{}
			}
			if emptyArr(chained) {
				chained = xmldot.Result{}
			}
			if df := same(direct, chained); df != "" {
				t.Failf("chained", "Get(%q).Get(%q) differs from Get(%q): %s", first, rs, first+"."+rs, df)
			}
			if direct.Exists() {
				t.Nontrivial(d.Src, first, rs)
			}
			if len(elemsOf(at.Kids)) > 1 {
				t.Label("several children")
			}
			paths := []string{rs, rs}
			if t.Bool() {
				paths = nil
				for n := t.Int(1, 4); n > 0; n-- {
					paths = append(paths, pick(t, []string{rs, "*", "%", "zz", "*.0", "**.a", escName(g.anyName()), escName(g.anyName())}))
				}
			}
			several := xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{r}}
			for n := t.Int(0, 3); n > 0; n-- {
				several.Results = append(several.Results, xmldot.Result{Type: xmldot.Element, Raw: "<zz/><b>1</b>"})
			}
			for _, x := range []xmldot.Result{r, several} {
				many := x.GetMany(paths...)
				if len(many) != len(paths) {
					t.Failf("many", "GetMany(%q) on the result gives %d answers", paths, len(many))
				}
				for i, m := range many {
					if df := exact(m, r.Get(paths[i])); df != "" {
						t.Failf("many", "GetMany(%q) on the result, position %d, differs from Get: %s", paths, i, df)
					}
				}
			}
			// ignoring case, against the content in a document of its own
			fs := pathString(g.flipPath(rest))
			t.Note("rest in other case", fs)
			whole := xmldot.GetWithOptions("<q>"+d.Src[at.OpenEnd:max(at.OpenEnd, at.CloseStart)]+"</q>", "Q."+fs, ci)
			part := r.GetWithOptions(fs, ci)
			if emptyArr(whole) {
				whole = xmldot.Result{}
			}
			if emptyArr(part) {
				part = xmldot.Result{}
			}
			if df := same(whole, part); df != "" {
				t.Failf("chained", "ignoring case, Get(%q).Get(%q) differs from the answer on the content as a document of its own: %s", first, fs, df)
			}
			if df := exact(r.GetWithOptions(rs, &xmldot.Options{CaseSensitive: true, PreserveWhitespace: true}), r.Get(rs)); df != "" {
				t.Failf("options", "Result.GetWithOptions(%q) differs from Get: %s", rs, df)
			}
			checkMap(t, r, at, Eval{})
			// arrays act on the first item; scalars and missing results answer nothing
			arr := xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{r, {Type: xmldot.Element, Raw: "<zz/>"}}}
			if df := exact(arr.Get(rs), r.Get(rs)); df != "" {
				t.Failf("array", "Get on an array differs from Get on its first item: %s", df)
			}
			for _, o := range []*xmldot.Options{nil, ci, {CaseSensitive: true, Indent: " "}} {
				if df := exact(arr.GetWithOptions(rs, o), r.GetWithOptions(rs, o)); df != "" {
					t.Failf("array", "GetWithOptions(%+v) on an array differs from that on its first item: %s", o, df)
				}
				a, b := arr.MapWithOptions(o), r.MapWithOptions(o)
				if o == nil {
					a, b = arr.Map(), r.Map()
				}
				if len(a) != len(b) {
					t.Failf("array", "Map(%+v) on an array has %d keys, on its first item %d", o, len(a), len(b))
				}
				for k := range a {
					if df := exact(a[k], b[k]); df != "" {
						t.Failf("array", "Map(%+v)[%q] on an array differs from that on its first item: %s", o, k, df)
					}
				}
			}
			for _, x := range []xmldot.Result{{}, {Type: xmldot.String, Str: "x", Raw: r.Raw}, {Type: xmldot.Number, Num: 1, Str: "1", Raw: r.Raw},
				{Type: xmldot.Attribute, Str: "x", Raw: r.Raw}, {Type: xmldot.True, Raw: r.Raw}, {Type: xmldot.False, Raw: r.Raw}, {Type: xmldot.Array}} {
				if x.Get(rs).Exists() || x.GetWithOptions(rs, ci).Exists() || x.GetMany(rs)[0].Exists() || len(x.Map()) != 0 || len(x.MapWithOptions(ci)) != 0 {
					t.Failf("scalar", "a query on a result of type %v answers something", x.Type)
				}
			}
		},
	})

	register(&Prop{
		ID: "C24", Quick: 450000, Thorough: 4500000,
		Rule: "a path that yields a result under case-insensitive matching",
		Assume: []string{
			"no element has two attributes whose names differ only in case",
		},
		Run: func(t *T) {
			g := newG(t)
			if t.Chance(70) {
				g.casePools()
			}
			roots := g.tree()
			noCaseTwins(roots)
			d := g.docOf(roots)
			p := g.path(d, allSteps)
			ps := pathString(p)
			noteQuery(t, d.Src, ps)
			plain := xmldot.Get(d.Src, ps)
			if df := diff((Eval{}).Get(d.roots(), p), plain); df != "" {
				t.Failf("wrong-answer", "Get(%q): %s", ps, df)
			}
			o := g.options()
			for _, oo := range []*xmldot.Options{nil, xmldot.DefaultOptions(), o} {
				if df := exact(xmldot.GetWithOptions(d.Src, ps, oo), plain); df != "" {
					t.Failf("options", "GetWithOptions(%q, %+v) differs from Get: %s", ps, oo, df)
				}
			}
			// case-insensitive
			q := g.flipPath(p)
			qs := pathString(q)
			t.Note("path in other case", qs)
			oo := *o
			oo.CaseSensitive = false
			want := Eval{fold: true}.Get(d.roots(), q)
			got := xmldot.GetWithOptions(d.Src, qs, &oo)
			if df := diff(want, got); df != "" {
				t.Failf("case", "GetWithOptions(%q, ignoring case): %s", qs, df)
			}
			labelResult(t, want)
			if !want.isNull() {
				t.Nontrivial(d.Src, qs)
			}
			if !want.isNull() && !xmldot.Get(d.Src, qs).Exists() {
				t.Label("found only ignoring case")
			}
			// maps
			if n := g.target(d); n != nil {
				var ip []Seg
				for _, x := range chain(n) {
					ip = append(ip, Seg{Kind: SElem, Name: x.Name}, Seg{Kind: SIndex, Idx: g.indexOf(x, siblings(d, x), x.Name)})
				}
				r := xmldot.Get(d.Src, pathString(ip))
				checkMap(t, r, n, Eval{fold: true})
				// queries on the result
				if len(n.elems()) > 0 {
					rest := g.flipPath(g.subPath(&Doc{Kids: n.Kids}, n))
					if rest[0].Kind == SElem || rest[0].Kind == SStar || rest[0].Kind == SStarStar {
						rs := pathString(rest)
						t.Note("rest", rs)
						fold := Eval{fold: true}
						var fp []Seg
						for _, x := range chain(n) {
							m := fold.matching(siblings(d, x), x.Name)
							fp = append(fp, Seg{Kind: SElem, Name: g.flip(x.Name)}, Seg{Kind: SIndex, Idx: slices.Index(m, x)})
						}
						fs := pathString(fp)
						direct := xmldot.GetWithOptions(d.Src, fs+"."+rs, &oo)
						chained := r.GetWithOptions(rs, &oo)
						if emptyArr(direct) {
							direct = xmldot.Result{}
						}
						if emptyArr(chained) {
							chained = xmldot.Result{}
						}
						if df := same(direct, chained); df != "" {
							t.Failf("chained", "ignoring case, Get(%q) on the result of %q differs from Get(%q): %s", rs, fs, fs+"."+rs, df)
						}
						if chained.Exists() {
							t.Label("chained ignoring case")
						}
					}
				}
			}
		},
	})

	register(&Prop{
		ID: "C29", Quick: 3906 + 400000, Thorough: 19531 + 4000000,
		Rule: "a pattern together with the texts it was tried on (the first cases enumerate all patterns over {a,b,*,?,\\} up to length 5, 6 in the thorough tier, each on all 781 texts over the same alphabet up to length 4)",
		Run:  runPatterns,
		Fixed: []Fixed{
			{"huge text against a pattern", func(t *T) {
				// beyond the work limit: answers without building the table
				doc := "<r><i><n>" + strings.Repeat("a", 4<<20) + "</n></i></r>"
				if xmldot.Get(doc, "r.i.#(n%'"+strings.Repeat("*a", 100)+"')").Exists() {
					t.Failf("limit", "a match beyond the work limit")
				}
			}},
		},
	})
}

func emptyArr(r xmldot.Result) bool { return r.Type == xmldot.Array && len(r.Results) == 0 }

// prologOf keeps an already noisy list of top-level nodes and adds declarations.
func (g *G) prologOf(ns []*Node) []*Node {
	t := g.t
	var out []*Node
	if t.Chance(30) {
		out = append(out, &Node{Kind: PI, Name: "xml", Text: ` version="1.0"`})
	}
	if t.Chance(20) {
		out = append(out, &Node{Kind: Doctype, Text: pick(t, doctypes)})
	}
	return append(out, ns...)
}

// escapeAll spells a path with a backslash before any character of a name, and with empty steps.
func (g *G) escapeAll(p []Seg) string {
	t := g.t
	var b strings.Builder
	for i, s := range p {
		if i > 0 {
			b.WriteByte('.')
		}
		if t.Chance(6) {
			b.WriteString(strings.Repeat(".", t.Int(1, 3)))
		}
		switch s.Kind {
		case SElem, SAttr:
			if s.Kind == SAttr {
				b.WriteByte('@')
			}
			for j := 0; j < len(s.Name); j++ {
				if s.Name[j] == '.' || t.Chance(40) {
					b.WriteByte('\\')
				}
				b.WriteByte(s.Name[j])
			}
			for _, m := range s.Mods {
				b.WriteString("|@" + m)
			}
		default:
			b.WriteString(pathString([]Seg{s}))
		}
	}
	if last := p[len(p)-1]; len(last.Mods) == 0 && t.Chance(6) {
		b.WriteString(".")
	} else if len(last.Mods) == 0 && (last.Kind == SElem || last.Kind == SAttr) && t.Chance(6) {
		b.WriteString("\\") // escapes nothing
	}
	return b.String()
}

// subPath is a path within the content of element at.
func (g *G) subPath(sub *Doc, at *Node) []Seg {
	t := g.t
	es := allElems(sub.Kids)
	n := pick(t, es)
	var ch []*Node
	for x := n; x != at; x = x.Parent {
		ch = append([]*Node{x}, ch...)
	}
	return g.pathOn(ch, func(x *Node) []*Node {
		return x.Parent.elems()
	}, allSteps)
}

// checkMark puts a modifier of its own at the end of a path: it is called once, with what the path
// gives without it, and what it returns is the answer.
func checkMark(t *T, src, ps string, o *xmldot.Options) {
	without := xmldot.GetWithOptions(src, ps, o)
	var calls []xmldot.Result
	err := xmldot.RegisterModifier("vmark", xmldot.NewModifierFunc("vmark", func(r xmldot.Result) xmldot.Result {
		calls = append(calls, r)
		return xmldot.Result{Type: xmldot.String, Str: "marked"}
	}))
	if err != nil {
		t.Failf("register", "%v", err)
	}
	defer xmldot.UnregisterModifier("vmark")
	got := xmldot.GetWithOptions(src, ps+"|@vmark", o)
	switch {
	case len(calls) > 1:
		t.Failf("modifier-count", "%q with options %+v: a modifier at the end is called %d times", ps, o, len(calls))
	case without.Exists() && len(calls) == 0:
		t.Failf("modifier-count", "%q with options %+v: a modifier at the end is not called", ps, o)
	case len(calls) == 0:
		return
	}
	if df := exact(calls[0], without); df != "" && without.Exists() {
		t.Failf("modifier-argument", "%q with options %+v: a modifier at the end gets something else than the result: %s", ps, o, df)
	}
	if got.Str != "marked" || got.Type != xmldot.String {
		t.Failf("modifier-result", "%q with options %+v: the answer is %v %q, not what the modifier at the end returned", ps, o, got.Type, clip(got.Str, 200))
	}
	t.Label("own modifier called")
}

// checkSorted: a permutation, in the order of the keys.
func checkSorted(t *T, base string, in, out xmldot.Result) {
	if out.Type != xmldot.Array || len(in.Results) != len(out.Results) {
		t.Failf("sort", "%q: @sort turns %d items into %d", base, len(in.Results), len(out.Results))
	}
	key := func(r xmldot.Result) string { return fmt.Sprint(r.Type, r.Str, "\x00", r.Raw) }
	have := map[string]int{}
	num := true
	for _, r := range in.Results {
		have[key(r)]++
		if _, err := strconv.ParseFloat(r.String(), 64); err != nil {
			num = false
		}
	}
	for _, r := range out.Results {
		have[key(r)]--
		if have[key(r)] < 0 {
			t.Failf("sort", "%q: @sort is not a permutation: %s from %s", base, clip(out.String(), 400), clip(in.String(), 400))
		}
	}
	for i := 1; i < len(out.Results); i++ {
		a, b := out.Results[i-1].String(), out.Results[i].String()
		bad := a > b
		if num {
			x, _ := strconv.ParseFloat(a, 64)
			y, _ := strconv.ParseFloat(b, 64)
			bad = x > y
		}
		if bad {
			t.Failf("sort", "%q: @sort puts %q before %q", base, a, b)
		}
	}
}

func checkFormat(t *T, ps, m string, one, got xmldot.Result) {
	if one.Type != got.Type || one.Str != got.Str || len(one.Results) != len(got.Results) {
		t.Failf("format", "%q: type %v text %q, without the modifier %v %q", ps, got.Type, clip(got.Str, 200), one.Type, clip(one.Str, 200))
	}
	if one.Type != xmldot.Element {
		return
	}
	if m == "ugly" {
		a, err := parseXML(one.Raw, true)
		if err != nil {
			bug("raw content: %v", err)
		}
		b, err := parseXML(got.Raw, true)
		if err != nil {
			t.Failf("format", "%q: raw content does not parse: %v: %q", ps, err, clip(got.Raw, 400))
		}
		for _, ns := range [][]*Node{a, b} {
			walk(ns, func(n *Node) {
				if n.Kind != Elem {
					n.Text = squeeze(n.Text)
				}
			})
		}
		if x, y := canon(a, true), canon(b, true); x != y {
			t.Failf("format", "%q changes more than white space\n got      %s\n expected %s", ps, clip(y, 500), clip(x, 500))
		}
		return
	}
	a, err := tokens(one.Raw)
	if err != nil {
		if got.Raw != one.Raw {
			t.Failf("format", "%q changes content that does not parse: %q", ps, clip(got.Raw, 300))
		}
		return
	}
	b, err := tokens(got.Raw)
	if err != nil {
		t.Failf("format", "%q: raw content does not parse: %v: %q", ps, err, clip(got.Raw, 400))
	}
	if a != b {
		t.Failf("format", "%q changes more than white space\n got      %s\n expected %s\n raw %q", ps, clip(b, 500), clip(a, 500), clip(got.Raw, 500))
	}
}

func checkMap(t *T, r xmldot.Result, n *Node, e Eval) {
	want := map[string][]R{}
	for _, k := range n.elems() {
		name := k.Name
		if e.fold {
			name = strings.ToLower(name)
		}
		want[name] = append(want[name], elemR(k))
	}
	var got map[string]xmldot.Result
	if e.fold {
		got = r.MapWithOptions(ci)
	} else {
		got = r.Map()
		for _, o := range []*xmldot.Options{nil, xmldot.DefaultOptions(), {CaseSensitive: true, Indent: " "}} {
			m := r.MapWithOptions(o)
			if len(m) != len(got) {
				t.Failf("map", "MapWithOptions(%+v) has %d keys, Map %d", o, len(m), len(got))
			}
			for k := range m {
				if d := exact(m[k], got[k]); d != "" {
					t.Failf("map", "MapWithOptions(%+v)[%q] differs from Map: %s", o, k, d)
				}
			}
		}
	}
	text := strings.TrimSpace(n.directText())
	nwant := len(want)
	if text != "" {
		nwant++
		if g := got["%"]; g.Str != text || g.Type != xmldot.String {
			t.Failf("map", "Map()[\"%%\"] = %q, expected %q", g.Str, text)
		}
	}
	if len(got) != nwant {
		t.Failf("map", "Map() has %d keys, expected %d", len(got), nwant)
	}
	for k, rs := range want {
		w := rs[0]
		if len(rs) > 1 {
			w = R{Type: xmldot.Array, Items: rs}
		}
		if d := diff(w, got[k]); d != "" {
			t.Failf("map", "Map()[%q]: %s", k, d)
		}
	}
}

func runRegistry(t *T) {
	names := []string{"m1", "m2", "up-case", "first", "sort", "pretty", "", "m.3", "Reverse"}
	builtin := map[string]bool{"reverse": true, "sort": true, "first": true, "last": true, "flatten": true, "pretty": true, "ugly": true}
	odd := map[string]bool{} // names that are not plain words, which a path may not be able to spell
	g := newG(t)
	for n := t.Int(0, 5); n > 0; n-- {
		base := pick(t, names)
		switch t.N(6) {
		case 0:
			names = append(names, pick(t, []string{"reverse", "last", "flatten", "ugly"}))
			continue
		case 1:
			base = strings.ReplaceAll(g.anyXMLName(), ":", "-")
			names = append(names, base)
			continue
		case 2:
			names = append(names, strings.ReplaceAll(similar(t, pick(t, []string{"reverse", "sort", "first", "m1"})), ":", "-"))
			continue
		case 3:
			base += pick(t, []string{" ", "\n", "|", "|@x", "\x00", "é", "@", ":", "\\", "()"})
		case 4:
			base = pick(t, []string{" ", "@", "\t", "|", "é", "#", "!"}) + base
		case 5:
			base = strings.Repeat(base+"x", t.Int(1, 200))
		}
		names = append(names, base)
		odd[base] = true
	}
	var bulk []string // registered before the first step
	if t.N(200) == 199 {
		for n := t.Int(20, 300); n > 0; n-- {
			bulk = append(bulk, fmt.Sprintf("bulk%d", n))
		}
		names = append(names, bulk...)
	}
	custom := map[string]bool{}
	for _, n := range names {
		if n != "" && !builtin[n] {
			custom[n] = true
		}
	}
	for n := range custom {
		xmldot.UnregisterModifier(n)
	}
	defer func() {
		for n := range custom {
			xmldot.UnregisterModifier(n)
		}
	}()
	model := map[string]int{}
	var log strings.Builder
	defer func() { t.Note("history", log.String()) }()
	steps := t.Int(2, 20)
	registered := false
	add := func(n, mname string, id int) {
		err := xmldot.RegisterModifier(n, xmldot.NewModifierFunc(mname, func(r xmldot.Result) xmldot.Result {
			return xmldot.Result{Type: xmldot.String, Str: fmt.Sprintf("%d:%s", id, r.String())}
		}))
		fmt.Fprintf(&log, "register(%q)=%v; ", n, err)
		_, have := model[n]
		if wantErr := n == "" || builtin[n] || have; (err != nil) != wantErr {
			t.Failf("register", "%s: error expected: %v", log.String(), wantErr)
		}
		if err == nil {
			model[n] = id
			registered = true
		}
	}
	for i, n := range bulk {
		add(n, n, 1000+i)
	}
	doc := "<r><a>2</a><a>1</a></r>"
	use := func(n string) {
		if odd[n] {
			return
		}
		path := "r.a|@" + strings.ReplaceAll(n, ".", `\.`)
		got := xmldot.Get(doc, path)
		id, ok := model[n]
		switch {
		case builtin[n]:
			if got.Str != "2" || got.Type != xmldot.Element {
				t.Failf("builtin", "after %s: Get(%q) = %v %q", log.String(), path, got.Type, got.Str)
			}
		case ok:
			if want := fmt.Sprintf("%d:2", id); got.Str != want {
				t.Failf("use", "after %s: Get(%q) = %q, expected %q", log.String(), path, got.Str, want)
			}
			// in a chain with itself and a built-in
			if got, want := xmldot.Get(doc, "r.a.#|@first|@"+strings.ReplaceAll(n, ".", `\.`)+"|@last"), fmt.Sprintf("%d:2", id); got.Str != want {
				t.Failf("use", "after %s: in a chain it gives %q, expected %q", log.String(), got.Str, want)
			}
		default:
			if n != "" && got.Exists() {
				t.Failf("unknown", "after %s: Get(%q) answers %q although the modifier is not registered", log.String(), path, got.Str)
			}
		}
	}
	for i := 0; i < steps; i++ {
		n := pick(t, names)
		switch t.W(40, 25, 20, 15) {
		case 0:
			mname := n
			if t.Bool() {
				mname = "other" // the registered name counts, not the modifier's own
			}
			add(n, mname, i)
		case 1:
			err := xmldot.UnregisterModifier(n)
			fmt.Fprintf(&log, "unregister(%q)=%v; ", n, err)
			if (err != nil) != builtin[n] {
				t.Failf("unregister", "%s: error expected: %v", log.String(), builtin[n])
			}
			delete(model, n)
		case 2:
			use(n)
		case 3:
			m := xmldot.GetModifier(n)
			id, have := model[n]
			fmt.Fprintf(&log, "get(%q); ", n)
			if (m != nil) != (have || builtin[n]) {
				t.Failf("lookup", "%s: registered %v, expected %v", log.String(), m != nil, have || builtin[n])
			}
			if m != nil && have {
				if s := m.Apply(xmldot.Result{Type: xmldot.String, Str: "z"}).Str; s != fmt.Sprintf("%d:z", id) {
					t.Failf("lookup", "%s: the modifier gives %q, expected that of registration %d", log.String(), s, id)
				}
			}
			if m != nil && builtin[n] && m.Name() != n {
				t.Failf("lookup", "%s: built-in %q is called %q", log.String(), n, m.Name())
			}
		}
	}
	for _, n := range names {
		use(n)
	}
	// built-ins keep working
	for _, c := range [][2]string{{"@sort", `["1","2","3"]`}, {"@reverse", `["3","1","2"]`}, {"@first", "2"}, {"@last", "3"}, {"@flatten", `["2","1","3"]`}} {
		if got := xmldot.Get("<r><a><b>2</b></a><a><b>1</b></a><a><b>3</b></a></r>", "r.a.#.b|"+c[0]).String(); got != c[1] {
			t.Failf("builtin", "after %s: %s gives %s, expected %s", log.String(), c[0], got, c[1])
		}
	}
	if registered {
		t.Nontrivial(log.String())
	}
}

var convTexts = []string{"", "0", "1", "-1", "+7", "42", "007", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"1.5", "-0.0", ".5", "5.", "1e3", "1E-3", "1e400", "-1e400", "inf", "-Inf", "Infinity", "NaN", "0x1F", "0x1p-2", "1_000", " 5", "5 ", "--5", "true", "True", "TRUE", "yes", "YES", "Yes",
	"t", "T", "y", "on", "1.0", "false", "no", "f", "é", "٣", "\"", "\\", "a\"b\\c", "4e-324", "1.7976931348623157e308", "truetrue", "tr", "１", "1,000", "12,345.6", "1.000,5", "1 000", "1'000", "50%", "$5", "€5", "(5)", "1/2", "5.0", "1e2", "0b101", "0o17", "017", "5f", "5L", "1st", "#5", "0.1", "123456789012345678901234567890", "18446744073709551615", "0.30000000000000004", "1e-400", "ok", "enabled", "nan", "null", "nil", "2", "-0", "00", "+0", "−5", "½", "∞"}

func runConversions(t *T) {
	text := func() string {
		switch t.W(55, 15, 8, 22) {
		case 0:
			return pick(t, convTexts)
		case 1:
			// one character away from an interesting text
			s := []rune(pick(t, convTexts))
			c := rune(t.Int(' ', '~'))
			i := t.Int(0, len(s))
			switch {
			case i == len(s) || t.Bool():
				return string(s[:i]) + string(c) + string(s[i:])
			case t.Bool():
				return string(s[:i]) + string(s[i+1:])
			}
			return string(s[:i]) + string(c) + string(s[i+1:])
		case 2:
			// a number in one of its spellings
			v := math.Float64frombits(t.U64())
			switch t.N(3) {
			case 0:
				v = float64(int64(t.U64()))
			case 1:
				return fmt.Sprint(int64(t.U64() >> uint(t.N(64))))
			}
			return strconv.FormatFloat(v, "feEgGx"[t.N(6)], t.Int(-1, 20), 64)
		}
		n := t.Int(0, 8)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(pick(t, []string{"1", "0", "9", "-", "+", ".", "e", "E", "x", "_", " ", "t", "T", "r", "u", "i", "n", "f", "\"", "\\", "é", ",", "'", "%", "$", "/", "(", ")", "\t", "\n", "y", "s", "a", "N", "<", "&", ";", "#"}))
		}
		return b.String()
	}
	num := func() float64 {
		switch t.W(50, 30, 20) {
		case 0:
			return float64(t.Int(-1000, 1000))
		case 1:
			f, _ := strconv.ParseFloat(pick(t, convTexts), 64)
			if math.IsInf(f, 0) || math.IsNaN(f) || math.Abs(f) >= 1<<62 {
				return 0.25
			}
			return f
		}
		return float64(t.Int(-100000, 100000)) / 128
	}
	var build func(depth int) xmldot.Result
	build = func(depth int) xmldot.Result {
		switch t.W(25, 25, 20, 10, 5, 5, 5, 15) {
		case 0:
			return xmldot.Result{Type: xmldot.String, Str: text()}
		case 1:
			return xmldot.Result{Type: xmldot.Element, Str: text(), Raw: "<x/>"}
		case 2:
			s := text()
			return xmldot.Result{Type: xmldot.Attribute, Str: s, Raw: s}
		case 3:
			f := num()
			return xmldot.Result{Type: xmldot.Number, Num: f, Str: strconv.FormatFloat(f, 'g', -1, 64)}
		case 4:
			return xmldot.Result{Type: xmldot.True, Str: "true"}
		case 5:
			return xmldot.Result{Type: xmldot.False, Str: "false"}
		case 6:
			return xmldot.Result{}
		}
		r := xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{}}
		if depth > 0 {
			n := t.Int(0, 4)
			if depth == 2 && t.N(500) == 499 {
				n = t.Int(5, 1500)
			}
			for i := 0; i < n; i++ {
				r.Results = append(r.Results, build(depth-1))
			}
		}
		return r
	}
	r := build(2)
	t.Notef("result", "%+v", r)
	// one that comes out of a document
	if t.Chance(30) {
		s := text()
		doc := "<r><a x=\"" + attrEsc(s) + "\">" + attrEsc(s) + "</a></r>"
		if t.Bool() {
			r = xmldot.Get(doc, "r.a")
			if r.Str != strings.TrimSpace(s) {
				t.Failf("text", "text %q read as %q", s, r.Str)
			}
		} else {
			r = xmldot.Get(doc, "r.a.@x")
			if r.Str != s {
				t.Failf("text", "text %q read as %q", s, r.Str)
			}
		}
		t.Note("document", doc)
	}
	checkConv(t, r)
	if r.String() != "" {
		t.Nontrivial(fmt.Sprintf("%+v", r))
	}
	t.Label(fmt.Sprintf("type %d", r.Type))
}

func attrEsc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;").Replace(s)
}

func checkConv(t *T, r xmldot.Result) {
	var wantS string
	var wantI int64
	var wantF float64
	var wantB bool
	var wantV any
	var arr []xmldot.Result
	switch r.Type {
	case xmldot.Null:
	case xmldot.True:
		wantS, wantI, wantF, wantB, wantV = r.Str, 1, 1, true, true
		arr = []xmldot.Result{r}
	case xmldot.False:
		wantS, wantV = r.Str, false
		arr = []xmldot.Result{r}
	case xmldot.Number:
		wantS, wantI, wantF, wantB, wantV = r.Str, int64(r.Num), r.Num, r.Num != 0, r.Num
		arr = []xmldot.Result{r}
	case xmldot.Array:
		var b bytes.Buffer
		b.WriteByte('[')
		for i, it := range r.Results {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteByte('"')
			s := it.String()
			for j := 0; j < len(s); j++ {
				if s[j] == '"' || s[j] == '\\' {
					b.WriteByte('\\')
				}
				b.WriteByte(s[j])
			}
			b.WriteByte('"')
		}
		b.WriteByte(']')
		wantS = b.String()
		arr = r.Results
		if v, ok := r.Value().([]xmldot.Result); !ok || len(v) != len(r.Results) {
			t.Failf("value", "Value() of an array is %T", r.Value())
		}
	default:
		wantS, wantV = r.Str, r.Str
		if i, err := strconv.ParseInt(r.Str, 10, 64); err == nil {
			wantI = i
		}
		if f, err := strconv.ParseFloat(r.Str, 64); err == nil {
			wantF = f
		}
		switch r.Str {
		case "true", "1", "yes", "True", "YES", "t", "T":
			wantB = true
		}
		arr = []xmldot.Result{r}
	}
	if got := r.String(); got != wantS {
		t.Failf("string", "String() = %q, expected %q", got, wantS)
	}
	if got := r.Int(); got != wantI {
		t.Failf("int", "Int() = %d, expected %d", got, wantI)
	}
	if got := r.Float(); got != wantF && !(math.IsNaN(got) && math.IsNaN(wantF)) {
		t.Failf("float", "Float() = %v, expected %v", got, wantF)
	}
	if got := r.Bool(); got != wantB {
		t.Failf("bool", "Bool() = %v, expected %v", got, wantB)
	}
	if r.Type != xmldot.Array {
		if got := r.Value(); got != wantV {
			t.Failf("value", "Value() = %v, expected %v", got, wantV)
		}
	}
	if r.Exists() != (r.Type != xmldot.Null) || r.IsArray() != (r.Type == xmldot.Array) {
		t.Failf("kind", "Exists() = %v, IsArray() = %v for type %v", r.Exists(), r.IsArray(), r.Type)
	}
	got := r.Array()
	if len(got) != len(arr) {
		t.Failf("array", "Array() has %d items, expected %d", len(got), len(arr))
	}
	for i := range arr {
		if d := exact(got[i], arr[i]); d != "" {
			t.Failf("array", "Array()[%d]: %s", i, d)
		}
	}
	stop := len(arr) + 1
	if t.Bool() {
		stop = t.Int(1, len(arr)+1)
	}
	seen := 0
	r.ForEach(func(i int, v xmldot.Result) bool {
		if i != seen {
			t.Failf("foreach", "ForEach passes index %d at step %d", i, seen)
		}
		if i >= len(arr) {
			t.Failf("foreach", "ForEach visits %d items, expected %d", i+1, len(arr))
		}
		if d := exact(v, arr[i]); d != "" {
			t.Failf("foreach", "ForEach item %d: %s", i, d)
		}
		seen++
		return seen < stop
	})
	if want := min(stop, len(arr)); seen != want {
		t.Failf("foreach", "ForEach visited %d items, expected %d (stopped after %d)", seen, want, stop)
	}
	for _, it := range r.Results {
		checkConv(t, it)
	}
}

const patAlphabet = `ab*?\`

// nth is the i-th string over the alphabet, in order of length.
func nth(i int) string {
	if i == 0 {
		return ""
	}
	i--
	n, w := 1, len(patAlphabet)
	for i >= w {
		i -= w
		w *= len(patAlphabet)
		n++
	}
	b := make([]byte, n)
	for k := n - 1; k >= 0; k-- {
		b[k] = patAlphabet[i%len(patAlphabet)]
		i /= len(patAlphabet)
	}
	return string(b)
}

var patTexts []string
var patDoc string

// longNames is a document of long names, many of which begin or end alike.
func (g *G) longNames() *Doc {
	t := g.t
	stem := strings.Repeat(pick(t, []string{"abcdefghij", "n", "x-"}), t.Int(1, 20))
	stem = stem[:min(len(stem), 80)]
	names := []string{stem, stem + "a", stem + "b", "a" + stem, "b" + stem}
	leaves := func() []*Node {
		var out []*Node
		for i, n := range names {
			out = append(out, &Node{Kind: Elem, Name: n, Kids: []*Node{{Kind: Text, Text: fmt.Sprint(i, "-", t.N(1000))}}})
		}
		return out
	}
	kids := leaves()
	for i := t.Int(1, 60); i > 0; i-- {
		n := &Node{Kind: Elem, Name: pick(t, names[:t.Int(1, 5)]), Kids: kids}
		kids = []*Node{n}
		if t.Chance(20) {
			kids = append(leaves(), n)
		}
	}
	return g.docOf(kids)
}

func runPatterns(t *T) {
	enum := 3906
	if t.Tier == "thorough" {
		enum = 19531
	}
	if patTexts == nil {
		var b strings.Builder
		b.WriteString("<r>")
		for i := 0; i < 781; i++ {
			s := nth(i)
			patTexts = append(patTexts, s)
			b.WriteString(`<i k="` + s + `"><n>` + s + "</n></i>")
		}
		b.WriteString("</r>")
		patDoc = b.String()
	}
	var pat string
	texts, doc := patTexts, patDoc
	if t.Index >= 0 && t.Index < enum {
		pat = nth(t.Index)
		t.Label("enumerated pattern")
	} else {
		// a text over a wide alphabet and a pattern made from one of the texts
		alpha := []rune("ab*?\\é日🎉 x.()#|@0\n\t\rAB&<>;[]^$+{}-_/~")
		texts = nil
		n := t.Int(1, 6)
		for i := 0; i < n; i++ {
			k := t.Int(0, 14)
			if t.Chance(5) {
				k = t.Int(90, 130)
			}
			rs := make([]rune, k)
			for j := range rs {
				rs[j] = pick(t, alpha[:pick(t, []int{3, len(alpha)})])
				if t.Chance(5) {
					rs[j] = newG(t).char()
				}
			}
			texts = append(texts, strings.TrimSpace(string(rs)))
		}
		rs := []rune(pick(t, texts))
		var b strings.Builder
		for i := 0; i < len(rs); i++ {
			switch t.W(60, 10, 10, 10, 10) {
			case 0:
				switch {
				case strings.ContainsRune(`*?\'"`, rs[i]):
					if rs[i] == '\'' || rs[i] == '"' {
						b.WriteByte('?')
						continue
					}
					b.WriteByte('\\')
				case rs[i] < ' ' || rs[i] == 0xfffd:
					b.WriteByte('?') // not written in conditions
					continue
				}
				b.WriteRune(rs[i])
			case 1:
				b.WriteByte('?')
			case 2:
				b.WriteByte('*')
				i += t.N(4)
			case 3:
				b.WriteByte('*')
				i--
				if !t.Chance(50) {
					i++
				}
			case 4:
				b.WriteString(pick(t, []string{"\\a", "**", "*?", "b", "\\\\"}))
			}
			if b.Len() > 150 {
				break
			}
		}
		pat = b.String()
		var sb strings.Builder
		sb.WriteString("<r>")
		for _, s := range texts {
			sb.WriteString(`<i k="` + attrEsc(s) + `"><n>` + attrEsc(s) + "</n></i>")
		}
		sb.WriteString("</r>")
		doc = sb.String()
		t.Note("document", doc)
	}
	t.Note("pattern", pat)
	if strings.Count(pat, "\\") > 60 {
		return
	}
	// the path parser removes one level of backslashes
	lit := strings.ReplaceAll(pat, `\`, `\\`)
	limit := 0
	for _, c := range []struct {
		neg   bool
		attr  bool
		quote string
	}{{false, false, "'"}, {true, false, "'"}, {false, true, `"`}} {
		op := "%"
		if c.neg {
			op = "!%"
		}
		path := "r.i.#(n" + op + c.quote + lit + c.quote + ")#.n"
		if c.attr {
			path = "r.i.#(@k" + op + c.quote + lit + c.quote + ")#.@k"
		}
		var want []string
		for _, s := range texts {
			if overLimit(s, pat) {
				limit++
				continue
			}
			if glob(s, pat) != c.neg {
				want = append(want, s)
			}
		}
		got := xmldot.Get(doc, path).Array()
		if len(got) != len(want) {
			t.Failf("match", "%q selects %d texts, expected %d%s", path, len(got), len(want), firstDiff(got, want))
		}
		for i := range got {
			if got[i].Str != want[i] {
				t.Failf("match", "%q selects %q, expected %q", path, got[i].Str, want[i])
			}
		}
	}
	if limit > 0 {
		t.Label("beyond the work limit")
	}
	t.Nontrivial(doc, pat)
}

func firstDiff(got []xmldot.Result, want []string) string {
	for i, w := range want {
		if i >= len(got) || got[i].Str != w {
			return fmt.Sprintf(" (expected %q at %d)", w, i)
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf(" (unexpected %q)", got[len(want)].Str)
	}
	return ""
}

// overLimit: the work limit counts text length times pattern length, escapes taken together.
func overLimit(s, pat string) bool {
	if !strings.ContainsAny(pat, `*?\`) {
		return false
	}
	n := 0
	rs := []rune(pat)
	for i := 0; i < len(rs); i++ {
		if rs[i] == '\\' && i+1 < len(rs) {
			i++
		}
		n++
	}
	return n*len([]rune(s)) > xmldot.MaxPatternIterations
}
