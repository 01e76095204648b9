package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/netascode/xmldot"
)

func noteQuery(t *T, doc, path string) {
	t.Note("document", doc)
	t.Note("path", path)
}

func labelResult(t *T, r R) {
	switch r.Type {
	case xmldot.Null:
		t.Label("result missing")
	case xmldot.Array:
		t.Label("result array")
	default:
		t.Label("result single")
	}
}

// query checks one path against the model and returns the model's result.
func query(t *T, d *Doc, p []Seg, ps string) R {
	want := Eval{}.Get(d.roots(), p)
	got := xmldot.Get(d.Src, ps)
	if df := diff(want, got); df != "" {
		t.Failf("wrong-answer", "Get(%q): %s", ps, df)
	}
	labelResult(t, want)
	return want
}

func fixedQuery(name, doc, path, want string) Fixed {
	return Fixed{name, func(t *T) {
		noteQuery(t, doc, path)
		if got := xmldot.Get(doc, path).String(); got != want {
			t.Failf("wrong-answer", "Get(%q) = %q, expected %q", path, got, want)
		}
	}}
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 1000000, Thorough: 10000000,
		Rule: "a generated document and element/attribute path whose answer exists, or that misses although a prefix of the path exists",
		Run: func(t *T) {
			g := newG(t)
			if t.Chance(1) {
				g.deepen(t.Int(45, 88))
			}
			d := g.anyDoc()
			p := g.elemPath(d)
			if t.Chance(35) {
				p = append(p, Seg{Kind: SAttr, Name: g.anyAttr()})
			}
			ps := g.spellPath(p)
			noteQuery(t, d.Src, ps)
			r := query(t, d, p, ps)
			if !r.isNull() || len(p) > 1 && !(Eval{}).Get(d.roots(), p[:1]).isNull() {
				t.Nontrivial(d.Src, ps)
			}
			if len(d.roots()) > 1 {
				t.Label("several roots")
			}
		},
	})
	register(&Prop{
		ID: "C03", Quick: 200000, Thorough: 2000000,
		Rule: "an index, count or field path over a run of siblings that exists in the document",
		Run: func(t *T) {
			g := newG(t)
			if len(g.names) > 2 && t.Bool() {
				g.names = g.names[:2] // more repetitions
			}
			d := g.anyDoc()
			p := g.path(d, PathOpt{Index: true, Attr: true, Text: true})
			// choose the run: the siblings addressed by a prefix ending in a name
			var at []int
			for i, s := range p {
				if s.Kind == SElem {
					at = append(at, i)
				}
			}
			if len(at) == 0 {
				t.Label("no run")
				return
			}
			k := pick(t, at)
			run := append([]Seg(nil), p[:k+1]...)
			cnt := query(t, d, append(append([]Seg(nil), run...), Seg{Kind: SCount}), pathString(run)+".#")
			noteQuery(t, d.Src, pathString(run))
			n := int(cnt.Num)
			if n > 0 {
				t.Nontrivial(d.Src, pathString(run))
			}
			if n > 1 {
				t.Label("run of several")
			}
			// every index, one beyond, and a few odd ones
			for i := 0; i <= n+1 && i < 12; i++ {
				q := append(append([]Seg(nil), run...), Seg{Kind: SIndex, Idx: i})
				query(t, d, q, pathString(q))
				if t.Chance(20) {
					query(t, d, q, pathString(run)+"."+"000"[:t.Int(1, 3)]+strconv.Itoa(i))
				}
				q = append(q, Seg{Kind: SText})
				query(t, d, q, pathString(q))
			}
			for _, i := range []int{n - 1, n / 2} {
				if i >= 12 {
					q := append(append([]Seg(nil), run...), Seg{Kind: SIndex, Idx: i})
					query(t, d, q, pathString(q))
					query(t, d, q, pathString(run)+".0"+strconv.Itoa(i))
				}
			}
			huge := pick(t, []int{1 << 31, 1 << 32, 1 << 33, 1 << 62, 1<<63 - 1, 1 << 16, 1 << 8})
			for _, i := range []int{-1, -2, 1000, n + 50, huge, huge + t.N(n+1), -1 << 32, -1<<32 + t.N(n+1)} {
				q := append(append([]Seg(nil), run...), Seg{Kind: SIndex, Idx: i})
				query(t, d, q, pathString(q))
			}
			// numbers beyond 64 bits
			for _, i := range []string{"9223372036854775808", "18446744073709551616", "18446744073709551615", "-9223372036854775809", "340282366920938463463374607431768211456"} {
				if got := xmldot.Get(d.Src, pathString(run)+"."+i); got.Exists() {
					t.Failf("huge-index", "Get(%q) = %q", pathString(run)+"."+i, got.String())
				}
			}
			// the path itself (indices in it, continuing after an index)
			query(t, d, p, pathString(p))
			// fields
			for i := 0; i < 3; i++ {
				f := "%"
				switch t.W(50, 40, 10) {
				case 0:
					f = g.fieldName()
				case 1:
					f = "@" + g.fieldAttr()
				}
				q := append(append([]Seg(nil), run...), Seg{Kind: SField, Name: f})
				r := query(t, d, q, pathString(q))
				if len(r.Items) > 1 {
					t.Label("field of several")
				}
			}
		},
		Fixed: []Fixed{
			fixedQuery("text after an index below the root", `<r><a>x<b>y</b></a><a>z<b>w</b></a></r>`, "r.a.1.%", "z"),
			fixedQuery("count of prefixed roots", `<ns:i>1</ns:i><i>2</i>`, "i.#", "2"),
			fixedQuery("index of prefixed roots", `<ns:i>1</ns:i><i>2</i>`, "i.1", "2"),
			fixedQuery("field of prefixed roots", `<ns:i><n>1</n></ns:i><i><n>2</n></i>`, "i.#.n", `["1","2"]`),
		},
	})
	register(&Prop{
		ID: "C04", Quick: 800000, Thorough: 8000000,
		Rule: "a path with at least one wildcard step that yields a result",
		Assume: []string{
			"the step directly after ** is an element name or *, and is not itself followed by an index, count or filter (the repository's tests record that combination as unsupported)",
			"at most one ** per path, documents stay below the result and operation caps (the caps belong to C19)",
		},
		Run: func(t *T) {
			g := newG(t)
			if t.Chance(1) {
				g.deepen(t.Int(45, 88))
			}
			d := g.anyDoc()
			o := allSteps
			o.Mods = false
			p := g.path(d, o)
			wild := false
			for _, s := range p {
				wild = wild || s.Kind == SStar || s.Kind == SStarStar
			}
			if !wild {
				// make one
				i := t.N(len(p))
				for j := 0; j < len(p); j++ {
					k := (i + j) % len(p)
					if p[k].Kind == SElem && (k+1 == len(p) || p[k+1].Kind != SIndex && p[k+1].Kind != SCount && p[k+1].Kind != SField && p[k+1].Kind != SFilter && p[k+1].Kind != SFilterAll) {
						p[k] = Seg{Kind: SStar}
						wild = true
						break
					}
				}
			}
			ps := pathString(p)
			noteQuery(t, d.Src, ps)
			r := query(t, d, p, ps)
			if wild && !r.isNull() {
				t.Nontrivial(d.Src, ps)
				for _, s := range p {
					if s.Kind == SStarStar {
						t.Label("recursive wildcard with results")
					}
				}
			}
			if wild && len(r.Items) > 3 {
				t.Label("more than three results")
			}
		},
	})
	register(&Prop{
		ID: "C05", Quick: 600000, Thorough: 6000000,
		Rule: "a filter path evaluated where at least one candidate element exists at the filter",
		Assume: []string{
			"values written in a condition contain no control characters and not both kinds of quotes, unquoted ones no operator, dot or parenthesis",
			"a filter is the first step or directly follows an element name",
		},
		Run: func(t *T) {
			g := newG(t)
			d := g.anyDoc()
			n := g.target(d)
			if t.Chance(70) {
				d = g.records()
				var items []*Node
				for _, x := range allElems(d.Kids) {
					if localName(x.Name) == "item" {
						items = append(items, x)
					}
				}
				if n = g.target(d); len(items) > 0 {
					n = pick(t, items)
				}
			}
			if n == nil {
				return
			}
			var p []Seg
			ch := chain(n)
			for i, x := range ch {
				if i == len(ch)-1 {
					break
				}
				p = append(p, Seg{Kind: SElem, Name: g.stepName(x)})
			}
			whole := t.Chance(8) && len(p) == 0
			if !whole {
				p = append(p, Seg{Kind: SElem, Name: g.stepName(n)})
			}
			sib := pick(t, siblings(d, n))
			if t.Chance(70) {
				sib = n
			}
			k := SFilter
			if t.Chance(60) {
				k = SFilterAll
			}
			c := g.cond(sib)
			if t.Chance(35) && c.Op != "" {
				c.Val = g.number()
				g.quoteCond(c)
			}
			p = append(p, Seg{Kind: k, Cond: c})
			switch t.W(40, 15, 15, 20, 10) {
			case 1:
				p = append(p, Seg{Kind: SAttr, Name: g.anyAttr()})
			case 2:
				p = append(p, Seg{Kind: SText})
			case 3:
				nm := g.anyName()
				if es := n.elems(); len(es) > 0 && t.Chance(80) {
					nm = g.stepName(pick(t, es))
				}
				p = append(p, Seg{Kind: SElem, Name: nm})
			case 4:
				p = append(p, Seg{Kind: SField, Name: g.fieldName()})
			}
			ps := pathString(p)
			noteQuery(t, d.Src, ps)
			r := query(t, d, p, ps)
			t.Nontrivial(d.Src, ps)
			t.Label("operator " + c.Op)
			if !r.isNull() {
				t.Label("operator " + c.Op + " hit")
			}
			if c.Quote != "" {
				t.Label("quoted value")
			}
		},
		Fixed: []Fixed{
			fixedQuery("two-character operator inside a quoted value", `<r><a><n>x==y</n></a><a><n>z</n></a></r>`, `r.a.#(n%'x==y').n`, "x==y"),
			fixedQuery("dots inside a filter", `<r><a><n>1.5</n></a><a><n>2.5</n></a></r>`, `r.a.#(n==2.5).n`, "2.5"),
			fixedQuery("pipe inside a filter", `<r><a><n>x|y</n></a></r>`, `r.a.#(n=="x|y").n`, "x|y"),
			fixedQuery("closing parenthesis inside a quoted value", `<r><a><n>f(x)</n></a><a><n>q)</n></a></r>`, `r.a.#(n=="q)").n`, "q)"),
		},
	})
	register(&Prop{
		ID: "C06", Quick: 600000, Thorough: 6000000,
		Rule: "an element with mixed content or a value containing a markup character, reference or non-ASCII character",
		Assume: []string{
			"comments, instructions and CDATA sections contribute no text (the repository's tests pin that CDATA is not extracted)",
		},
		Run: func(t *T) {
			g := newG(t)
			g.mix = 80
			d := g.anyDoc()
			n := g.target(d)
			if n == nil {
				return
			}
			ch := chain(n)
			// address it by index at every level, so that the element is exactly n
			var p []Seg
			for _, x := range ch {
				p = append(p, Seg{Kind: SElem, Name: x.Name}, Seg{Kind: SIndex, Idx: g.indexOf(x, siblings(d, x), x.Name)})
			}
			ps := pathString(p)
			noteQuery(t, d.Src, ps)
			if got, want := xmldot.Get(d.Src, ps), strings.TrimSpace(n.allText()); got.Str != want || got.String() != want {
				t.Failf("text", "Get(%q) = %q, expected %q", ps, got.Str, want)
			}
			if got, want := xmldot.Get(d.Src, ps+".%"), strings.TrimSpace(n.directText()); got.Str != want {
				t.Failf("direct-text", "Get(%q) = %q, expected %q", ps+".%", got.Str, want)
			}
			for _, a := range n.Attrs {
				aps := ps + ".@" + escName(a.Name)
				if got := xmldot.Get(d.Src, aps); got.Str != a.Val || !got.Exists() {
					t.Failf("attribute", "Get(%q) = %q, expected %q", aps, got.Str, a.Val)
				}
			}
			s := n.allText()
			for _, a := range n.Attrs {
				s += a.Val
			}
			if len(n.Kids) > 1 || strings.ContainsAny(s, "&<>'\"") || strings.IndexFunc(s, func(r rune) bool { return r > 127 }) >= 0 {
				t.Nontrivial(d.Src, ps)
			}
			if strings.Contains(s, "&amp;") || strings.Contains(s, "&lt;") {
				t.Label("double-escaped")
			}
			if n.directText() != n.allText() {
				t.Label("text in descendants")
			}
		},
	})
}

var _ = fmt.Sprint
