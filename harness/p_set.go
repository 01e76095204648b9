package main

import (
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/netascode/xmldot"
)

// resolve follows the first match of every step and returns the deepest element reached (nil:
// none) and the steps that have no match.
func resolve(e Eval, d *Doc, p []Seg) (cur *Node, rest []Seg) {
	level := d.roots()
	for i := 0; i < len(p); {
		if p[i].Kind != SElem {
			return cur, p[i:]
		}
		ms := e.matching(level, p[i].Name)
		k, n := 0, 1
		if i+1 < len(p) && p[i+1].Kind == SIndex {
			k, n = p[i+1].Idx, 2
		}
		if k < 0 || k >= len(ms) {
			return cur, p[i:]
		}
		cur = ms[k]
		level = cur.elems()
		i += n
	}
	return cur, nil
}

// creatable: only plain names can be created.
func creatable(rest []Seg) bool {
	for _, s := range rest {
		if s.Kind != SElem {
			return false
		}
	}
	return true
}

// Val is a value to set with the text it stands for.
type Val struct {
	v    any
	text string
	raw  bool
}

func (g *G) scalar() Val {
	t := g.t
	switch t.W(60, 10, 8, 10, 6, 6) {
	case 1:
		i := pick(t, []int{0, 1, -1, 42, math.MaxInt64, math.MinInt64, t.Int(-100000, 100000), int(t.U64()) >> t.N(64)})
		return Val{v: i, text: strconv.Itoa(i)}
	case 2:
		i := pick(t, []int64{0, math.MaxInt64, math.MinInt64, int64(t.Int(-100000, 100000)), int64(t.U64()) >> t.N(64)})
		return Val{v: i, text: strconv.FormatInt(i, 10)}
	case 3:
		any := math.Float64frombits(t.U64())
		if math.IsNaN(any) || math.IsInf(any, 0) {
			any = 1 / 3.0
		}
		f := pick(t, []float64{any, 0, 1.5, -0.1, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, 100000000, 123456789.125, float64(t.Int(-1000000, 1000000)) / 64})
		return Val{v: f, text: strconv.FormatFloat(f, 'g', -1, 64)}
	case 4:
		any := math.Float32frombits(uint32(t.U64()))
		if any != any || math.IsInf(float64(any), 0) {
			any = 1 / 3.0
		}
		f := pick(t, []float32{any, 0, 1.5, -0.1, 3.4e38, 1e-7, 16777216, float32(t.Int(-1000, 1000)) / 8})
		return Val{v: f, text: strconv.FormatFloat(float64(f), 'g', -1, 32)}
	case 5:
		b := t.Bool()
		return Val{v: b, text: strconv.FormatBool(b)}
	}
	s := g.value()
	switch {
	case t.Chance(8):
		s = pick(t, []string{`"><x/>`, `' y='1`, `</a><a>`, `<![CDATA[x]]>`, `<!-- x -->`, `<?pi x?>`, `" onload="x`, "a\n b", "<!DOCTYPE x>", "&#60;", "]]>"})
	case t.Chance(2) && len(s) < 200:
		s = strings.Repeat(s, t.Int(50, 400))
	}
	return Val{v: s, text: s}
}

// readBack compares a result with the value that was set; elements are trimmed.
func readBack(v Val, got xmldot.Result, attr bool) string {
	want := v.text
	if !attr {
		want = strings.TrimSpace(want)
	}
	if !got.Exists() {
		return "nothing is there"
	}
	if attr != (got.Type == xmldot.Attribute) {
		return fmt.Sprintf("type %v", got.Type)
	}
	if got.Type == xmldot.Array {
		return "an array is there"
	}
	switch x := v.v.(type) {
	case string:
		if got.String() != want {
			return fmt.Sprintf("%q is there", clip(got.String(), 300))
		}
	case int:
		if got.Int() != int64(x) {
			return fmt.Sprintf("%q is there, as a number %d", got.String(), got.Int())
		}
	case int64:
		if got.Int() != x {
			return fmt.Sprintf("%q is there, as a number %d", got.String(), got.Int())
		}
	case float64:
		if got.Float() != x {
			return fmt.Sprintf("%q is there, as a number %v", got.String(), got.Float())
		}
	case float32:
		if float32(got.Float()) != x {
			return fmt.Sprintf("%q is there, as a number %v", got.String(), got.Float())
		}
	case bool:
		if got.Bool() != x || got.String() != want {
			return fmt.Sprintf("%q is there, as a boolean %v", got.String(), got.Bool())
		}
	}
	return ""
}

// editPath addresses some element: names, some of them indexed.
func (g *G) editPath(d *Doc) []Seg {
	t := g.t
	n := g.target(d)
	if n == nil {
		return []Seg{{Kind: SElem, Name: g.anyName()}}
	}
	var p []Seg
	mode := t.N(3) // no indices, some, all
	for _, x := range chain(n) {
		name := g.stepName(x)
		p = append(p, Seg{Kind: SElem, Name: name})
		if mode == 2 || mode == 1 && t.Chance(40) {
			p = append(p, Seg{Kind: SIndex, Idx: g.indexOf(x, siblings(d, x), name)})
		}
	}
	return p
}

func names(ns []string) []Seg {
	var p []Seg
	for _, n := range ns {
		p = append(p, Seg{Kind: SElem, Name: n})
	}
	return p
}

// freshNames are names to create: known, unknown, prefixed, odd ones.
func (g *G) freshNames(lo, hi int) []Seg {
	t := g.t
	var p []Seg
	n := t.Int(lo, hi)
	for i := 0; i < n; i++ {
		nm := pick(t, []string{"new", "zz", "x:new", "n.1", "N-2", "_z", "a1"})
		if t.Chance(35) {
			nm = pick(t, g.names)
		}
		p = append(p, Seg{Kind: SElem, Name: nm})
	}
	return p
}

func join(a, b []Seg) []Seg { return append(append([]Seg(nil), a...), b...) }

// editDoc is a document to edit; sometimes it is empty.
func (g *G) editDoc() *Doc {
	if g.t.Chance(5) {
		return mustParse("")
	}
	return g.anyDoc()
}

// frame: out equals src outside src[a:b]; the new bytes in between are returned.
func frame(t *T, what, src, out string, a, b int) string {
	if len(out) < a+len(src)-b || out[:a] != src[:a] || out[len(out)-(len(src)-b):] != src[b:] {
		i := 0
		for i < len(src) && i < len(out) && src[i] == out[i] {
			i++
		}
		j := 0
		for j < len(src)-i && j < len(out)-i && src[len(src)-1-j] == out[len(out)-1-j] {
			j++
		}
		t.Failf("frame", "%s changes bytes outside the target (%d:%d): changed %d:%d, now %q\n in  %q\n out %q", what, a, b, i, len(src)-j, clip(out[i:len(out)-j], 300), clip(src, 1500), clip(out, 1500))
	}
	return out[a : len(out)-(len(src)-b)]
}

// textOnly: the piece is character data standing for want.
func textOnly(t *T, what, mid, want string) {
	ns, err := parseXML(mid, true)
	if err == nil {
		for _, n := range ns {
			if n.Kind != Text {
				err = errors.New("markup")
			}
		}
	}
	if err != nil {
		t.Failf("content", "%s: the new content %q is not plain text: %v", what, clip(mid, 300), err)
	}
	if decode(mid) != want {
		t.Failf("content", "%s: the new content %q stands for %q, expected %q", what, clip(mid, 300), clip(decode(mid), 300), clip(want, 300))
	}
}

// oneElement parses a piece that must be a single element.
func oneElement(t *T, what, mid string) *Node {
	ns, err := parseXML(mid, true)
	if err != nil || len(ns) != 1 || ns[0].Kind != Elem {
		t.Failf("content", "%s: %q is not a single element: %v", what, clip(mid, 400), err)
	}
	return ns[0]
}

func sameAttrs(t *T, what string, got, want []Attr) {
	a := canon([]*Node{{Kind: Elem, Name: "x", Attrs: got}}, true)
	b := canon([]*Node{{Kind: Elem, Name: "x", Attrs: want}}, true)
	if a != b {
		t.Failf("attributes", "%s: the attributes are now %s, expected %s", what, a, b)
	}
}

func withAttr(as []Attr, name, val string) []Attr {
	out := append([]Attr(nil), as...)
	for i := range out {
		if out[i].Name == name {
			out[i].Val = val
			return out
		}
	}
	return append(out, Attr{name, val})
}

func withoutAttr(as []Attr, name string) []Attr {
	var out []Attr
	for _, a := range as {
		if a.Name != name {
			out = append(out, a)
		}
	}
	return out
}

// checkSetElem: the content of n was replaced by v and nothing else happened.
func checkSetElem(t *T, what string, d *Doc, n *Node, v Val, out string) {
	if n.SelfClosing {
		mid := frame(t, what, d.Src, out, n.Start, n.End)
		e := oneElement(t, what, mid)
		if e.Name != n.Name {
			t.Failf("content", "%s: <%s> became <%s>", what, n.Name, e.Name)
		}
		sameAttrs(t, what, e.Attrs, n.Attrs)
		inner := ""
		if !e.SelfClosing {
			inner = mid[e.OpenEnd:e.CloseStart]
		}
		if v.raw {
			if inner != v.text {
				t.Failf("content", "%s: the content is %q, expected %q", what, clip(inner, 300), clip(v.text, 300))
			}
			return
		}
		textOnly(t, what, inner, v.text)
		return
	}
	mid := frame(t, what, d.Src, out, n.OpenEnd, n.CloseStart)
	if v.raw {
		if mid != v.text {
			t.Failf("content", "%s: the content is %q, expected %q", what, clip(mid, 300), clip(v.text, 300))
		}
		return
	}
	textOnly(t, what, mid, v.text)
}

// checkTag: the start tag of n now has the attributes want and nothing else happened.
func checkTag(t *T, what string, d *Doc, n *Node, want []Attr, out string) {
	var e *Node
	if n.SelfClosing {
		mid := frame(t, what, d.Src, out, n.Start, n.End)
		e = oneElement(t, what, mid)
		if len(e.Kids) > 0 {
			t.Failf("content", "%s: an empty element got content: %q", what, clip(mid, 300))
		}
		if !e.SelfClosing {
			t.Failf("content", "%s: a self-closing element became %q", what, clip(mid, 300))
		}
	} else {
		mid := frame(t, what, d.Src, out, n.Start, n.OpenEnd)
		e = oneElement(t, what, mid+"</"+n.Name+">")
		if len(e.Kids) > 0 {
			t.Failf("content", "%s: the start tag became %q", what, clip(mid, 300))
		}
	}
	if e.Name != n.Name {
		t.Failf("content", "%s: <%s> became <%s>", what, n.Name, e.Name)
	}
	sameAttrs(t, what, e.Attrs, want)
}

// chainOf is the tree of elements that creating rest with value v makes.
func chainOf(rest []Seg, v Val, attr string) *Node {
	var top, cur *Node
	for _, s := range rest {
		n := &Node{Kind: Elem, Name: s.Name}
		if cur == nil {
			top = n
		} else {
			cur.Kids = []*Node{n}
		}
		cur = n
	}
	if attr != "" {
		cur.Attrs = []Attr{{attr, v.text}}
	} else if v.raw {
		ns, err := parseXML(v.text, true)
		if err != nil {
			bug("raw value: %v", err)
		}
		cur.Kids = ns
	} else if v.text != "" {
		cur.Kids = []*Node{{Kind: Text, Text: v.text}}
	}
	return top
}

// checkInsert: new nodes were inserted into parent (nil: the document) at offset pos.
func checkInsert(t *T, what string, d *Doc, parent *Node, pos int, new *Node, out string, indented bool) {
	if parent != nil && parent.SelfClosing {
		mid := frame(t, what, d.Src, out, parent.Start, parent.End)
		e := oneElement(t, what, mid)
		if e.Name != parent.Name {
			t.Failf("content", "%s: <%s> became <%s>", what, parent.Name, e.Name)
		}
		sameAttrs(t, what, e.Attrs, parent.Attrs)
		kids := e.Kids
		if indented {
			kids = unindent(kids)
		}
		if a, b := canon(kids, true), canon([]*Node{new}, true); a != b {
			t.Failf("created", "%s created %s, expected %s", what, clip(a, 500), clip(b, 500))
		}
		return
	}
	mid := frame(t, what, d.Src, out, pos, pos)
	ns, err := parseXML(mid, true)
	if err != nil {
		t.Failf("created", "%s inserted %q: %v", what, clip(mid, 500), err)
	}
	if indented {
		ns = unindent(ns)
	}
	if a, b := canon(ns, true), canon([]*Node{new}, true); a != b {
		t.Failf("created", "%s created %s, expected %s", what, clip(a, 500), clip(b, 500))
	}
}

// unindent removes white space next to elements.
func unindent(ns []*Node) []*Node {
	if len(elemsOf(ns)) == 0 {
		return ns
	}
	var out []*Node
	for _, n := range ns {
		if n.Kind == Text && strings.Trim(n.Text, " \t\r\n") == "" {
			continue
		}
		if n.Kind == Elem {
			n.Kids = unindent(n.Kids)
		}
		out = append(out, n)
	}
	return out
}

// kinds lists the published error kinds err belongs to.
func kinds(err error) []string {
	var out []string
	if errors.Is(err, xmldot.ErrMalformedXML) {
		out = append(out, "malformed")
	}
	if errors.Is(err, xmldot.ErrInvalidPath) {
		out = append(out, "path")
	}
	if errors.Is(err, xmldot.ErrInvalidValue) {
		out = append(out, "value")
	}
	return out
}

func refused(t *T, what, src, out string, err error, want string) {
	if err == nil {
		t.Failf("accepted", "%s succeeds with %q, expected an error (%s)", what, clip(out, 400), want)
	}
	if k := kinds(err); len(k) != 1 || k[0] != want {
		t.Failf("error-kind", "%s fails with %q of kind %v, expected %s", what, err, k, want)
	}
	if out != src {
		t.Failf("not-unchanged", "%s fails but returns a different document: %q", what, clip(out, 400))
	}
}

func must(t *T, what string, err error) {
	if err != nil {
		t.Failf("error", "%s fails: %v", what, err)
	}
}

// attrFor picks an attribute name for an element (may be nil).
func (g *G) attrFor(n *Node) string {
	t := g.t
	if n != nil && len(n.Attrs) > 0 && t.Chance(60) {
		return pick(t, n.Attrs).Name
	}
	return pick(t, []string{"new", "id", "zz:q", "a.b", "_x"})
}

// fragment is well-formed element content.
func (g *G) fragment() string {
	t := g.t
	var ns []*Node
	n := t.Int(0, 3)
	for i := 0; i < n; i++ {
		switch t.W(50, 25, 25) {
		case 0:
			g.left = t.Int(1, 6)
			e := g.elem(t.Int(0, 3))
			switch t.W(940, 40, 20) {
			case 1:
				// a long chain, within the nesting limit together with the document
				for k := t.Int(5, 88-g.depth); k > 0; k-- {
					e = &Node{Kind: Elem, Name: pick(t, g.names), Kids: []*Node{e}}
				}
			case 2:
				for k := t.Int(10, 300); k > 0; k-- {
					g.left = 1
					ns = append(ns, g.elem(0))
				}
			}
			ns = append(ns, e)
		case 1:
			ns = append(ns, &Node{Kind: Text, Text: g.value()})
		case 2:
			ns = append(ns, g.noiseNode(true))
		}
	}
	// two texts in a row must not make up ]]>
	var m []*Node
	for _, x := range ns {
		if x.Kind == Text && len(m) > 0 && m[len(m)-1].Kind == Text {
			continue
		}
		m = append(m, x)
	}
	s := spell(t, dropEmptyText(m), pick(t, []int{0, 30, 60}))
	if _, err := parseXML(s, true); err != nil {
		bug("fragment %q: %v", s, err)
	}
	return s
}

func init() {
	register(&Prop{
		ID: "C08", Quick: 500000, Thorough: 5000000,
		Rule: "a set that succeeded on an existing, indexed, created or appended element or attribute",
		Run: func(t *T) {
			g := newG(t)
			d := g.editDoc()
			p := g.editPath(d)
			if t.Chance(35) {
				p = join(p, g.freshNames(1, 3))
			}
			cur, rest := resolve(Eval{}, d, p)
			attr := ""
			q := p
			if t.Chance(35) {
				attr = g.attrFor(cur)
				q = join(p, []Seg{{Kind: SAttr, Name: attr}})
			}
			v := g.scalar()
			ps := g.spellPath(q)
			noteQuery(t, d.Src, ps)
			t.Notef("value", "%T %v", v.v, v.v)
			out, err := xmldot.Set(d.Src, ps, v.v)
			what := fmt.Sprintf("Set(%q)", ps)
			if !creatable(rest) {
				refused(t, what, d.Src, out, err, "path")
				return
			}
			must(t, what, err)
			got := xmldot.Get(out, ps)
			if df := readBack(v, got, attr != ""); df != "" {
				t.Failf("read-back", "%s to %T %q: %s; document now %q", what, v.v, clip(v.text, 300), df, clip(out, 600))
			}
			switch {
			case len(rest) > 0:
				t.Label("created")
			case cur.SelfClosing:
				t.Label("self-closing")
			default:
				t.Label("existing")
			}
			if attr != "" {
				t.Label("attribute")
			}
			t.Nontrivial(d.Src, ps, v.text)
			// setting again replaces
			w := g.scalar()
			t.Notef("second value", "%T %v", w.v, w.v)
			out2, err := xmldot.Set(out, ps, w.v)
			must(t, what+" again", err)
			if df := readBack(w, xmldot.Get(out2, ps), attr != ""); df != "" {
				t.Failf("read-back", "%s again, to %T %q: %s; document now %q", what, w.v, clip(w.text, 300), df, clip(out2, 600))
			}
			// raw bytes of escaped text read back as that text
			if attr == "" && t.Chance(15) {
				s := strings.TrimSpace(g.value())
				out3, err := xmldot.Set(out, ps, []byte(attrEsc(s)))
				must(t, what+" to bytes", err)
				if got := xmldot.Get(out3, ps); got.String() != s {
					t.Failf("read-back", "%s to bytes standing for %q: %q is there", what, s, got.String())
				}
			}
		},
		Fixed: []Fixed{
			{"self-closing target", func(t *T) {
				out, err := xmldot.Set(`<r><a x="1" /><b/></r>`, "r.a", "v")
				if err != nil || out != `<r><a x="1">v</a><b/></r>` {
					t.Failf("read-back", "Set on a self-closing element gives %q, %v", out, err)
				}
			}},
		},
	})

	register(&Prop{
		ID: "C09", Quick: 800000, Thorough: 8000000,
		Rule: "a set or delete of an existing target with other content before, after or beside it",
		Run: func(t *T) {
			g := newG(t)
			g.noise = pick(t, []int{30, 10, 0})
			d := g.anyDoc()
			p := g.editPath(d)
			n, rest := resolve(Eval{}, d, p)
			if n == nil || len(rest) > 0 {
				t.Label("no target")
				return
			}
			ps := pathString(p)
			t.Note("document", d.Src)
			t.Nontrivial(d.Src, ps)
			switch t.W(30, 15, 25, 20, 10) {
			case 0:
				v := g.scalar()
				noteQuery(t, d.Src, ps)
				t.Notef("value", "%T %v", v.v, v.v)
				out, err := xmldot.Set(d.Src, ps, v.v)
				what := fmt.Sprintf("Set(%q)", ps)
				must(t, what, err)
				checkSetElem(t, what, d, n, v, out)
				t.Label("set element")
			case 1:
				f := g.fragment()
				v := Val{v: []byte(f), text: f, raw: true}
				noteQuery(t, d.Src, ps)
				t.Note("value", f)
				what := fmt.Sprintf("Set(%q, bytes)", ps)
				out, err := xmldot.Set(d.Src, ps, v.v)
				if t.Bool() {
					what = fmt.Sprintf("SetRaw(%q)", ps)
					out, err = xmldot.SetRaw(d.Src, ps, f)
				}
				must(t, what, err)
				checkSetElem(t, what, d, n, v, out)
				t.Label("set raw")
			case 2:
				a := g.attrFor(n)
				v := g.scalar()
				aps := ps + ".@" + escName(a)
				noteQuery(t, d.Src, aps)
				t.Notef("value", "%T %v", v.v, v.v)
				out, err := xmldot.Set(d.Src, aps, v.v)
				what := fmt.Sprintf("Set(%q)", aps)
				must(t, what, err)
				checkTag(t, what, d, n, withAttr(n.Attrs, a, v.text), out)
				t.Label("set attribute")
			case 3:
				noteQuery(t, d.Src, ps)
				what := fmt.Sprintf("Delete(%q)", ps)
				out, err := xmldot.Delete(d.Src, ps)
				must(t, what, err)
				if mid := frame(t, what, d.Src, out, n.Start, n.End); mid != "" {
					t.Failf("content", "%s leaves %q", what, clip(mid, 300))
				}
				t.Label("delete element")
			case 4:
				if len(n.Attrs) == 0 {
					return
				}
				a := pick(t, n.Attrs).Name
				aps := ps + ".@" + escName(a)
				noteQuery(t, d.Src, aps)
				what := fmt.Sprintf("Delete(%q)", aps)
				out, err := xmldot.Delete(d.Src, aps)
				must(t, what, err)
				checkTag(t, what, d, n, withoutAttr(n.Attrs, a), out)
				t.Label("delete attribute")
			}
		},
		Fixed: []Fixed{
			{"content after a comment with a tag in it survives", func(t *T) {
				src := `<r><!-- <a>1</a> --><b>  x </b><a>2</a><![CDATA[</r>]]></r>`
				out, err := xmldot.Set(src, "r.a", "3")
				if err != nil || out != `<r><!-- <a>1</a> --><b>  x </b><a>3</a><![CDATA[</r>]]></r>` {
					t.Failf("frame", "Set gives %q, %v", out, err)
				}
			}},
			{"character references in other attributes survive", func(t *T) {
				out, err := xmldot.Set(`<r x="a&#10;b" y='1'/>`, "r.@y", "2")
				if err != nil || xmldot.Get(out, "r.@x").String() != "a&#10;b" {
					t.Failf("frame", "Set gives %q, %v", out, err)
				}
			}},
		},
	})

	register(&Prop{
		ID: "C10", Quick: 500000, Thorough: 5000000,
		Rule: "a set on a path part of which is missing",
		Run: func(t *T) {
			g := newG(t)
			d := g.editDoc()
			var p []Seg
			if !t.Chance(15) {
				p = g.editPath(d)
			}
			p = join(p, g.freshNames(1, 4))
			bad := ""
			if t.Chance(25) {
				// something that cannot be created
				k := len(p) - t.N(min(2, len(p)))
				var s Seg
				switch t.N(6) {
				case 0:
					s = Seg{Kind: SIndex, Idx: t.Int(0, 4)}
					bad = "index"
				case 1:
					s = Seg{Kind: SStar}
					k = len(p)
					bad = "wildcard"
				case 2:
					s = Seg{Kind: SFilter, Cond: g.cond(nil)}
					bad = "filter"
				case 3:
					s = Seg{Kind: SCount}
					bad = "count"
				case 4:
					s = Seg{Kind: SText}
					bad = "text"
				case 5:
					s = Seg{Kind: SStarStar}
					k = len(p)
					bad = "recursive wildcard"
				}
				tail := append([]Seg(nil), p[k:]...)
				p = append(join(p[:k], []Seg{s}), tail...)
				if t.Chance(30) {
					p = join(p, g.freshNames(1, 2))
				}
			}
			cur, rest := resolve(Eval{}, d, p)
			attr := ""
			q := p
			if t.Chance(30) {
				attr = g.attrFor(nil)
				q = join(p, []Seg{{Kind: SAttr, Name: attr}})
			}
			if len(rest) == 0 {
				t.Label("exists")
				return
			}
			v := g.scalar()
			ps := pathString(q)
			noteQuery(t, d.Src, ps)
			t.Notef("value", "%T %v", v.v, v.v)
			if bad == "wildcard" && len(rest) > 0 && rest[0].Kind == SStar {
				t.Label("wildcard that may match")
				return
			}
			if bad == "recursive wildcard" && rest[0].Kind == SStarStar {
				t.Label("wildcard that may match")
				return
			}
			out, err := xmldot.Set(d.Src, ps, v.v)
			what := fmt.Sprintf("Set(%q)", ps)
			t.Nontrivial(d.Src, ps)
			if !creatable(rest) {
				refused(t, what, d.Src, out, err, "path")
				t.Label("refused " + bad)
				return
			}
			must(t, what, err)
			pos := len(d.Src)
			if cur != nil {
				pos = cur.CloseStart
			}
			checkInsert(t, what, d, cur, pos, chainOf(rest, v, attr), out, false)
			switch {
			case cur == nil:
				t.Label("new root")
			case cur.SelfClosing:
				t.Label("in self-closing parent")
			default:
				t.Label("in existing parent")
			}
			// raw
			if attr == "" && t.Chance(20) {
				f := g.fragment()
				t.Note("fragment", f)
				out, err := xmldot.SetRaw(d.Src, ps, f)
				what := fmt.Sprintf("SetRaw(%q)", ps)
				must(t, what, err)
				checkInsert(t, what, d, cur, pos, chainOf(rest, Val{text: f, raw: true}, ""), out, false)
			}
		},
		Fixed: []Fixed{
			{"missing index", func(t *T) {
				src := `<r><a>1</a></r>`
				out, err := xmldot.Set(src, "r.a.3", "x")
				refused(t, `Set("r.a.3")`, src, out, err, "path")
			}},
		},
	})

	register(&Prop{
		ID: "C11", Quick: 350000, Thorough: 3500000,
		Rule: "an append that succeeded, or a refused negative index, on a document with or without items of the name",
		Run:  runAppend,
	})

	register(&Prop{
		ID: "C12", Quick: 600000, Thorough: 6000000,
		Rule: "a delete of an existing node, or of a path that leads part of the way",
		Run: func(t *T) {
			g := newG(t)
			d := g.anyDoc()
			p := g.editPath(d)
			if t.Chance(25) {
				switch t.N(3) {
				case 0:
					p = join(p, g.freshNames(1, 2))
				case 1:
					p = join(p, []Seg{{Kind: SIndex, Idx: t.Int(0, 5)}})
					if len(p) > 1 && p[len(p)-2].Kind == SIndex {
						p = p[:len(p)-1]
					}
				case 2:
					p[t.N(len(p))] = Seg{Kind: SElem, Name: g.anyName()}
				}
			}
			n, rest := resolve(Eval{}, d, p)
			ps := g.spellPath(p)
			attr := ""
			if t.Chance(30) {
				attr = g.attrFor(n)
				ps += ".@" + escName(attr)
			}
			noteQuery(t, d.Src, ps)
			what := fmt.Sprintf("Delete(%q)", ps)
			out, err := xmldot.Delete(d.Src, ps)
			must(t, what, err)
			switch {
			case n == nil || len(rest) > 0:
				if out != d.Src {
					t.Failf("not-unchanged", "%s addresses nothing but changes the document to %q", what, clip(out, 600))
				}
				t.Label("missing element")
			case attr != "":
				if _, ok := n.attr(attr); ok {
					checkTag(t, what, d, n, withoutAttr(n.Attrs, attr), out)
					t.Label("attribute")
				} else {
					if out != d.Src {
						t.Failf("not-unchanged", "%s addresses nothing but changes the document to %q", what, clip(out, 600))
					}
					t.Label("missing attribute")
				}
			default:
				if mid := frame(t, what, d.Src, out, n.Start, n.End); mid != "" {
					t.Failf("content", "%s leaves %q", what, clip(mid, 300))
				}
				t.Label("element")
				if out == "" {
					t.Label("document emptied")
				}
			}
			if n != nil {
				t.Nontrivial(d.Src, ps)
			}
			o2, e2 := xmldot.Set(d.Src, ps, nil)
			if o2 != out || e2 != nil {
				t.Failf("nil-set", "Set(%q, nil) gives %q, %v; Delete gives %q", ps, clip(o2, 400), e2, clip(out, 400))
			}
		},
		Fixed: []Fixed{
			{"the only element", func(t *T) {
				out, err := xmldot.Delete("<a>1</a>", "a")
				if err != nil || out != "" {
					t.Failf("content", "Delete of the only element gives %q, %v", out, err)
				}
			}},
		},
	})

	register(&Prop{
		ID: "C25", Quick: 400000, Thorough: 4000000,
		Rule: "a modification with options other than the defaults that succeeded",
		Assume: []string{
			"no element has two attributes whose names differ only in case",
		},
		Run: runSetOptions,
	})
}

func runAppend(t *T) {
	g := newG(t)
	d := g.editDoc()
	var p []Seg
	if !t.Chance(20) {
		p = g.editPath(d)
	}
	name := pick(t, g.names)
	if t.Chance(20) {
		name = "new"
	}
	par, prest := resolve(Eval{}, d, p)
	if len(p) > 0 && len(prest) == 0 && par != nil && t.Chance(60) {
		if es := par.elems(); len(es) > 0 {
			name = g.stepName(pick(t, es))
		}
	}
	if len(p) == 0 && len(d.roots()) > 0 && t.Chance(60) {
		name = g.stepName(pick(t, d.roots()))
	}
	if t.Chance(15) {
		p = join(p, g.freshNames(1, 2))
	}
	base := join(p, []Seg{{Kind: SElem, Name: name}})
	bs := pathString(base)
	if t.Chance(12) {
		// not an append
		var ps string
		switch t.N(5) {
		case 0:
			ps = bs + "." + strconv.Itoa(-t.Int(2, 9))
		case 1:
			ps = bs + ".-1." + escName(pick(t, g.names))
		case 2:
			ps = bs + ".-1.@" + escName(g.attrFor(nil))
		case 3:
			ps = bs + ".-1.0"
		case 4:
			ps = bs + "." + strconv.Itoa(-t.Int(2, 9)) + "." + escName(name)
		}
		noteQuery(t, d.Src, ps)
		t.Nontrivial(d.Src, ps)
		t.Label("refused")
		out, err := xmldot.Set(d.Src, ps, "v")
		refused(t, fmt.Sprintf("Set(%q)", ps), d.Src, out, err, "path")
		out, err = xmldot.SetRaw(d.Src, ps, "<v/>")
		refused(t, fmt.Sprintf("SetRaw(%q)", ps), d.Src, out, err, "path")
		return
	}
	ps := bs + ".-1"
	times := 1
	if t.Chance(25) {
		times = t.Int(2, 4)
	}
	for i := 0; i < times; i++ {
		v := g.scalar()
		if t.Chance(20) {
			f := g.fragment()
			v = Val{v: []byte(f), text: f, raw: true}
		}
		noteQuery(t, d.Src, ps)
		t.Notef("value", "%T %v", v.v, v.v)
		var out string
		var err error
		what := fmt.Sprintf("Set(%q)", ps)
		if v.raw {
			what = fmt.Sprintf("SetRaw(%q)", ps)
			out, err = xmldot.SetRaw(d.Src, ps, v.text)
		} else {
			out, err = xmldot.Set(d.Src, ps, v.v)
		}
		par, rest := resolve(Eval{}, d, p)
		if !creatable(rest) {
			refused(t, what, d.Src, out, err, "path")
			t.Label("refused: missing index")
			return
		}
		must(t, what, err)
		t.Nontrivial(d.Src, ps, v.text)
		before := 0
		if len(rest) > 0 {
			// the parent is created as well
			pos := len(d.Src)
			if par != nil {
				pos = par.CloseStart
			}
			checkInsert(t, what, d, par, pos, chainOf(join(rest, base[len(base)-1:]), v, ""), out, false)
			t.Label("parent created")
		} else {
			level, pos := d.roots(), len(d.Src)
			if par != nil {
				level, pos = par.elems(), par.CloseStart
			}
			ms := (Eval{}).matching(level, name)
			before = len(ms)
			if len(ms) > 0 {
				pos = ms[len(ms)-1].End
				t.Label("after existing items")
				if pos < d.roots()[len(d.roots())-1].End && len(level) > 0 && level[len(level)-1] != ms[len(ms)-1] {
					t.Label("other siblings follow")
				}
			} else if par != nil && par.SelfClosing {
				t.Label("in self-closing parent")
			} else {
				t.Label("first item")
			}
			checkInsert(t, what, d, par, pos, chainOf(base[len(base)-1:], v, ""), out, false)
		}
		// as seen by queries
		if got := xmldot.Get(out, bs+".#"); got.Int() != int64(before+1) {
			t.Failf("count", "%s: the count was %d and is now %q", what, before, got.String())
		}
		if !v.raw {
			last := xmldot.Get(out, bs+"."+strconv.Itoa(before))
			if df := readBack(v, last, false); df != "" {
				t.Failf("read-back", "%s to %T %q: %s at the end", what, v.v, clip(v.text, 300), df)
			}
		}
		// the appending path reads nothing
		if got := xmldot.Get(out, ps); got.Exists() {
			t.Failf("read-append", "Get(%q) answers %q", ps, got.String())
		}
		for k := 0; k < before && k < 6; k++ {
			ip := bs + "." + strconv.Itoa(k)
			if df := exact(xmldot.Get(out, ip), xmldot.Get(d.Src, ip)); df != "" {
				t.Failf("earlier-item", "%s changes item %d: %s", what, k, df)
			}
		}
		d = mustParse(out)
	}
}

func runSetOptions(t *T) {
	g := newG(t)
	if t.Chance(60) {
		g.casePools()
	}
	roots := g.tree()
	noCaseTwins(roots)
	d := g.docOf(roots)
	p := g.editPath(d)
	kind := t.W(45, 20, 35) // set, append, delete
	if kind == 0 && t.Chance(40) || t.Chance(8) {
		p = join(p, g.freshNames(1, 3))
	}
	attr := ""
	cur, rest := resolve(Eval{}, d, p)
	if kind != 1 && t.Chance(30) {
		attr = g.attrFor(cur)
		noTwin := true
		if cur != nil && len(rest) == 0 {
			for _, a := range cur.Attrs {
				noTwin = noTwin && !(strings.EqualFold(a.Name, attr) && a.Name != attr)
			}
		}
		if !noTwin {
			attr = "zz"
		}
	}
	spell := func(p []Seg, attr string) string {
		s := pathString(p)
		if kind == 1 {
			s += ".-1"
		}
		if attr != "" {
			s += ".@" + escName(attr)
		}
		return s
	}
	ps := spell(p, attr)
	v := g.scalar()
	noteQuery(t, d.Src, ps)
	t.Notef("value", "%T %v", v.v, v.v)
	call := func(ps string, o *xmldot.Options) (string, error) {
		if kind == 2 {
			b, err := xmldot.DeleteBytesWithOptions([]byte(d.Src), ps, o)
			return string(b), err
		}
		return xmldot.SetWithOptions(d.Src, ps, v.v, o)
	}
	var plain string
	var perr error
	if kind == 2 {
		plain, perr = xmldot.Delete(d.Src, ps)
	} else {
		plain, perr = xmldot.Set(d.Src, ps, v.v)
	}
	// options that keep case and indentation
	for _, o := range []*xmldot.Options{nil, xmldot.DefaultOptions(), {CaseSensitive: true, PreserveWhitespace: true}, {CaseSensitive: true, Namespaces: map[string]string{"ns": "u"}}} {
		out, err := call(ps, o)
		if out != plain || (err == nil) != (perr == nil) {
			t.Failf("options", "%q with options %+v gives %q, %v; the plain call %q, %v", ps, o, clip(out, 500), err, clip(plain, 500), perr)
		}
	}
	// indentation
	ind := pick(t, []string{"  ", "\t", " ", "    "})
	out, err := call(ps, &xmldot.Options{CaseSensitive: true, Indent: ind})
	if (err == nil) != (perr == nil) {
		t.Failf("indent", "%q with indentation fails differently: %v, %v", ps, err, perr)
	}
	what := fmt.Sprintf("%s %q with indentation", []string{"set", "append", "delete"}[kind], ps)
	if perr == nil {
		t.Nontrivial(d.Src, ps, ind)
		checkEdit(t, what, d, Eval{}, kind, p, attr, v, out, true)
		checkEdit(t, strings.TrimSuffix(what, " with indentation"), d, Eval{}, kind, p, attr, v, plain, false)
		if out != plain {
			t.Label("indentation shows")
		}
	} else if out != d.Src {
		t.Failf("not-unchanged", "%s fails but changes the document", what)
	}
	// ignoring case
	fp := g.flipPath(p)
	fattr := g.flip(attr)
	fs := spell(fp, fattr)
	t.Note("path in other case", fs)
	o := &xmldot.Options{CaseSensitive: false}
	indented := t.Chance(25)
	if indented {
		o.Indent = ind
	}
	out, err = call(fs, o)
	what = fmt.Sprintf("%s %q ignoring case", []string{"set", "append", "delete"}[kind], fs)
	e := Eval{fold: true}
	cur, rest = resolve(e, d, fp)
	if kind == 1 {
		_, rest = resolve(e, d, fp[:len(fp)-1])
		if fp[len(fp)-1].Kind != SElem {
			// item.0.-1 and the like
			if err == nil {
				t.Failf("accepted", "%s succeeds", what)
			}
			return
		}
	}
	if kind != 2 && !creatable(rest) {
		refused(t, what, d.Src, out, err, "path")
		return
	}
	must(t, what, err)
	checkEdit(t, what, d, e, kind, fp, fattr, v, out, indented)
	if kind == 0 {
		if df := readBack(v, xmldot.GetWithOptions(out, fs, ci), attr != ""); df != "" {
			t.Failf("read-back", "%s: %s", what, df)
		}
	}
	if c2, r2 := resolve(Eval{}, d, fp); c2 != cur || len(r2) != len(rest) {
		t.Label("differs from exact case")
	}
	t.Label([]string{"set", "append", "delete"}[kind])
}

// checkEdit checks a whole modification against the model. Names created while ignoring case
// may be lower-cased.
func checkEdit(t *T, what string, d *Doc, e Eval, kind int, p []Seg, attr string, v Val, out string, indented bool) {
	cur, rest := resolve(e, d, p)
	fold := func(rest []Seg) []Seg {
		if !e.fold {
			return rest
		}
		q := append([]Seg(nil), rest...)
		for i := range q {
			q[i].Name = strings.ToLower(q[i].Name)
		}
		return q
	}
	oldAttr := func(n *Node) (string, bool) {
		for _, a := range n.Attrs {
			if e.eqName(a.Name, attr) {
				return a.Name, true
			}
		}
		if e.fold {
			return strings.ToLower(attr), false
		}
		return attr, false
	}
	switch kind {
	case 0:
		switch {
		case len(rest) > 0:
			pos := len(d.Src)
			if cur != nil {
				pos = cur.CloseStart
			}
			a := attr
			if e.fold {
				a = strings.ToLower(attr)
			}
			checkInsert(t, what, d, cur, pos, chainOf(fold(rest), v, a), out, indented)
		case attr != "":
			a, _ := oldAttr(cur)
			checkTag(t, what, d, cur, withAttr(cur.Attrs, a, v.text), out)
		default:
			checkSetElem(t, what, d, cur, v, out)
		}
	case 1:
		par, rest := resolve(e, d, p[:len(p)-1])
		last := p[len(p)-1:]
		if len(rest) > 0 {
			pos := len(d.Src)
			if par != nil {
				pos = par.CloseStart
			}
			checkInsert(t, what, d, par, pos, chainOf(fold(join(rest, last)), v, ""), out, indented)
			return
		}
		level, pos := d.roots(), len(d.Src)
		if par != nil {
			level, pos = par.elems(), par.CloseStart
		}
		if ms := e.matching(level, last[0].Name); len(ms) > 0 {
			pos = ms[len(ms)-1].End
		}
		checkInsert(t, what, d, par, pos, chainOf(fold(last), v, ""), out, indented)
	case 2:
		switch {
		case len(rest) > 0 || cur == nil:
			if out != d.Src {
				t.Failf("not-unchanged", "%s addresses nothing but changes the document to %q", what, clip(out, 500))
			}
		case attr != "":
			a, ok := oldAttr(cur)
			if !ok {
				if out != d.Src {
					t.Failf("not-unchanged", "%s addresses nothing but changes the document to %q", what, clip(out, 500))
				}
				return
			}
			checkTag(t, what, d, cur, withoutAttr(cur.Attrs, a), out)
		default:
			if mid := frame(t, what, d.Src, out, cur.Start, cur.End); mid != "" {
				t.Failf("content", "%s leaves %q", what, clip(mid, 300))
			}
		}
	}
}
