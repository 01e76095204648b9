package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/netascode/xmldot"
)

// near draws a number around a limit.
func near(t *T, limit, below, above int) int { return t.Int(limit-below, limit+above) }

func init() {
	register(&Prop{
		ID: "C19", Quick: 10000, Thorough: 100000,
		Rule: "a size within a few units of a published limit",
		Run: func(t *T) {
			g := newG(t)
			switch t.W(12, 12, 4, 0, 12, 12, 12, 12, 12) {
			case 0:
				limitAttrs(t, g)
			case 1:
				limitSteps(t, g)
			case 2:
				limitResults(t, g)
			case 4:
				limitFilter(t, g)
			case 5:
				limitDepth(t, g)
			case 6:
				limitMods(t, g)
			case 7:
				limitPrefix(t, g)
			case 8:
				limitField(t, g)
			}
		},
		Fixed: []Fixed{
			{"document size", limitDocument},
			{"value size", limitValue},
			{"token size", limitToken},
			{"search effort", limitSearch},
			{"published values", limitValues},
		},
	})
}

func limitAttrs(t *T, g *G) {
	n := near(t, xmldot.MaxAttributes, 2, 3)
	if t.Chance(10) {
		n = t.Int(150, 400)
	}
	var b strings.Builder
	for i := range n {
		q := pick(t, []string{`"`, "'"})
		if t.Chance(3) {
			fmt.Fprintf(&b, " z%d=%s/> > x>%s", i, q, q)
			continue
		}
		fmt.Fprintf(&b, "%sa%d=%s%d%s", pick(t, []string{" ", "\n", "  "}), i, q, i, q)
	}
	// count and remember what was written
	var as []Attr
	for _, f := range attrRE.FindAllStringSubmatch(b.String(), -1) {
		as = append(as, Attr{f[1], f[2] + f[3]})
	}
	if len(as) != n {
		bug("attributes: %d and %d", len(as), n)
	}
	tag := "<e" + b.String()
	self := t.Chance(30)
	body := ""
	if self {
		tag += pick(t, []string{"/>", " />", "\n/>"})
	} else {
		body = "text<c>k</c>"
		tag += pick(t, []string{">", " >"}) + body + "</e>"
	}
	src := "<r><before>1</before>" + tag + "<after>2</after></r>"
	t.Note("document", src)
	t.Nontrivial(src)
	t.Labelf("attributes %s", side(n, xmldot.MaxAttributes))
	if got := xmldot.Valid(src); got != (n <= xmldot.MaxAttributes) {
		t.Failf("limit", "a document with %d attributes on an element: Valid says %v", n, got)
	}
	for _, i := range []int{0, 1, 50, 97, 98, 99, 100, 101, n - 1} {
		if i >= n {
			continue
		}
		for _, o := range []*xmldot.Options{nil, ci} {
			got := xmldot.GetWithOptions(src, "r.e.@"+as[i].Name, o)
			if i < xmldot.MaxAttributes && got.String() != as[i].Val {
				t.Failf("limit", "attribute %d of %d reads %q, expected %q", i+1, n, got.String(), as[i].Val)
			}
			if i >= xmldot.MaxAttributes && got.Exists() {
				t.Failf("limit", "attribute %d of %d (beyond the limit) reads %q", i+1, n, got.String())
			}
		}
	}
	want := map[string]string{"r.before": "1", "r.after": "2", "r.after.#": "1"}
	if !self {
		want["r.e.c"] = "k"
		want["r.e.%"] = "text"
		want["r.e"] = "textk"
	} else {
		want["r.e"] = ""
	}
	for p, w := range want {
		if got := xmldot.Get(src, p).String(); got != w {
			t.Failf("misread", "with %d attributes on an element, %q reads %q, expected %q", n, p, got, w)
		}
	}
	out, err := xmldot.Set(src, "r.e.@new", "v")
	switch {
	case n < xmldot.MaxAttributes:
		must(t, "setting one more attribute", err)
		if xmldot.Get(out, "r.e.@new").String() != "v" || !xmldot.Valid(out) {
			t.Failf("limit", "attribute %d does not read back", n+1)
		}
	case n == xmldot.MaxAttributes:
		refused(t, "setting one attribute too many", src, out, err, "value")
		out, err = xmldot.Set(src, "r.e.@"+as[n-1].Name, "v")
		must(t, "setting the last attribute", err)
		if xmldot.Get(out, "r.e.@"+as[n-1].Name).String() != "v" {
			// rewritten tags are sorted, so it may have moved but must be within the limit
			t.Failf("limit", "the last attribute does not read back")
		}
	default:
		refused(t, "setting an attribute on a tag with too many", src, out, err, "malformed")
	}
}

func side(n, limit int) string {
	switch {
	case n < limit:
		return "below"
	case n == limit:
		return "at"
	}
	return "above"
}

func limitSteps(t *T, g *G) {
	n := near(t, xmldot.MaxPathSegments, 2, 3)
	t.Labelf("path steps %s", side(n, xmldot.MaxPathSegments))
	var steps []string
	var open, cls string
	// steps: names, some with an index, perhaps an attribute or text at the end
	idx := t.Chance(50)
	last := t.N(4) // name, attribute, text, count
	for len(steps) < n-1 {
		nm := pick(t, []string{"a", "b", "x:c", "d.e"})
		open += "<" + nm + " k=\"v\">"
		cls = "</" + nm + ">" + cls
		steps = append(steps, escName(nm))
		if idx && len(steps) < n-1 && t.Chance(50) {
			steps = append(steps, "0")
		}
	}
	want := "leaf"
	switch last {
	case 0:
		open += "<z>"
		cls = "</z>" + cls
		steps = append(steps, "z")
	case 1:
		steps = append(steps, "@k")
		want = "v"
	case 2:
		steps = append(steps, "%")
	case 3:
		if idx {
			steps = append(steps, "0")
			if steps[n-2] == "0" {
				steps[n-1] = "%"
			}
		} else {
			open += "<z>"
			cls = "</z>" + cls
			steps = append(steps, "z")
		}
	}
	src := open + "leaf" + cls
	ps := strings.Join(steps, ".")
	noteQuery(t, src, ps)
	t.Nontrivial(src, ps)
	for _, o := range []*xmldot.Options{nil, ci} {
		got := xmldot.GetWithOptions(src, ps, o)
		if n <= xmldot.MaxPathSegments && got.String() != want {
			t.Failf("limit", "a path of %d steps reads %q", n, got.String())
		}
		if n > xmldot.MaxPathSegments && got.Exists() {
			t.Failf("limit", "a path of %d steps is answered: %q", n, got.String())
		}
	}
	// creation
	var fresh []string
	for len(fresh) < n {
		fresh = append(fresh, "n"+strconv.Itoa(len(fresh)%7))
	}
	if t.Chance(30) {
		fresh[n-1] = "@k"
	}
	fp := strings.Join(fresh, ".")
	base := pick(t, []string{"", "<r/>", "<n0/>", "<n0><n1>x</n1></n0>"})
	out, err := xmldot.Set(base, fp, "v")
	if n <= xmldot.MaxPathSegments {
		must(t, fmt.Sprintf("creating a path of %d steps", n), err)
		if xmldot.Get(out, fp).String() != "v" || !xmldot.Valid(out) {
			t.Failf("limit", "a created path of %d steps does not read back", n)
		}
		out2, err := xmldot.Delete(out, fp)
		must(t, "deleting it", err)
		if xmldot.Get(out2, fp).Exists() {
			t.Failf("limit", "a path of %d steps is not deleted", n)
		}
		return
	}
	refused(t, fmt.Sprintf("Set with a path of %d steps", n), base, out, err, "path")
	out, err = xmldot.Delete(src, ps)
	if xmldot.Valid(src) {
		refused(t, fmt.Sprintf("Delete with a path of %d steps", n), src, out, err, "path")
	}
}

func limitResults(t *T, g *G) {
	const lim = xmldot.MaxWildcardResults
	n := near(t, lim, 2, 3)
	if t.Chance(10) {
		n = t.Int(1500, 2500)
	}
	t.Labelf("results %s", side(n, lim))
	if t.Bool() {
		limitNested(t)
		return
	}
	root := t.Chance(30)
	var b strings.Builder
	for i := range n {
		fmt.Fprintf(&b, "<i k=\"%d\">t<v>%d</v></i>", i, i)
	}
	src, pre := b.String(), ""
	if !root {
		src, pre = "<r>"+src+"</r>", "r."
	}
	t.Notef("document", "%d items, in a root: %v", n, !root)
	t.Nontrivial(strconv.Itoa(n), fmt.Sprint(root), strconv.Itoa(t.N(1<<20)))
	have := min(n, lim)
	arr := func(p string, o *xmldot.Options, item func(i int) string) {
		got := xmldot.GetWithOptions(src, p, o)
		if got.Type != xmldot.Array || len(got.Results) != have {
			t.Failf("limit", "%q over %d items gives %v with %d results, expected %d", p, n, got.Type, len(got.Results), have)
		}
		for _, i := range []int{0, have / 2, have - 1} {
			if got.Results[i].String() != item(i) {
				t.Failf("misread", "%q over %d items: result %d is %q", p, n, i, got.Results[i].String())
			}
		}
	}
	num := strconv.Itoa
	whole := func(i int) string { return "t" + num(i) }
	for _, o := range []*xmldot.Options{nil, ci} {
		arr(pre+"i.#.v", o, num)
		arr(pre+"i.#.@k", o, num)
		arr(pre+"i.#.%", o, func(int) string { return "t" })
		arr(pre+"i.#(@k>=0)#", o, whole)
		arr(pre+"i.#(@k>=0)#.v", o, num)
		arr("**.v", o, num)
		arr("**.i", o, whole)
		arr("**.i.@k", o, num)
		if !root {
			arr("r.*", o, whole)
			arr("r.*.v", o, num)
			arr("r.*.@k", o, num)
		} else {
			arr("*.v", o, num)
		}
		if got := xmldot.GetWithOptions(src, pre+"i.#", o).Int(); got != int64(have) {
			t.Failf("limit", "the count of %d items is %d, expected %d", n, got, have)
		}
		for _, i := range []int{0, lim - 2, lim - 1, lim, lim + 1} {
			got := xmldot.GetWithOptions(src, pre+"i."+num(i)+".v", o)
			switch {
			case i < have && got.String() != num(i):
				t.Failf("limit", "item %d of %d reads %q", i, n, got.String())
			case i >= have && got.Exists():
				t.Failf("limit", "item %d of %d items (cap %d) reads %q", i, n, lim, got.String())
			}
		}
		// a single match at the far end is still found
		if got := xmldot.GetWithOptions(src, pre+"i.#(@k=="+num(have-1)+").v", o); got.String() != num(have-1) {
			t.Failf("limit", "the filter for item %d of %d reads %q", have-1, n, got.String())
		}
	}
	if !root {
		// maps list as many children as arrays
		for _, o := range []*xmldot.Options{nil, ci} {
			m := xmldot.Get(src, "r").MapWithOptions(o)
			if got := m["i"]; len(m) != 1 || len(got.Results) != have || got.Results[have-1].String() != whole(have-1) {
				t.Failf("limit", "the map of %d items has %d keys and %d items, expected %d", n, len(m), len(got.Results), have)
			}
		}
	}
	// modifications are not capped
	k := n - 1
	out, err := xmldot.Set(src, pre+"i."+num(k)+".v", "new")
	must(t, "Set on the last item", err)
	if !strings.Contains(out, fmt.Sprintf("<i k=\"%d\">t<v>new</v></i>", k)) || len(out) != len(src)+3-len(num(k)) {
		t.Failf("limit", "Set on item %d of %d changes something else", k, n)
	}
}

// limitNested: results that multiply over several steps are capped as well, and the ones returned are the first.
func limitNested(t *T) {
	const lim = xmldot.MaxWildcardResults
	as, bs, cs := t.Int(1, 45), t.Int(1, 45), t.Int(1, 3)
	if t.Chance(30) {
		// few groups of many
		as, bs, cs = t.Int(1, 3), t.Int(330, 510), 1
		if t.Bool() {
			as, bs = bs, as
		}
	} else if t.Chance(25) {
		// as many as the cap, or one more or less
		near := pick(t, [][2]int{{7, 143}, {143, 7}, {13, 77}, {91, 11}, {10, 100}, {40, 25}, {27, 37}, {333, 3}})
		as, bs, cs = near[0], near[1], 1
	}
	var b strings.Builder
	var ta, tb, tc []string // texts of the elements of each level
	n := 0
	b.WriteString("<r>")
	for range as {
		var sa string
		b.WriteString("<a>")
		for range bs {
			var sb string
			b.WriteString("<b>")
			for range cs {
				n++
				c := strconv.Itoa(n) + ";"
				fmt.Fprintf(&b, "<c k='%s'>%s</c>", c, c)
				sb += c
				tc = append(tc, c)
			}
			b.WriteString("</b>")
			sa += sb
			tb = append(tb, sb)
		}
		b.WriteString("</a>")
		ta = append(ta, sa)
	}
	b.WriteString("</r>")
	src := b.String()
	t.Notef("document", "%d times %d times %d elements", as, bs, cs)
	t.Nontrivial("nested", fmt.Sprint(as, bs, cs))
	firsts := func(all []string, per int) []string {
		var out []string
		for i := 0; i < len(all); i += per {
			out = append(out, all[i])
		}
		return out
	}
	for _, x := range []struct {
		p    string
		want []string
	}{
		{"r.*", ta}, {"r.*.*", tb}, {"r.*.*.*", tc}, {"r.*.*.c", firsts(tc, cs)}, {"r.*.*.c.@k", firsts(tc, cs)},
		{"r.*.b", firsts(tb, bs)}, {"r.*.b.#.c", nil}, {"r.*.b.#(c)#", tb}, {"r.a.#(b)#", ta}, {"r.a.#(b)#.*", tb},
		{"r.a.#(b)#.b", firsts(tb, bs)}, {"r.a.#(b)#.b.#(c)#.c", firsts(tc, cs)}, {"r.a.#(b)#.b.#.c", nil}, {"r.*.b.#(c)#.c", firsts(tc, cs)},
		{"**.a.b.#.c", nil}, {"**.c", nil}, {"**.b.c", nil}, {"**.b.*", nil}, {"**.a.*", nil}, {"r.*.*.c|@sort", nil}, {"r.*.*.*|@reverse", nil}, {"r.*.*.*|@flatten", nil},
	} {
		for _, o := range []*xmldot.Options{nil, ci, {CaseSensitive: true, Indent: " "}} {
			got := xmldot.GetWithOptions(src, x.p, o)
			if len(got.Results) > lim {
				t.Failf("limit", "%q with options %+v gives %d results", x.p, o, len(got.Results))
			}
			if x.want == nil {
				continue
			}
			if items, have := got.Array(), min(len(x.want), lim); len(items) != have {
				t.Failf("limit", "%q with options %+v gives %d results, expected %d", x.p, o, len(items), have)
			} else {
				for i := range items {
					if items[i].String() != x.want[i] {
						t.Failf("misread", "%q with options %+v: result %d of %d is %q, expected %q", x.p, o, i, have, clip(items[i].String(), 100), clip(x.want[i], 100))
					}
				}
			}
		}
	}
	t.Label("results that multiply")
}

func limitFilter(t *T, g *G) {
	n := near(t, xmldot.MaxFilterExpressionLength, 3, 4)
	t.Labelf("filter length %s", side(n, xmldot.MaxFilterExpressionLength))
	q := pick(t, []string{"'", `"`, ""})
	field := pick(t, []string{"f", "@f", "sub.f"})
	op := pick(t, []string{"==", "!="})
	v := strings.Repeat(pick(t, []string{"v", "w1", "x.y"}), n)
	v = v[:n-len(field)-len(op)-2*len(q)]
	expr := field + op + q + v + q
	// white space at the ends counts like any other character
	if t.Chance(40) {
		v = v[:t.Int(1, len(v))]
		expr = field + op + q + v + q
		lead := t.Int(0, n-len(expr))
		expr = strings.Repeat(" ", lead) + expr + strings.Repeat(" ", n-len(expr)-lead)
		t.Label("padded condition")
	}
	if len(expr) != n {
		bug("filter length")
	}
	item := func(v string) string {
		switch field {
		case "@f":
			return "<i f=\"" + v + "\"><k>1</k></i>"
		case "sub.f":
			return "<i><sub><f>" + v + "</f></sub><k>1</k></i>"
		}
		return "<i><f>" + v + "</f><k>1</k></i>"
	}
	val := v
	if op == "!=" {
		val = "other"
	}
	src := "<r>" + item(val) + "</r>"
	all := t.Bool()
	ps := "r.i.#(" + expr + ")"
	if all {
		ps += "#"
	}
	ps += ".k"
	noteQuery(t, src, ps)
	t.Nontrivial(src, ps)
	for _, o := range []*xmldot.Options{nil, ci} {
		got := xmldot.GetWithOptions(src, ps, o)
		works := got.String() == "1" || len(got.Results) == 1 && got.Results[0].String() == "1"
		if n <= xmldot.MaxFilterExpressionLength && !works {
			t.Failf("limit", "a condition of %d bytes gives %v %q", n, got.Type, got.String())
		}
		if n > xmldot.MaxFilterExpressionLength && (got.Exists() && !emptyArr(got)) {
			t.Failf("limit", "a condition of %d bytes is answered: %v %q", n, got.Type, got.String())
		}
	}
}

func limitDepth(t *T, g *G) {
	n := near(t, xmldot.MaxNestingDepth, 2, 3)
	t.Labelf("nesting %s", side(n, xmldot.MaxNestingDepth))
	var open, cls string
	for i := range n - 1 {
		nm := pick(t, []string{"a", "b", "c:d"})
		open += "<" + nm
		if t.Chance(20) {
			open += ` k="<"`[:5] + `"`
		}
		open += ">"
		if t.Chance(20) {
			open += pick(t, []string{"<s/>", "text", "<s>x</s>", "<!-- <a> -->"})
		}
		cls = "</" + nm + ">" + cls
		_ = i
	}
	leaf := pick(t, []string{"<z/>", "<z></z>", "<z>x</z>", `<z k="1"/>`})
	src := open + leaf + cls
	if t.Chance(30) {
		src = "<first/>" + src
	}
	t.Note("document", src)
	t.Nontrivial(src)
	e := verdict(t, src)
	if (e == nil) != (n <= xmldot.MaxNestingDepth) {
		t.Failf("limit", "%d nested elements: %v", n, e)
	}
	if n <= xmldot.MaxNestingDepth {
		// all of it can be searched and changed
		if got := xmldot.Get(src, "**.z"); !got.Exists() {
			t.Failf("limit", "the element at depth %d is not found", n)
		}
	}
}

func limitMods(t *T, g *G) {
	n := near(t, xmldot.MaxModifierChainDepth, 2, 3)
	t.Labelf("modifiers %s", side(n, xmldot.MaxModifierChainDepth))
	src := "<r><i>1</i><i>2</i><i>3</i></r>"
	base := pick(t, []string{"r.*", "r.i.#(%>0)#", "r.i.#.%", "**.i"})
	in := xmldot.Get(src, base)
	rev := 0
	ps := base
	for range n {
		m := pick(t, []string{"reverse", "flatten"})
		if m == "reverse" {
			rev++
		}
		ps += "|@" + m
	}
	noteQuery(t, src, ps)
	t.Nontrivial(src, ps)
	for _, o := range []*xmldot.Options{nil, ci} {
		got := xmldot.GetWithOptions(src, ps, o)
		if n > xmldot.MaxModifierChainDepth {
			if got.Exists() {
				t.Failf("limit", "a chain of %d modifiers is answered: %q", n, got.String())
			}
			continue
		}
		if len(got.Results) != len(in.Results) {
			t.Failf("limit", "a chain of %d modifiers gives %v with %d results", n, got.Type, len(got.Results))
		}
		for i := range in.Results {
			j := i
			if rev%2 == 1 {
				j = len(in.Results) - 1 - i
			}
			if got.Results[i].String() != in.Results[j].String() {
				t.Failf("limit", "a chain of %d modifiers gives %q", n, got.String())
			}
		}
	}
}

func limitPrefix(t *T, g *G) {
	n := near(t, xmldot.MaxNamespacePrefixLength, 2, 3)
	t.Labelf("prefix length %s", side(n, xmldot.MaxNamespacePrefixLength))
	p := strings.Repeat(pick(t, []string{"p", "pq", "x-1."}), n)[:n]
	full := p + ":a"
	src := "<r><" + full + ">v</" + full + "><b>w</b></r>"
	t.Note("document", src)
	t.Nontrivial(src)
	for _, o := range []*xmldot.Options{nil, ci} {
		if got := xmldot.GetWithOptions(src, "r."+escName(full), o); got.String() != "v" {
			t.Failf("limit", "the full name with a prefix of %d bytes reads %q", n, got.String())
		}
		got := xmldot.GetWithOptions(src, "r.a", o)
		if n <= xmldot.MaxNamespacePrefixLength && got.String() != "v" {
			t.Failf("limit", "the local name below a prefix of %d bytes reads %q", n, got.String())
		}
		if n > xmldot.MaxNamespacePrefixLength && got.Exists() {
			t.Failf("limit", "the local name below a prefix of %d bytes (beyond the limit) reads %q", n, got.String())
		}
		if got := xmldot.GetWithOptions(src, "r.b", o); got.String() != "w" {
			t.Failf("misread", "the element behind a prefix of %d bytes reads %q", n, got.String())
		}
	}
}

func limitField(t *T, g *G) {
	n := near(t, xmldot.MaxFieldNameLength, 2, 3)
	t.Labelf("field name %s", side(n, xmldot.MaxFieldNameLength))
	attr := t.Bool()
	f := strings.Repeat(pick(t, []string{"f", "fg", "h-1"}), n)[:n]
	var src, ps string
	if attr {
		f = f[:n-1]
		src = "<r><i " + f + "='1'/><i " + f + "='2'/></r>"
		ps = "r.i.#.@" + f
	} else {
		src = "<r><i><" + f + ">1</" + f + "></i><i><" + f + ">2</" + f + "></i></r>"
		ps = "r.i.#." + f
	}
	noteQuery(t, src, ps)
	t.Nontrivial(src, ps)
	for _, o := range []*xmldot.Options{nil, ci} {
		got := xmldot.GetWithOptions(src, ps, o)
		works := len(got.Results) == 2 && got.Results[0].String() == "1" && got.Results[1].String() == "2"
		if n <= xmldot.MaxFieldNameLength && !works {
			t.Failf("limit", "a field name of %d bytes gives %v %q", n, got.Type, got.String())
		}
		if n > xmldot.MaxFieldNameLength && len(got.Results) > 0 {
			t.Failf("limit", "a field name of %d bytes is answered: %q", n, got.String())
		}
	}
}

// sized is a document of exactly n bytes.
func sized(n int) string {
	const open, cls = "<r><a>1</a><t>", "</t><b>2</b></r>"
	return open + strings.Repeat("x", n-len(open)-len(cls)) + cls
}

func limitDocument(t *T) {
	const lim = xmldot.MaxDocumentSize
	for _, n := range []int{lim - 1, lim, lim + 1} {
		src := sized(n)
		t.Label("document size " + side(n, lim))
		ok := n <= lim
		for _, p := range []string{"r.a", "r.b"} {
			want := map[string]string{"r.a": "1", "r.b": "2"}[p]
			for what, got := range map[string]xmldot.Result{"Get": xmldot.Get(src, p), "GetBytes": xmldot.GetBytes([]byte(src), p), "GetWithOptions": xmldot.GetWithOptions(src, p, ci), "GetMany": xmldot.GetMany(src, p)[0]} {
				if ok && got.String() != want || !ok && got.Exists() {
					t.Failf("limit", "%s in a document of %d bytes reads %q", what, n, got.String())
				}
			}
		}
		if (xmldot.ValidateWithError(src) == nil) != ok || xmldot.Valid(src) != ok {
			t.Failf("limit", "validity of a document of %d bytes: %v", n, xmldot.ValidateWithError(src))
		}
		if !ok {
			out, err := xmldot.Set(src, "r.a", "1")
			refused(t, "Set in an oversized document", src, out, err, "malformed")
			out, err = xmldot.SetWithOptions(src, "r.a", "1", ci)
			refused(t, "SetWithOptions in an oversized document", src, out, err, "malformed")
			out, err = xmldot.Delete(src, "r.a")
			refused(t, "Delete in an oversized document", src, out, err, "malformed")
			out, err = xmldot.SetMany(src, []string{"r.a"}, []any{"1"})
			refused(t, "SetMany in an oversized document", src, out, err, "malformed")
			out, err = xmldot.DeleteMany(src, "r.a")
			refused(t, "DeleteMany in an oversized document", src, out, err, "malformed")
			continue
		}
		// the result may reach the limit but not exceed it
		room := lim - n
		for _, c := range []struct {
			path, val string
			grow      int
		}{
			{"r.a", strings.Repeat("v", 1+room), room},
			{"r.a", strings.Repeat("v", 2+room), room + 1},
			{"r.a.-1", "", 7},
			{"r.new", "", 11},
			{"r.@k", "", 5},
			{"q", "", 7},
			{"r.q.@k", "", 12},
			{"r.a", "", -1},
		} {
			out, err := xmldot.Set(src, c.path, c.val)
			if n+c.grow > lim {
				if err == nil {
					t.Failf("limit", "Set(%q) returns a document of %d bytes", c.path, len(out))
				}
				if out != src {
					t.Failf("not-unchanged", "Set(%q) fails but changes the document", c.path)
				}
				if len(kinds(err)) != 1 {
					t.Failf("error-kind", "Set(%q) beyond the size limit fails with %v", c.path, err)
				}
				continue
			}
			must(t, fmt.Sprintf("Set(%q) in a document of %d bytes", c.path, n), err)
			if len(out) != n+c.grow {
				t.Failf("limit", "Set(%q) in a document of %d bytes gives %d bytes", c.path, n, len(out))
			}
		}
		out, err := xmldot.SetRaw(src, "r.a", "<x/>")
		if err == nil && len(out) > lim {
			t.Failf("limit", "SetRaw returns a document of %d bytes", len(out))
		}
		for _, c := range []struct {
			what string
			f    func() (string, error)
			grow int
		}{
			{"Delete", func() (string, error) { return xmldot.Delete(src, "r.a") }, -8},
			{"DeleteMany", func() (string, error) { return xmldot.DeleteMany(src, "r.a") }, -8},
			{"DeleteBytesWithOptions", func() (string, error) {
				b, err := xmldot.DeleteBytesWithOptions([]byte(src), "r.a", ci)
				return string(b), err
			}, -8},
			{"Set with nil", func() (string, error) { return xmldot.Set(src, "r.a", nil) }, -8},
			{"SetWithOptions", func() (string, error) { return xmldot.SetWithOptions(src, "R.A", "x", ci) }, 0},
			{"SetMany", func() (string, error) { return xmldot.SetMany(src, []string{"r.a", "r.b"}, []any{"x", "y"}) }, 0},
			{"SetRaw", func() (string, error) { return xmldot.SetRaw(src, "r.a", "x") }, 0},
		} {
			out, err := c.f()
			must(t, fmt.Sprintf("%s in a document of %d bytes", c.what, n), err)
			if len(out) != n+c.grow {
				t.Failf("limit", "%s in a document of %d bytes gives %d bytes", c.what, n, len(out))
			}
		}
	}
	// every way to grow a document, up to the limit and one byte beyond it
	for _, c := range []struct {
		path string
		raw  bool
		grow int
	}{
		{"r.a.-1", false, 7}, {"r.-1", false, 7}, {"q.-1", false, 7}, {"r.new", false, 11}, {"r.@k", false, 5},
		{"q", false, 7}, {"r.q.@k", false, 12}, {"r.q.-1", false, 7}, {"q.w.@k", false, 19}, {"r.t.e", false, 7}, {"r.b", true, 3},
	} {
		for n := lim - c.grow; n <= lim-c.grow+1; n++ {
			src := sized(n)
			var out string
			var err error
			if c.raw {
				out, err = xmldot.SetRaw(src, c.path, "<w/>")
			} else {
				out, err = xmldot.Set(src, c.path, "")
			}
			if n+c.grow > lim {
				refusedAs(t, fmt.Sprintf("Set(%q) one byte beyond the limit", c.path), src, out, err)
				continue
			}
			must(t, fmt.Sprintf("Set(%q) up to the limit", c.path), err)
			if len(out) != lim {
				t.Failf("limit", "Set(%q) in a document of %d bytes gives %d bytes, expected %d", c.path, n, len(out), lim)
			}
		}
	}
	t.Nontrivial("document size")
}

// refusedAs checks that a call failed, with one kind of error and the document as it was.
func refusedAs(t *T, what, src, out string, err error) {
	if err == nil {
		t.Failf("limit", "%s returns a document of %d bytes", what, len(out))
	}
	if out != src {
		t.Failf("not-unchanged", "%s fails but changes the document", what)
	}
	if len(kinds(err)) != 1 {
		t.Failf("error-kind", "%s fails with %v", what, err)
	}
}

func limitValue(t *T) {
	const lim = xmldot.MaxValueSize
	for _, src := range []string{"<r><a/></r>", "<r><a>x</a></r>", ""} {
		for _, p := range []string{"r.a", "r.new", "r.a.-1"} {
			for _, n := range []int{lim - 1, lim, lim + 1} {
				t.Label("value size " + side(n, lim))
				v := strings.Repeat("v", n)
				for _, val := range []any{v, []byte(v)} {
					out, err := xmldot.Set(src, p, val)
					if n > lim {
						refused(t, fmt.Sprintf("Set(%q) to %d bytes", p, n), src, out, err, "value")
						continue
					}
					must(t, fmt.Sprintf("Set(%q) to %d bytes", p, n), err)
					if !strings.Contains(out, v) {
						t.Failf("limit", "Set(%q) to %d bytes loses the value", p, n)
					}
				}
			}
		}
		// the limit is on what is written
		v := strings.Repeat("&", lim/5)
		out, err := xmldot.Set(src, "r.a", v)
		must(t, "Set to ampersands", err)
		if xmldot.Get(out, "r.a").String() != v {
			t.Failf("limit", "a value of ampersands does not read back")
		}
		out, err = xmldot.Set(src, "r.a", v+"&&")
		refused(t, "Set to more ampersands than fit", src, out, err, "value")
	}
	t.Nontrivial("value size")
}

func limitToken(t *T) {
	const lim = xmldot.MaxTokenSize
	for _, n := range []int{lim - 1, lim, lim + 1, lim + 1000} {
		t.Label("token size " + side(n, lim))
		v := strings.Repeat("v", n)
		src := "<r><e k='" + v + "'>x</e><f>y</f></r>"
		if xmldot.Valid(src) != (n <= lim) {
			t.Failf("limit", "an attribute value of %d bytes: Valid says %v", n, xmldot.Valid(src))
		}
		if n <= lim {
			if xmldot.Get(src, "r.e.@k").String() != v || xmldot.Get(src, "r.f").String() != "y" || xmldot.Get(src, "r.e").String() != "x" {
				t.Failf("misread", "a document with an attribute value of %d bytes", n)
			}
			out, err := xmldot.Set("<r/>", "r.@k", v)
			must(t, "Set an attribute", err)
			if xmldot.Get(out, "r.@k").String() != v {
				t.Failf("limit", "an attribute value of %d bytes does not read back", n)
			}
		} else {
			out, err := xmldot.Set("<r/>", "r.@k", v)
			refused(t, fmt.Sprintf("Set an attribute to %d bytes", n), "<r/>", out, err, "value")
		}
		// text has no such limit
		src = "<r><e>" + v + "</e><f>y</f></r>"
		if !xmldot.Valid(src) || xmldot.Get(src, "r.e").String() != v || xmldot.Get(src, "r.f").String() != "y" {
			t.Failf("misread", "a document with a text of %d bytes", n)
		}
	}
	t.Nontrivial("token size")
}

func limitSearch(t *T) {
	var b strings.Builder
	b.WriteString("<r>")
	for i := range 40000 {
		fmt.Fprintf(&b, "<g><h><i>%d</i></h></g>", i)
	}
	b.WriteString("<last>1</last></r>")
	src := b.String()
	for _, p := range []string{"**.i", "**.h", "**.none", "r.**", "**", "r.*", "r.*.*.*", "**.@x", "**.%", "**.**", "**.i|@sort", "r.**.i"} {
		for _, o := range []*xmldot.Options{nil, ci} {
			got := xmldot.GetWithOptions(src, p, o)
			if len(got.Results) > xmldot.MaxWildcardResults {
				t.Failf("limit", "%q gives %d results", p, len(got.Results))
			}
		}
	}
	if got := xmldot.Get(src, "r.last"); got.String() != "1" {
		t.Failf("misread", "the last of many elements reads %q", got.String())
	}
	// a recursive search gives up after the published number of steps and levels, not before
	find := func(what, src string, want bool) {
		for _, p := range []string{"**.x", "*.**.x", "**.x.%"} {
			for _, o := range []*xmldot.Options{nil, ci, {CaseSensitive: true, Indent: " "}} {
				if got := xmldot.GetWithOptions(src, p, o).Exists(); got != want {
					t.Failf("limit", "%q with options %+v behind %s: found %v, expected %v", p, o, what, got, want)
				}
			}
		}
	}
	const ops, levels = xmldot.MaxRecursiveOperations, xmldot.MaxNestingDepth
	for _, n := range []int{ops / 2, ops - 100, ops + 100, 3 * ops} {
		find(fmt.Sprint(n, " elements"), "<r>"+strings.Repeat("<a>1</a>", n)+"<x>1</x></r>", n < ops)
		k := n / 10
		find(fmt.Sprint(n, " nested elements"), "<r>"+strings.Repeat("<b>"+strings.Repeat("<a>1</a>", 9)+"</b>", k)+"<x>1</x></r>", n < ops)
	}
	for _, n := range []int{levels - 5, levels - 1, levels + 5, 3 * levels} {
		find(fmt.Sprint(n, " levels"), strings.Repeat("<a>", n)+"<x>1</x>"+strings.Repeat("</a>", n), n < levels)
	}
	t.Nontrivial("search effort")
}

// limitValues compares the limits with the table in docs/security.md.
func limitValues(t *T) {
	for _, c := range []struct {
		name      string
		got, want int
	}{
		{"MaxDocumentSize", xmldot.MaxDocumentSize, 10 << 20},
		{"MaxValueSize", xmldot.MaxValueSize, 5 << 20},
		{"MaxNestingDepth", xmldot.MaxNestingDepth, 100},
		{"MaxAttributes", xmldot.MaxAttributes, 100},
		{"MaxTokenSize", xmldot.MaxTokenSize, 1 << 20},
		{"MaxNamespacePrefixLength", xmldot.MaxNamespacePrefixLength, 256},
		{"MaxFilterExpressionLength", xmldot.MaxFilterExpressionLength, 256},
		{"MaxWildcardResults", xmldot.MaxWildcardResults, 1000},
		{"MaxRecursiveOperations", xmldot.MaxRecursiveOperations, 10000},
		{"MaxPathSegments", xmldot.MaxPathSegments, 100},
	} {
		if c.got != c.want {
			t.Failf("limit", "%s is %d, published is %d", c.name, c.got, c.want)
		}
	}
	t.Nontrivial("published values")
}

var attrRE = regexp.MustCompile(`([az]\d+)=(?:"([^"]*)"|'([^']*)')`)
