package main

import (
	"fmt"
	"maps"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/netascode/xmldot"
)

// soup is any text as a document: tokens thrown together, or a document with mistakes.
func (g *G) soup() (string, *Doc) {
	t := g.t
	d := g.anyDoc()
	switch t.W(35, 15, 10, 10, 30) {
	case 0:
		return g.mutate(d.Src, t.Int(1, 6)), d
	case 1:
		var b strings.Builder
		for n := t.Int(0, 25); n > 0; n-- {
			b.WriteString(pick(t, docAlphabet))
		}
		return b.String(), d
	case 2:
		s, _ := g.corrupt(d.Src, d.Kids, true)
		return s, d
	case 3:
		b := make([]byte, t.Int(0, 40))
		for i := range b {
			b[i] = byte(t.N(256))
		}
		return string(b), d
	}
	return d.Src, d
}

func (g *G) anyOptions() *xmldot.Options {
	t := g.t
	if t.Chance(10) {
		return nil
	}
	o := &xmldot.Options{CaseSensitive: t.Bool(), PreserveWhitespace: t.Bool()}
	o.Indent = pick(t, []string{"", "  ", "\t", "x", "<", "\x00", strings.Repeat(" ", 200)})
	if t.Bool() {
		o.Namespaces = map[string]string{"a": "", "": "x", "ns": "urn:x"}
	}
	return o
}

// touch uses every method of a result.
func touch(r xmldot.Result, paths []string, depth int) int {
	n := len(r.String()) + len(r.Raw) + len(r.Str)
	_ = r.Int()
	_ = r.Float()
	_ = r.Bool()
	_ = r.Exists()
	_ = r.Value()
	for _, x := range r.Array() {
		n += len(x.Str)
	}
	for k := range r.Map() {
		n += len(k)
	}
	for k := range r.MapWithOptions(ci) {
		n += len(k)
	}
	r.ForEach(func(i int, v xmldot.Result) bool { n += len(v.Str); return i < 20 })
	if depth > 0 {
		for _, p := range paths {
			n += touch(r.Get(p), nil, depth-1)
			n += touch(r.GetWithOptions(p, ci), nil, depth-1)
		}
		for _, x := range r.GetMany(paths...) {
			n += touch(x, nil, 0)
		}
	}
	return n
}

func exerciseAll(t *T, g *G, src string, ps, ps2 string, val any, raw string, o *xmldot.Options) {
	rs := []xmldot.Result{
		xmldot.Get(src, ps), xmldot.GetString(src, ps), xmldot.GetBytes([]byte(src), ps),
		xmldot.GetWithOptions(src, ps, o), xmldot.GetStringWithOptions(src, ps, o), xmldot.GetBytesWithOptions([]byte(src), ps, o),
	}
	rs = append(rs, xmldot.GetMany(src, ps, ps2)...)
	for i, r := range rs {
		depth := 0
		if i == 0 || i == 3 {
			depth = 1
		}
		touch(r, []string{ps2, ps}, depth)
		if len(r.Results) > xmldot.MaxWildcardResults {
			t.Failf("limit", "%d results", len(r.Results))
		}
	}
	_, _ = xmldot.Set(src, ps, val)
	_, _ = xmldot.SetBytes([]byte(src), ps, val)
	_, _ = xmldot.SetRaw(src, ps, raw)
	_, _ = xmldot.SetWithOptions(src, ps, val, o)
	_, _ = xmldot.SetBytesWithOptions([]byte(src), ps, val, o)
	_, _ = xmldot.SetMany(src, []string{ps, ps2}, []any{val, raw})
	_, _ = xmldot.SetManyBytes([]byte(src), []string{ps, ps2}, []any{val, raw})
	_, _ = xmldot.Delete(src, ps)
	_, _ = xmldot.DeleteBytes([]byte(src), ps)
	_, _ = xmldot.DeleteBytesWithOptions([]byte(src), ps, o)
	_, _ = xmldot.DeleteMany(src, ps, ps2)
	_, _ = xmldot.DeleteManyBytes([]byte(src), ps, ps2)
	if e := xmldot.ValidateWithError(src); e != nil {
		_ = e.Error()
	}
	_, _ = xmldot.Valid(src), xmldot.ValidBytes([]byte(src))
	_ = xmldot.ValidateBytesWithError([]byte(src))
}

func init() {
	register(&Prop{
		ID: "C16", Quick: 120000, Thorough: 1200000,
		Rule:       "a document, path, value or option that is not plain: mutated, random, corrupted",
		PerCaseCPU: 20 * time.Second,
		Run: func(t *T) {
			g := newG(t)
			switch t.N(1500) {
			case 1499:
				runRepeated(t, g)
				return
			case 1498:
				runRepeatedPath(t)
				return
			}
			src, d := g.soup()
			ps, ps2 := g.oddPath(d), g.oddPath(d)
			if t.Chance(20) {
				ps = pick(t, wildPaths)
			}
			var val any = g.oddString()
			switch t.N(6) {
			case 0:
				val = g.scalar().v
			case 1:
				val, _ = g.badValue()
			case 2:
				val = []byte(g.oddString())
			}
			raw := g.oddString()
			if t.Chance(30) {
				raw, _ = g.soup()
			}
			o := g.anyOptions()
			noteQuery(t, src, ps)
			t.Note("second path", ps2)
			t.Notef("value", "%T %q", val, fmt.Sprint(val))
			t.Note("raw", raw)
			t.Notef("options", "%+v", o)
			exerciseAll(t, g, src, ps, ps2, val, raw, o)
			if t.Chance(20) {
				// results that no query returned
				r := xmldot.Result{Type: xmldot.Type(t.Int(-1, 9)), Str: g.oddString(), Raw: src, Index: t.Int(-2, 5), Num: 1.5}
				if t.Bool() {
					r.Results = []xmldot.Result{r, {Type: xmldot.Element, Raw: g.oddString()}, {}}
				}
				touch(r, []string{ps, ps2}, 1)
				for _, m := range []string{"reverse", "sort", "first", "last", "flatten", "pretty", "ugly", "raw", "keys", "values"} {
					if mod := xmldot.GetModifier(m); mod != nil {
						touch(mod.Apply(r), nil, 0)
					}
				}
				t.Label("hand-made result")
			}
			if xmldot.Valid(src) {
				t.Label("document valid")
			}
			t.Nontrivial(src, ps)
		},
		Fixed: append(heavyCases(), Fixed{"nil and zero arguments", func(t *T) {
			_ = xmldot.GetBytes(nil, "a")
			_ = xmldot.GetBytesWithOptions(nil, "", nil)
			_, _ = xmldot.SetBytes(nil, "", nil)
			_, _ = xmldot.SetBytesWithOptions(nil, "a", "b", nil)
			_, _ = xmldot.SetMany("", nil, nil)
			_, _ = xmldot.SetManyBytes(nil, nil, nil)
			_, _ = xmldot.DeleteBytes(nil, "")
			_, _ = xmldot.DeleteMany("")
			_, _ = xmldot.DeleteManyBytes(nil)
			_ = xmldot.GetMany("")
			_ = xmldot.ValidBytes(nil)
			_ = xmldot.ValidateBytesWithError(nil)
			_ = xmldot.GetModifier("")
			_ = xmldot.RegisterModifier("", nil)
			_ = xmldot.RegisterModifier("x-nil", nil)
			_ = xmldot.UnregisterModifier("")
			_ = xmldot.UnregisterModifier("x-nil")
			var r xmldot.Result
			touch(r, []string{"", "a", "#", "%", "@a", "*", "**", "0", "|@sort"}, 1)
			r.ForEach(func(int, xmldot.Result) bool { return false })
		}}, Fixed{"single quote as filter value", func(t *T) {
			for _, p := range []string{"a.#(b==')", "a.#(b==\")", "a.#(b==)", "a.#(')", "a.#(b%')", "a.#(b!=')#", "a[b==']", "a['", "a.#(", "a.#()", "a.#()#", "a.#(b"} {
				_ = xmldot.Get("<a><b>1</b></a>", p)
			}
		}}),
	})

	register(&Prop{
		ID: "C27", Quick: 500, Thorough: 5000, Race: true,
		PerCaseCPU: 200 * time.Second, // of all workers, with the race detector
		Rule:       "a round of concurrent mixed calls over shared documents and paths",
		Run:        runConcurrent,
	})
}

var wildPaths = []string{"**", "**.**", "**.**.**", "*.*.*.*", "**.*", "*.**", "**.#", "**.%", "**.@id", "#", "%", "@id", "0", "-1", "a.#(", "a.#(b==')", "a.#(%%'*a*a*a*')#", "**.#(**.a==1)#", "a|@", "|", "a||@sort", "a|@sort|@nope", "a.#.#.#", "a.#.b.#.c", "a.999999999999999999999", "a.-999999999999999999999", "....", "\\", "a\\", "#(a)#(b)", "#(#(#(a)))", "a.#(a.#(b==1)==2)", "*|@flatten|@sort|@reverse", "a:b:c", ":", "@", "@@", "@*", "a.@", "#.#", "**.#(@id)#.@id"}

// runRepeated calls on a document of up to two megabytes that repeats a short piece.
func runRepeated(t *T, g *G) {
	piece := func(n int) string {
		s := ""
		for ; n > 0; n-- {
			s += pick(t, docAlphabet)
			if t.Chance(15) {
				s += pick(t, []string{"<!", "<!a", "</b>", "<b>", "<a ", "<![", "<!-", "x='"})
			}
		}
		return s
	}
	front, unit, back := "<a>", piece(t.Int(1, 3)), ""
	switch t.N(3) {
	case 1:
		front = ""
	case 2:
		front = piece(t.Int(1, 3))
	}
	if t.Bool() {
		back = piece(t.Int(1, 2)) + "</a>"
	}
	ps := pick(t, []string{"a", "a.b", "a.a", "b.-1", "a.@a", "a.x.y", "*", "a.*", "**.b", "a.#", "a.b.#(@a==1)#", "a.%", "a|@pretty", "a|@ugly"})
	size := 2 << 20
	if strings.HasPrefix(ps, "**") {
		// may look through all of the rest at every level down to the permitted depth
		size = 1 << 18
	}
	src := front + strings.Repeat(unit, size/len(unit)) + back
	t.Notef("document", "%q, then %q repeated to %d bytes, then %q", front, unit, size, back)
	t.Note("path", ps)
	_ = xmldot.Get(src, ps)
	_ = xmldot.GetWithOptions(src, ps, ci)
	_, _ = xmldot.Set(src, ps, "v")
	_, _ = xmldot.Delete(src, ps)
	_, _ = xmldot.SetRaw("<r/>", "r", src)
	_, _ = xmldot.Set("<r/>", "r", src)
	_ = xmldot.ValidateWithError(src)
	r := xmldot.Result{Type: xmldot.Element, Raw: src}
	_ = r.Map()
	_ = r.Get(ps)
	t.Label("repeated piece")
	t.Nontrivial(front, unit, back, ps)
}

// runRepeatedPath calls with a path that repeats a short piece up to half a megabyte.
func runRepeatedPath(t *T) {
	piece := func(n int) string {
		s := ""
		for ; n > 0; n-- {
			s += pick(t, pathAlphabet)
		}
		return s
	}
	front := pick(t, []string{"", "a", "a.", "a.b.", "a.#(", "a.#(b==", "a.#(b%'", "a.#.", "a.@", "a|", "a.b|@sort", "**."})
	unit, back := piece(t.Int(1, 3)), ""
	if t.Bool() {
		back = piece(t.Int(1, 2))
	}
	ps := front + strings.Repeat(unit, pick(t, []int{256, 4096, 1 << 19})/len(unit)) + back
	src := pick(t, []string{"<a><b>1</b><b x='2'>3</b></a>", "<a/>", "", "<a>x</a><a>y</a>", "<a"})
	t.Note("document", src)
	t.Notef("path", "%q, then %q repeated to %d bytes, then %q", front, unit, len(ps), back)
	_ = xmldot.Get(src, ps)
	_ = xmldot.GetWithOptions(src, ps, ci)
	_ = xmldot.GetMany(src, ps, ps)
	_, _ = xmldot.Set(src, ps, "v")
	_, _ = xmldot.SetWithOptions(src, ps, "v", ci)
	_, _ = xmldot.SetRaw(src, ps, "<v/>")
	_, _ = xmldot.SetMany(src, []string{ps, "a"}, []any{"v", 1})
	_, _ = xmldot.Delete(src, ps)
	_, _ = xmldot.DeleteMany(src, ps, ps)
	_ = xmldot.Get(src, "a").Get(ps)
	_ = xmldot.GetModifier(ps)
	t.Label("repeated piece in the path")
	t.Nontrivial(front, unit, back, src)
}

// heavyCases are large inputs aimed at the effort of every call.
func heavyCases() []Fixed {
	rep := strings.Repeat
	docs := []struct {
		name string
		mk   func() string
	}{
		{"many open tags", func() string { return rep("<a>", 2000) }},
		{"deeply nested", func() string { return rep("<a>", 2000) + rep("</a>", 2000) }},
		{"many <", func() string { return rep("<", 1000000) }},
		{"many comments starts", func() string { return "<a>" + rep("<!--", 250000) + "</a>" }},
		{"many CDATA starts", func() string { return "<a>" + rep("<![CDATA[", 100000) + "</a>" }},
		{"many instruction starts", func() string { return "<a>" + rep("<?", 400000) + "</a>" }},
		{"many DOCTYPE starts", func() string { return rep("<!DOCTYPE a [", 80000) + "<a/>" }},
		{"a long tag", func() string { return "<a " + rep("b='c' ", 150000) + "/>" }},
		{"a long name", func() string { return "<" + rep("a", 1000000) + "/>" }},
		{"a long attribute", func() string { return "<a b='" + rep("&amp;", 200000) + "'/>" }},
		{"an open quote", func() string { return "<a b='" + rep("x", 1000000) }},
		{"many items", func() string { return "<a>" + rep("<b c='1'>x</b>", 15000) + "</a>" }},
		{"many roots", func() string { return rep("<b c='1'>x</b>", 15000) }},
		{"many entities", func() string { return "<a>" + rep("&lt;", 250000) + "</a>" }},
		{"many ampersands", func() string { return "<a>" + rep("&", 1000000) + "</a>" }},
		{"nested items", func() string { return rep("<a><b>1</b>", 90) + rep("</a>", 90) }},
		{"wide and deep", func() string {
			return "<a>" + rep(rep("<a>", 90)+"x"+rep("</a>", 90), 300) + "</a>"
		}},
		{"close tags only", func() string { return rep("</a>", 250000) }},
		{"same name inside", func() string { return "<a>" + rep("<a>", 2000) + "x" + rep("</a>", 2000) + "</a>" }},
	}
	paths := []string{"a", "a.b", "a.b.#", "a.b.14999", "**.b", "**.zz", "a.*", "*.*", "**", "**.**.b", "a.b.#(@c==1)#", "a.b.#(%%'*x*x*x*')#.@c", "a.b.#.@c", "a.@b", "b.#", "b.#.@c", "a.%", "a|@pretty", "a|@ugly", "a.b|@sort", "a.*|@flatten|@sort", "a.a.a.a.a.a", "**.a.a.a", rep("a.", 99) + "a", rep("**.", 5) + "a", rep("*.", 50) + "a", "a.#(" + rep("a.", 100) + "b==1)#", "a.#(b%'" + rep("*x", 100) + "')#"}
	var out []Fixed
	for _, d := range docs {
		out = append(out, Fixed{"heavy: " + d.name, func(t *T) {
			src := d.mk()
			for _, p := range paths {
				_ = xmldot.Get(src, p)
				_ = xmldot.GetWithOptions(src, p, ci)
			}
			for _, p := range []string{"a", "a.b", "a.b.100", "a.new.x", "b.-1", "a.b.-1", "a.@new", rep("a.", 99) + "a"} {
				_, _ = xmldot.Set(src, p, "v")
				_, _ = xmldot.Delete(src, p)
				_, _ = xmldot.SetWithOptions(src, p, "v", &xmldot.Options{Indent: "  "})
			}
			_, _ = xmldot.SetRaw("<r/>", "r", src)
			_, _ = xmldot.Set("<r/>", "r", src)
			_ = xmldot.ValidateWithError(src)
			r := xmldot.Result{Type: xmldot.Element, Raw: src}
			_ = r.Map()
			_ = r.Get("a.b")
			t.Nontrivial("heavy", d.name)
		}})
	}
	for i, p := range []string{"**.a.**.a.**.a.**.zz", "**.*.**.*.**.*.**.zz", "**.a.#(**.a.#(**.a.#(**.a.#(zz))))", "**.a.a.**.a.a.**.a.a.**.zz", "**.a.**.a.#(**.a.**.a.**.zz)#.**.zz", "a.**.a.0.**.a.0.**.a.0.**.a.0.**.zz"} {
		out = append(out, Fixed{fmt.Sprint("heavy: wildcards within wildcards ", i), func(t *T) {
			src := rep("<a>", 90) + "x" + rep("</a>", 90)
			_ = xmldot.Get(src, p)
			_ = xmldot.GetWithOptions(src, p, ci)
			t.Nontrivial("heavy", p)
		}})
	}
	out = append(out, Fixed{"heavy: nested without end", func(t *T) {
		for _, src := range []string{rep("<a>", 300000), rep("<a>", 150000) + rep("</a>", 150000)} {
			for _, p := range []string{"a", "a.a.b", "a|@pretty", "a|@ugly", "a.a|@pretty|@ugly", "*", "a.*.*"} {
				_ = xmldot.Get(src, p)
				_ = xmldot.GetWithOptions(src, p, ci)
			}
			_, _ = xmldot.Set(src, "a.b", "v")
			_, _ = xmldot.Delete(src, "a.a")
			_, _ = xmldot.SetRaw("<r/>", "r", src)
			_ = xmldot.Valid(src)
			touch(xmldot.GetModifier("pretty").Apply(xmldot.Result{Type: xmldot.Element, Raw: src}), nil, 0)
		}
		t.Nontrivial("heavy", "nested")
	}})
	for _, x := range [][2]string{
		{"dots", rep(".", 1000000)},
		{"steps", rep("a.", 500000)},
		{"hashes", rep("#", 1000000)},
		{"brackets", rep("#(", 500000)},
		{"stars", rep("*", 1000000)},
		{"backslashes", rep("\\", 1000000)},
		{"modifiers", "a" + rep("|@sort", 150000)},
		{"quotes", "a.#(b=='" + rep("'", 1000000)},
		{"a long name", rep("a", 1000000)},
		{"digits", "a." + rep("9", 1000000)},
		{"pattern", "a.#(b%'" + rep("*a", 120) + "')#"},
	} {
		name, p := x[0], x[1]
		out = append(out, Fixed{"heavy path: " + name, func(t *T) {
			src := "<a><b>" + rep("a", 5000) + "</b><b>2</b></a>"
			_ = xmldot.Get(src, p)
			_ = xmldot.GetWithOptions(src, p, ci)
			_, _ = xmldot.Set(src, p, "v")
			_, _ = xmldot.Delete(src, p)
			t.Nontrivial("heavy path", name)
		}})
	}
	return out
}

func runConcurrent(t *T) {
	g := newG(t)
	type task struct {
		what string
		f    func(w int) string
		want string
	}
	show := func(r xmldot.Result) string {
		s := fmt.Sprintf("%v %q %q %v %d", r.Type, r.Str, r.Raw, r.Num, len(r.Results))
		for _, x := range r.Results {
			s += fmt.Sprintf(" [%v %q]", x.Type, x.Str)
		}
		return s
	}
	var tasks []task
	add := func(what string, f func(w int) string) { tasks = append(tasks, task{what: what, f: f}) }
	docs := make([]*Doc, t.Int(1, 3))
	for i := range docs {
		docs[i] = g.anyDoc()
		for range 20 {
			if len(docs[i].Src) < 6000 {
				break
			}
			docs[i] = g.anyDoc()
		}
	}
	n := t.Int(20, 60)
	if t.Chance(15) {
		n = 350 // more paths than the cache holds
		t.Label("more paths than the cache holds")
	}
	salt := t.N(1 << 30)
	var pool [][2]string // query and edit paths
	for i := range n {
		d := pick(t, docs)
		src := d.Src
		buf := []byte(src)
		ps := g.spellPath(g.path(d, allSteps))
		if n > 300 {
			ps = pathString(g.editPath(d)) + fmt.Sprintf(".u%d_%d", salt, i)
			if t.Bool() {
				ps = pathString(g.editPath(d)) + fmt.Sprintf(".#(@k!=%d_%d)", salt, i)
			}
		}
		mp := pathString(g.editPath(d)) + pick(t, []string{"", ".@id", ".new", ".-1", ".-2", ".new.@b"})
		if len(pool) < 8 {
			pool = append(pool, [2]string{ps, mp})
		} else if n < 300 && t.Bool() {
			// the same path with other documents, options and calls
			ps, mp = pick(t, pool)[0], pick(t, pool)[1]
		}
		v := g.scalar()
		o := g.options()
		o.CaseSensitive = t.Bool()
		if t.Chance(15) {
			bad, _ := g.corrupt(src, d.Kids, true)
			src, buf = bad, []byte(bad)
			t.Label("ill-formed document")
		}
		switch t.N(14) {
		case 0, 1:
			add("Get "+ps, func(int) string { return show(xmldot.Get(src, ps)) })
		case 2:
			add("GetBytes "+ps, func(int) string { return show(xmldot.GetBytes(buf, ps)) })
		case 3:
			add("GetWithOptions "+ps, func(int) string { return show(xmldot.GetWithOptions(src, ps, o)) })
		case 4:
			add("Set "+mp, func(int) string { s, err := xmldot.Set(src, mp, v.v); return fmt.Sprint(s, err) })
		case 5:
			add("SetBytesWithOptions "+mp, func(int) string {
				b, err := xmldot.SetBytesWithOptions(buf, mp, v.v, o)
				return fmt.Sprint(string(b), err)
			})
		case 6:
			add("Delete "+mp, func(int) string { s, err := xmldot.Delete(src, mp); return fmt.Sprint(s, err) })
		case 7:
			add("Validate", func(int) string { return fmt.Sprint(xmldot.ValidateWithError(src)) })
		case 10:
			add("batches "+mp, func(int) string {
				s, err := xmldot.SetMany(src, []string{mp, mp}, []any{v.v, "second"})
				u, err2 := xmldot.DeleteMany(src, mp, ps)
				return fmt.Sprint(s, err, u, err2)
			})
		case 11:
			f := g.fragment()
			if t.Chance(30) {
				ns, _ := parseXML(f, true)
				f, _ = g.corrupt(f, ns, false)
			}
			add("SetRaw "+mp, func(int) string { s, err := xmldot.SetRaw(src, mp, f); return fmt.Sprint(s, err) })
		case 12:
			add("GetMany "+ps, func(int) string {
				rs := xmldot.GetMany(src, ps, mp)
				return fmt.Sprint(show(rs[0]), show(rs[1]))
			})
		case 13:
			r := xmldot.Get(src, pathString(g.editPath(d)))
			add("Result.MapWithOptions", func(int) string {
				m := r.MapWithOptions(o)
				out := show(r.GetWithOptions(ps, o))
				for _, k := range slices.Sorted(maps.Keys(m)) {
					out += fmt.Sprintf("%q %s", k, show(m[k]))
				}
				return out
			})
		case 8:
			// a shared result
			r := xmldot.Get(src, pathString(g.editPath(d)))
			add("Result.Get", func(int) string {
				return fmt.Sprint(show(r.Get("*")), show(r.Get(ps)), len(r.Map()), len(r.Array()), r.Int(), r.String())
			})
		case 9:
			// modifiers of the caller's own, registered, used and removed
			base := fmt.Sprintf("c%d-%d", salt, i)
			add("modifier", func(w int) string {
				name := fmt.Sprint(base, "-", w)
				mod := xmldot.NewModifierFunc(name, func(r xmldot.Result) xmldot.Result {
					return xmldot.Result{Type: xmldot.String, Str: "seen by " + base, Num: float64(len(r.Results))}
				})
				err1 := xmldot.RegisterModifier(name, mod)
				has := xmldot.GetModifier(name) != nil && xmldot.GetModifier("sort") != nil
				s := show(xmldot.Get(src, "**.*|@"+name))
				err2 := xmldot.RegisterModifier(name, mod)
				err3 := xmldot.UnregisterModifier(name)
				gone := show(xmldot.Get(src, "**.*|@"+name))
				return fmt.Sprint(err1, has, s, err2 != nil, err3, gone)
			})
		}
	}
	for i := range tasks {
		tasks[i].want = tasks[i].f(-1)
	}
	t.Notef("tasks", "%d over %d documents", len(tasks), len(docs))
	for i, d := range docs {
		t.Note(fmt.Sprint("document ", i), d.Src)
	}
	t.Nontrivial(docs[0].Src, fmt.Sprint(len(tasks), salt))
	workers := t.Int(4, 12)
	seeds := make([]uint64, workers)
	for i := range seeds {
		seeds[i] = t.U64()
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad string
	start := make(chan struct{})
	for w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					mu.Lock()
					bad = fmt.Sprint("panic: ", p)
					mu.Unlock()
				}
			}()
			<-start
			k := int(seeds[w] % uint64(len(tasks)))
			step := 1 + 2*int(seeds[w]>>32%16)
			for range len(tasks) {
				x := tasks[k]
				k = (k + step) % len(tasks)
				if got := x.f(w); got != x.want {
					mu.Lock()
					bad = fmt.Sprintf("%s gives %q among other calls, %q alone", x.what, clip(got, 600), clip(x.want, 600))
					mu.Unlock()
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	if bad != "" {
		t.Failf("concurrent", "%s", bad)
	}
	contend(t, salt, workers)
}

// contend has several goroutines register and remove the same name at the same moment: whatever the
// order, exactly one registration succeeds, and exactly its function is then used.
func contend(t *T, salt, workers int) {
	name := fmt.Sprintf("same%d", salt)
	mods := make([]xmldot.Modifier, workers)
	for w := range workers {
		mods[w] = xmldot.NewModifierFunc(name, func(xmldot.Result) xmldot.Result {
			return xmldot.Result{Type: xmldot.String, Str: fmt.Sprint("worker ", w)}
		})
	}
	for range 60 {
		var wg sync.WaitGroup
		var ready atomic.Int32
		ok := make([]bool, workers)
		for w := range workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ready.Add(1)
				for ready.Load() < int32(workers) {
					runtime.Gosched()
				}
				ok[w] = xmldot.RegisterModifier(name, mods[w]) == nil
			}()
		}
		wg.Wait()
		won := -1
		for w, o := range ok {
			if o && won >= 0 {
				t.Failf("contended", "the registrations of workers %d and %d under one name both succeed", won, w)
			}
			if o {
				won = w
			}
		}
		if won < 0 {
			t.Failf("contended", "none of %d registrations under one name succeeds", workers)
		}
		if got := xmldot.Get("<a>1</a>", "a|@"+name).String(); got != fmt.Sprint("worker ", won) {
			t.Failf("contended", "worker %d registered the modifier, the answer is %q", won, got)
		}
		must(t, "UnregisterModifier", xmldot.UnregisterModifier(name))
	}
	t.Label("contended registration")
}
