package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

type argText string // formats as itself

func (a argText) String() string { return string(a) }

// tmplArg turns a piece of text into an argument that prints as it.
func tmplArg(t *rapid.T, s string) any {
	if n, err := strconv.Atoi(s); err == nil && strconv.Itoa(n) == s {
		switch rapid.IntRange(0, 5).Draw(t, "argtype") {
		case 0:
			return n
		case 1:
			return uint32(n)
		case 2:
			if n < 256 {
				return uint8(n)
			}
		case 3:
			return int64(n)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "stringer") == 0 {
		return struct{ fmt.Stringer }{argText(s)}
	}
	return s
}

// templater makes templates out of resolved names, collecting the arguments.
type templater struct {
	t    *rapid.T
	args []any
	text []string
}

func (m *templater) hole(s string) string {
	for i, x := range m.text {
		if x == s && rapid.Bool().Draw(m.t, "reuse") {
			return fmt.Sprintf("{%d}", i)
		}
	}
	m.args, m.text = append(m.args, tmplArg(m.t, s)), append(m.text, s)
	return fmt.Sprintf("{%d}", len(m.args)-1)
}

// template replaces pieces of a name by placeholders.
func (m *templater) template(name string) string {
	t := m.t
	var out strings.Builder
	for i := 0; i < len(name); {
		c := name[i]
		digits := 0
		for i+digits < len(name) && name[i+digits] >= '0' && name[i+digits] <= '9' {
			digits++
		}
		switch {
		case digits > 0 && (i > 0 && (name[i-1] == '[' || name[i-1] == ',')) && rapid.IntRange(0, 2).Draw(t, "ix") > 0:
			out.WriteString(m.hole(name[i : i+digits]))
			i += digits
		case c != '{' && c != '}' && rapid.IntRange(0, 9).Draw(t, "piece") == 0:
			n := rapid.IntRange(0, min(4, len(name)-i)).Draw(t, "len")
			if strings.ContainsAny(name[i:i+n], "{}") {
				n = 1
			}
			out.WriteString(m.hole(name[i : i+n]))
			i += n
		case c == '{' && rapid.Bool().Draw(t, "brace"): // the argument looks like a placeholder itself
			if e := strings.IndexByte(name[i:], '}'); e > 0 {
				out.WriteString(m.hole(name[i : i+e+1]))
				i += e + 1
				continue
			}
			fallthrough
		default:
			out.WriteByte(c)
			i++
		}
	}
	return out.String()
}

func TestC27(t *testing.T) {
	r := hx.For("C27")
	r.Rule("one read of 1-8 templated tags (group read, tagged structure, data table group) with at least one placeholder, or every typed accessor tried on a result; arguments are numbers, strings and stringers, up to 30 of them, some of which look like placeholders themselves")
	r.Assume("the Uint32 accessor also takes an int32, as documented; arrays may come as []any or as a slice of their type")
	hx.Check(t, "C27", 7500, func(t *rapid.T) {
		p := shared.Get()
		places := c26World(t, p, false)
		// names with braces: literal text that must survive
		brace := rapid.IntRange(0, 2).Draw(t, "braces") == 0
		if brace {
			for _, n := range []string{"Qz{1}", "Qz{0}", "Qz{12}", "QzZ", "Qz7", "Qz{x}", "Qz{}"} {
				tg := p.AddTag(&plc.Tag{Name: n, Type: plc.DINT})
				places = append(places, dtPlace{path: n, typ: gologix.CIPTypeDINT, zero: int32(0), size: 4, tag: tg, run: 1})
			}
		}
		for _, d := range places {
			c26Set(t, p, d)
		}
		c := hx.Connected(t, p, nil)
		defer c.Disconnect()

		m := &templater{t: t}
		for i := rapid.SampledFrom([]int{0, 0, 1, 11, 25}).Draw(t, "unused"); i > 0; i-- { // so that {1} and {10} both occur
			s := rapid.SampledFrom([]string{"7", "Z", "{0}", "{2}", ""}).Draw(t, "unusedarg")
			m.args, m.text = append(m.args, s), append(m.text, s)
		}
		type want struct {
			dtPlace
			tmpl string
			n    int
		}
		var ws []want
		seen := map[string]bool{}
		for i := rapid.IntRange(1, 8).Draw(t, "defs"); i > 0; i-- {
			d := rapid.SampledFrom(places).Draw(t, "place")
			if seen[d.path] {
				continue
			}
			seen[d.path] = true
			w := want{dtPlace: d, n: 1}
			if d.run > 1 && d.typ != gologix.CIPTypeSTRING && rapid.IntRange(0, 2).Draw(t, "many") == 0 {
				w.n = rapid.IntRange(2, min(d.run, 12)).Draw(t, "n")
			}
			w.tmpl = m.template(d.path)
			ws = append(ws, w)
		}
		// literal braces that name an argument are a placeholder; leave those out
		all := ws
		ws = nil
		for _, w := range all {
			if substituteOnce(w.tmpl, m.text) == w.path {
				ws = append(ws, w)
			}
		}
		if len(ws) == 0 {
			t.Skip("nothing left")
		}
		expect := func(w want, k int) any {
			e := w.dtPlace
			if w.n > 1 {
				e = w.elem(k)
			}
			return e.value(p)
		}
		same := func(got any, w want) string {
			if w.n == 1 {
				if !sameVal(got, expect(w, 0)) {
					return fmt.Sprintf("%T %v, should be %T %v", got, got, expect(w, 0), expect(w, 0))
				}
				return ""
			}
			g := reflect.ValueOf(got)
			if g.Kind() != reflect.Slice || g.Len() != w.n {
				return fmt.Sprintf("%T %v, should be %d elements", got, got, w.n)
			}
			for k := 0; k < w.n; k++ {
				if !sameVal(g.Index(k).Interface(), expect(w, k)) {
					return fmt.Sprintf("%T %v, element %d should be %v", got, got, k, expect(w, k))
				}
			}
			return ""
		}
		desc := ""
		for _, w := range ws {
			desc += fmt.Sprintf(" %q=%q x%d %v", w.tmpl, w.path, w.n, w.typ)
		}
		desc += fmt.Sprintf(" args %v", m.text)
		var defs []gologix.TagDef
		for _, w := range ws {
			n := w.n
			if n == 1 {
				n = rapid.IntRange(0, 1).Draw(t, "zero")
			}
			defs = append(defs, gologix.TagDef{Name: w.tmpl, Type: w.typ, Elements: n})
		}
		g := gologix.NewTagGroup(defs...)
		mode := rapid.SampledFrom([]string{"group", "group", "struct", "table"}).Draw(t, "mode")
		call := func(f func() error) {
			var err error
			if bad := hx.Within(opLimit, func() { err = f() }); bad != "" {
				t.Fatalf("%s%s: %s", mode, desc, bad)
			}
			if err != nil {
				t.Fatalf("%s%s: %v", mode, desc, err)
			}
		}
		switch mode {
		case "group":
			var res *gologix.TagGroupResult
			call(func() (err error) { res, err = c.ReadTagGroup(g, m.args...); return })
			if len(res.Raw()) != len(ws) {
				t.Fatalf("group%s: results %v", desc, res.Raw())
			}
			for _, w := range ws {
				v, err := res.Value(w.path)
				if err != nil {
					t.Fatalf("group%s: %v (results %v)", desc, err, res.Raw())
				}
				if s := same(v, w); s != "" {
					t.Fatalf("group%s: %s is %s", desc, w.path, s)
				}
				accessors(t, res, w.path, v)
			}
			accessors(t, res, "no such name", nil)
			if rapid.Bool().Draw(t, "again") { // a group is reusable, with other arguments too
				for i, w := range ws {
					if d := g.Defs()[i]; d.Name != w.tmpl {
						t.Fatalf("definition %d turned into %q", i, d.Name)
					}
				}
				call(func() (err error) { res, err = c.ReadTagGroup(g, m.args...); return })
				for _, w := range ws {
					if v, err := res.Value(w.path); err != nil || same(v, w) != "" {
						t.Fatalf("group%s: second read of %s: %v %v", desc, w.path, v, err)
					}
				}
			}
		case "struct":
			var fs []reflect.StructField
			var vals []reflect.Value
			for i, w := range ws {
				v := reflect.ValueOf(w.zero)
				if w.n > 1 {
					v = reflect.MakeSlice(reflect.SliceOf(v.Type()), w.n, w.n)
				}
				if w.n > 1 && v.Type().Elem().Kind() == reflect.Bool {
					v = reflect.ValueOf(false)
					w.n, ws[i].n = 1, 1
				}
				vals = append(vals, v)
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: v.Type(), Tag: reflect.StructTag("gologix:" + strconv.Quote(w.tmpl))})
			}
			x := reflect.New(reflect.StructOf(fs))
			for i, v := range vals {
				x.Elem().Field(i).Set(v)
			}
			call(func() error { return c.ReadMulti(x.Interface(), m.args...) })
			for i, w := range ws {
				if s := same(x.Elem().Field(i).Interface(), w); s != "" {
					t.Fatalf("struct%s: %s is %s", desc, w.path, s)
				}
			}
		case "table":
			var buf *gologix.DataTableBuffer
			call(func() (err error) { buf, err = c.NewDataTableBuffer(); return })
			call(func() error { return buf.AddTagGroup(g, m.args...) })
			var names, wantNames []string
			for _, tg := range buf.Tags() {
				names = append(names, strings.ToLower(tg.Name))
			}
			uniq := map[string]bool{}
			for _, w := range ws {
				if w.n == 1 {
					uniq[strings.ToLower(w.path)] = true
				}
				for k := 0; w.n > 1 && k < w.n; k++ {
					uniq[strings.ToLower(w.elem(k).path)] = true
				}
			}
			for n := range uniq {
				wantNames = append(wantNames, n)
			}
			sort.Strings(names)
			sort.Strings(wantNames)
			if !reflect.DeepEqual(names, wantNames) {
				t.Fatalf("table%s: registered %q, should be %q", desc, names, wantNames)
			}
			var res *gologix.TagGroupResult
			call(func() (err error) { res, err = buf.ReadAllTyped(); return })
			for _, w := range ws {
				v, err := res.Value(w.path)
				if err != nil {
					t.Fatalf("table%s: %v (results %v)", desc, err, res.Raw())
				}
				if s := same(v, w); s != "" {
					t.Fatalf("table%s: %s is %s", desc, w.path, s)
				}
				accessors(t, res, w.path, v)
			}
			call(buf.Close)
		}
		r.Case(mode+desc, len(m.args) > 0, mode)
	})
}

// substituteOnce is the meaning of a template: placeholders are replaced in one pass.
func substituteOnce(s string, args []string) string {
	var out strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '{' {
			if e := strings.IndexByte(s[i:], '}'); e > 0 {
				if n, err := strconv.Atoi(s[i+1 : i+e]); err == nil && strconv.Itoa(n) == s[i+1:i+e] && n >= 0 && n < len(args) {
					out.WriteString(args[n])
					i += e
					continue
				}
			}
		}
		out.WriteByte(s[i])
	}
	return out.String()
}

// accessors tries every typed accessor: it has the value if and only if that has its type.
func accessors(t *rapid.T, res *gologix.TagGroupResult, name string, v any) {
	check := func(what string, got any, err error, has bool, want any) {
		if has != (err == nil) {
			t.Fatalf("%s(%q) of %T %v: %v, %v", what, name, v, v, got, err)
		}
		if has && !sameVal(got, want) {
			t.Fatalf("%s(%q) of %T %v: %v", what, name, v, v, got)
		}
	}
	s, err := res.String(name)
	x, ok := v.(string)
	check("String", s, err, ok, x)
	b, err := res.Bool(name)
	bx, ok := v.(bool)
	check("Bool", b, err, ok, bx)
	i16, err := res.Int16(name)
	i16x, ok := v.(int16)
	check("Int16", i16, err, ok, i16x)
	i32, err := res.Int32(name)
	i32x, ok := v.(int32)
	check("Int32", i32, err, ok, i32x)
	u32, err := res.Uint32(name)
	u32x, ok := v.(uint32)
	if !ok {
		u32x, ok = uint32(i32x), func() bool { _, is := v.(int32); return is }()
	}
	check("Uint32", u32, err, ok, u32x)
	f32, err := res.Float32(name)
	f32x, ok := v.(float32)
	check("Float32", f32, err, ok, f32x)
	f64, err := res.Float64(name)
	f64x, ok := v.(float64)
	check("Float64", f64, err, ok, f64x)
	sv := reflect.ValueOf(v)
	isSlice := func(k reflect.Kind) bool {
		if !sv.IsValid() || sv.Kind() != reflect.Slice {
			return false
		}
		for i := 0; i < sv.Len(); i++ {
			if reflect.TypeOf(sv.Index(i).Interface()).Kind() != k {
				return false
			}
		}
		return true
	}
	is, err := res.Int32Slice(name)
	check("Int32Slice", nil, err, isSlice(reflect.Int32), nil)
	fs, err2 := res.Float32Slice(name)
	check("Float32Slice", nil, err2, isSlice(reflect.Float32), nil)
	for i := range is {
		if len(is) != sv.Len() || is[i] != sv.Index(i).Interface() {
			t.Fatalf("Int32Slice(%q) of %v: %v", name, v, is)
		}
	}
	for i := range fs {
		if len(fs) != sv.Len() || math.Float32bits(fs[i]) != math.Float32bits(sv.Index(i).Interface().(float32)) {
			t.Fatalf("Float32Slice(%q) of %v: %v", name, v, fs)
		}
	}
	if (isSlice(reflect.Int32) && len(is) != sv.Len()) || (isSlice(reflect.Float32) && len(fs) != sv.Len()) {
		t.Fatalf("%q: slices of %d and %d elements, result has %d", name, len(is), len(fs), sv.Len())
	}
	_, err = res.Value(name)
	check("Value", nil, err, v != nil, nil)
}
