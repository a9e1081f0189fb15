package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
	"verifharness/raw"
)

// atom is an elementary type as the controller, the library's tables and Go see it.
type atom struct {
	cip  byte
	typ  gologix.CIPType
	zero any
	ref  bool // zero's type is read as this CIP type
}

var atoms = []atom{
	{plc.DINT, gologix.CIPTypeDINT, int32(0), true}, {plc.SINT, gologix.CIPTypeSINT, int8(0), true},
	{plc.INT, gologix.CIPTypeINT, int16(0), true}, {plc.LINT, gologix.CIPTypeLINT, int64(0), true},
	{plc.USINT, gologix.CIPTypeUSINT, uint8(0), true}, {plc.UINT, gologix.CIPTypeUINT, uint16(0), true},
	{plc.UDINT, gologix.CIPTypeUDINT, uint32(0), true}, {plc.ULINT, gologix.CIPTypeULINT, uint64(0), true},
	{plc.REAL, gologix.CIPTypeREAL, float32(0), true}, {plc.LREAL, gologix.CIPTypeLREAL, float64(0), true},
	{plc.BYTE, gologix.CIPTypeBYTE, uint8(0), true}, {plc.WORD, gologix.CIPTypeWORD, uint16(0), true},
	{plc.DWORD, gologix.CIPTypeDWORD, uint32(0), true}, {plc.LWORD, gologix.CIPTypeLWORD, uint64(0), true},
}

// decodeAtom is the Go value of a memory image.
func decodeAtom(zero any, b []byte) any {
	var u uint64
	for i := len(b) - 1; i >= 0; i-- {
		u = u<<8 | uint64(b[i])
	}
	switch zero.(type) {
	case int8:
		return int8(u)
	case int16:
		return int16(u)
	case int32:
		return int32(u)
	case int64:
		return int64(u)
	case uint8:
		return uint8(u)
	case uint16:
		return uint16(u)
	case uint32:
		return uint32(u)
	case uint64:
		return u
	case float32:
		return math.Float32frombits(uint32(u))
	case float64:
		return math.Float64frombits(u)
	case bool:
		return u != 0
	case string:
		n := int(uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24)
		return string(b[4 : 4+n])
	}
	panic("type")
}

// sameVal compares values bit by bit.
func sameVal(a, b any) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

// dtPlace is something that can be put in a data table.
type dtPlace struct {
	path string
	typ  gologix.CIPType
	zero any
	size int
	tag  *plc.Tag
	off  int
	max  int // characters of a string that is not the standard one
	run  int // elements from here to the end of the last dimension
	base string
	idx  []int
}

func (d dtPlace) elem(k int) dtPlace {
	if d.idx == nil {
		return d
	}
	ix := append([]int(nil), d.idx...)
	ix[len(ix)-1] += k
	d.path, d.off, d.run = d.base+idxText(ix), d.off+k*d.size, d.run-k
	return d
}

func idxText(ix []int) string { return strings.ReplaceAll(fmt.Sprint(ix), " ", ",") }

func (d dtPlace) key() string {
	return fmt.Sprintf("%s/%s@%d", strings.ToLower(d.tag.Program), strings.ToLower(d.tag.Name), d.off)
}

type dtEntry struct {
	dtPlace
	name string
	ref  reflect.Value
	bad  bool // the controller will refuse it
	sync bool
}

func c26World(t *rapid.T, p *plc.PLC, discover bool) []dtPlace {
	var out []dtPlace
	n := rapid.IntRange(2, 7).Draw(t, "tags")
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%s%d", hx.GenName(t, "name"), i)
		tg := &plc.Tag{Name: name}
		pre := ""
		if rapid.IntRange(0, 4).Draw(t, "inprog") == 0 {
			tg.Program, pre = "Pg", "Program:Pg."
		}
		d := dtPlace{tag: tg}
		kind := rapid.IntRange(0, 9).Draw(t, "kind")
		switch {
		case kind == 0:
			tg.Type = plc.BOOL
			d.typ, d.zero, d.size = gologix.CIPTypeBOOL, false, 1
		case kind == 1 && discover:
			// a string type of the user's, whose size the client knows from the listing
			n := rapid.SampledFrom([]int{4, 20, 82, 84, 200}).Draw(t, "strlen")
			tg.Type, tg.Tmpl = plc.STRUCT, &plc.Template{ID: uint16(0x300 + i), Handle: uint16(0x2000 + i), Name: fmt.Sprintf("STRING%d_%d", n, i), Size: (4 + n + 3) / 4 * 4,
				Members: []plc.Member{{Name: "LEN", Type: plc.DINT}, {Name: "DATA", Type: plc.SINT, Offset: 4, Count: n}}}
			d.typ, d.zero, d.size, d.max = gologix.CIPTypeSTRING, "", tg.Tmpl.Size, n
			kind, pre, tg.Program = 0, "", "" // no arrays, and listed with its type
		case kind <= 2:
			tg.Type, tg.Tmpl = plc.STRUCT, plc.StringTemplate
			d.typ, d.zero, d.size = gologix.CIPTypeSTRING, "", 88
		default:
			a := rapid.SampledFrom(atoms).Draw(t, "type")
			tg.Type = a.cip
			d.typ, d.zero, d.size = a.typ, a.zero, plc.AtomSize(a.cip)
		}
		if kind > 0 {
			switch rapid.IntRange(0, 4).Draw(t, "dims") {
			case 0, 1:
				tg.Dims = []int{rapid.SampledFrom([]int{1, 2, 9, 30, 300}).Draw(t, "dim")}
			case 2:
				tg.Dims = []int{3, 5}
			case 3:
				tg.Dims = []int{2, 3, 4}
			}
		}
		p.AddTag(tg)
		d.path, d.run = pre+name, 1
		if tg.Dims == nil {
			out = append(out, d)
			continue
		}
		d.base = d.path
		for k := 0; k < 2; k++ {
			e := d
			flat := 0
			e.idx = nil
			for _, m := range tg.Dims {
				x := rapid.IntRange(0, m-1).Draw(t, "ix")
				e.idx = append(e.idx, x)
				flat = flat*m + x
				e.run = m - x
			}
			e.path, e.off = e.base+idxText(e.idx), flat*e.size
			out = append(out, e)
		}
	}
	p.Programs = append(p.Programs, plc.Program{Name: "Pg", ID: 0x21})
	return out
}

func c26Set(t *rapid.T, p *plc.PLC, d dtPlace) {
	var v any
	switch d.zero.(type) {
	case bool:
		v = rapid.Bool().Draw(t, "bool")
	case string:
		if d.max > 0 {
			b := make([]byte, d.size)
			v := hx.GenString(t, "str", d.max)
			if rapid.Bool().Draw(t, "full") {
				v = (v + strings.Repeat("x", d.max))[:d.max]
			}
			b[0] = byte(len(v))
			copy(b[4:], v)
			p.Set(d.tag, d.off, b)
			return
		}
		v = hx.GenString(t, "str", 82)
	default:
		b := make([]byte, d.size)
		u := hx.GenBits(t, "bits")
		for i := range b {
			b[i] = byte(u >> (8 * i))
		}
		p.Set(d.tag, d.off, b)
		return
	}
	p.Set(d.tag, d.off, hx.EncodeAny(reflect.ValueOf(v)))
}

func (d dtPlace) value(p *plc.PLC) any {
	return decodeAtom(d.zero, p.Get(d.tag)[d.off:d.off+d.size])
}

func TestC26(t *testing.T) {
	rec := hx.For("C26")
	rec.Rule("one controller with scalar, string, boolean and 1-3 dimensional array tags of every elementary type, in the controller and in a program; one data table buffer; 6-24 steps of AddTag, AddTagRef, AddTags, AddTagGroup and AddTaggedStruct with arguments, RemoveTag, SyncTags, value changes and reads (typed, raw, collapsed), some naming tags that do not exist, with the wrong size, or refused once by the controller; then Close. Non-trivial when a read succeeded after a tag that the controller knew was removed and another was added")
	hx.Check(t, "C26", 6000, func(t *rapid.T) {
		p := shared.Get()
		discover := rapid.IntRange(0, 4).Draw(t, "discover") == 0
		places := c26World(t, p, discover)
		for _, d := range places {
			c26Set(t, p, d)
		}
		size := rapid.SampledFrom([]int{4000, 4000, 500, 300}).Draw(t, "connsize")
		c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = uint16(size) })
		defer c.Disconnect()
		if discover {
			if err := c.ListAllTags(0); err != nil {
				t.Fatalf("listing: %v", err)
			}
		}
		var buf *gologix.DataTableBuffer
		var model []*dtEntry
		expansions := map[string][]string{}
		desc := ""
		step := func(what string, f func() error) error {
			var err error
			if bad := hx.Within(opLimit, func() { err = f() }); bad != "" {
				t.Fatalf("%s: %s\nsteps: %s", what, bad, desc)
			}
			desc += fmt.Sprintf("%s=%v; ", what, err != nil)
			if e := p.TakeErrors(); len(e) != 0 {
				t.Fatalf("%s: malformed requests: %v\nsteps: %s", what, e, desc)
			}
			return err
		}
		refused := 0
		refuse := func(svc byte) {
			st := rapid.SampledFrom([]byte{0x02, 0x05, 0x0C, 0x10, 0xFF}).Draw(t, "status")
			p.Lock()
			defer p.Unlock()
			p.RejectTab = func(r *plc.Req) *plc.Reply {
				if r.Service != svc {
					return nil
				}
				p.RejectTab = nil
				refused++
				return &plc.Reply{Status: st}
			}
		}
		calm := func() { p.Lock(); p.RejectTab = nil; p.Unlock() }
		if err := step("new", func() (err error) { buf, err = c.NewDataTableBuffer(); return }); err != nil || buf == nil {
			t.Fatalf("a willing controller: NewDataTableBuffer gave %v", err)
		}
		// takes over the names the buffer added, in its order; want are the expected ones
		adopt := func(what string, want []*dtEntry) {
			tags := buf.Tags()
			if len(tags) != len(model)+len(want) {
				t.Fatalf("%s: the buffer lists %d tags, expected %d\nsteps: %s", what, len(tags), len(model)+len(want), desc)
			}
			for i, m := range model {
				if tags[i].Name != m.name {
					t.Fatalf("%s: tag %d of the buffer is %q, expected %q\nsteps: %s", what, i, tags[i].Name, m.name, desc)
				}
			}
			for _, tg := range tags[len(model):] {
				found := -1
				for k, w := range want {
					if w.name == tg.Name {
						found = k
					}
				}
				if found < 0 {
					t.Fatalf("%s: the buffer lists %q, which was not added\nsteps: %s", what, tg.Name, desc)
				}
				model = append(model, want[found])
				want = append(want[:found], want[found+1:]...)
			}
		}
		pick := func() dtPlace { return rapid.SampledFrom(places).Draw(t, "place") }
		cased := func(s string) string { return hx.RandCase(t, s, "case") }
		has := func(name string) bool {
			for _, m := range model {
				if m.name == name {
					return true
				}
			}
			return false
		}
		removed, addedAfter, good := false, false, false
		steps := rapid.IntRange(6, 24).Draw(t, "steps")
		for s := 0; s < steps; s++ {
			op := rapid.SampledFrom([]string{"add", "add", "ref", "tags", "group", "struct", "remove", "remove", "sync", "set", "read", "read", "read", "raw", "typed", "badadd"}).Draw(t, "op")
			if s == steps-1 {
				op = rapid.SampledFrom([]string{"read", "typed"}).Draw(t, "last")
			}
			spoiled := -1
			for i, m := range model {
				if m.bad {
					spoiled = i
				}
			}
			if len(model) == 0 && rapid.IntRange(0, 5).Draw(t, "empty") != 0 {
				op = rapid.SampledFrom([]string{"add", "ref", "tags", "group", "struct"}).Draw(t, "op2")
			} else if spoiled >= 0 && rapid.IntRange(0, 2).Draw(t, "repair") != 0 {
				op = "remove"
			} else {
				spoiled = -1
			}
			var err error
			switch op {
			case "add":
				d := pick()
				e := &dtEntry{dtPlace: d, name: cased(d.path)}
				typ := d.typ
				switch rapid.IntRange(0, 11).Draw(t, "fault") {
				case 0:
					e.name, e.bad = "Missing"+fmt.Sprint(s), true
				case 1:
					if d.size != 4 { // a type of another size
						typ, e.bad = gologix.CIPTypeDINT, true
					}
				}
				if err = step("AddTag("+e.name+","+typ.String()+")", func() error { return buf.AddTag(e.name, typ) }); err != nil {
					t.Fatalf("AddTag(%q, %v): %v", e.name, typ, err)
				}
				adopt("AddTag", []*dtEntry{e})
			case "badadd":
				d := pick()
				name, typ := d.path, d.typ
				switch rapid.IntRange(0, 3).Draw(t, "bad") {
				case 0:
					name = rapid.SampledFrom([]string{"", "A..B", "A[x]", ".A"}).Draw(t, "badname")
					err = step("AddTag(bad name)", func() error { return buf.AddTag(name, typ) })
				case 1:
					err = step("AddTag(bad type)", func() error { return buf.AddTag(name, gologix.CIPTypeUnknown) })
				case 2:
					m := map[string]gologix.CIPType{name: typ, "Bad..X": gologix.CIPTypeDINT}
					for k := rapid.IntRange(0, 12).Draw(t, "good"); k > 0; k-- {
						d := pick()
						m[d.path] = d.typ
					}
					err = step("AddTags(one bad name)", func() error { return buf.AddTags(m) })
				case 3:
					g := gologix.NewTagGroup(gologix.TagDef{Name: name, Type: typ}, gologix.TagDef{Name: "Bad..X[0]", Type: gologix.CIPTypeDINT, Elements: 2})
					err = step("AddTagGroup(one bad name)", func() error { return buf.AddTagGroup(g) })
				}
				if err == nil {
					t.Fatalf("adding an impossible tag succeeded\nsteps: %s", desc)
				}
				adopt("refused add", nil)
			case "ref":
				d := pick()
				e := &dtEntry{dtPlace: d, name: cased(d.path), ref: reflect.New(reflect.TypeOf(d.zero))}
				if err = step("AddTagRef("+e.name+")", func() error { return buf.AddTagRef(e.name, e.ref.Interface()) }); err != nil {
					t.Fatalf("AddTagRef(%q, %T): %v", e.name, e.ref.Interface(), err)
				}
				adopt("AddTagRef", []*dtEntry{e})
			case "tags":
				m := map[string]gologix.CIPType{}
				var want []*dtEntry
				for k := rapid.IntRange(0, 6).Draw(t, "n"); k > 0; k-- {
					d := pick()
					d = d.elem(rapid.IntRange(0, min(d.run-1, 3)).Draw(t, "shift"))
					if _, dup := m[d.path]; !dup {
						m[d.path] = d.typ
						want = append(want, &dtEntry{dtPlace: d, name: d.path})
					}
				}
				if err = step(fmt.Sprintf("AddTags(%v)", m), func() error { return buf.AddTags(m) }); err != nil {
					t.Fatalf("AddTags(%v): %v", m, err)
				}
				adopt("AddTags", want)
			case "group", "struct":
				var defs []gologix.TagDef
				var fields []reflect.StructField
				var want []*dtEntry
				var args []any
				newExp := map[string][]string{}
				seen := map[string]bool{}
				n := rapid.IntRange(1, 4).Draw(t, "defs")
				type plan struct {
					d     dtPlace
					count int
					names []string
				}
				var plans []plan
				for k := 0; k < n; k++ {
					d := pick()
					limit := min(d.run, 12)
					if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
						limit = d.run
					}
					count := rapid.IntRange(1, limit).Draw(t, "count")
					clash := false
					for j := 0; j < count; j++ {
						clash = clash || seen[d.elem(j).path]
					}
					if clash {
						continue
					}
					name := d.path
					whole := d.idx != nil && len(d.idx) == 1 && d.idx[0] == 0 && count > 1 && rapid.Bool().Draw(t, "whole")
					if whole {
						name = d.base
					}
					tmpl := name
					if !whole && d.idx != nil && rapid.Bool().Draw(t, "arg") && len(args) < 12 {
						ix := fmt.Sprint(d.idx[0])
						tmpl = d.base + "[" + fmt.Sprintf("{%d}", len(args)) + strings.TrimPrefix(name, d.base+"["+ix)
						if rapid.Bool().Draw(t, "argtext") {
							args = append(args, ix)
						} else {
							args = append(args, d.idx[0])
						}
					}
					var names []string
					for j := 0; j < count; j++ {
						seen[d.elem(j).path] = true
						names = append(names, d.elem(j).path)
					}
					newExp[name] = names
					defs = append(defs, gologix.TagDef{Name: tmpl, Type: d.typ, Elements: count})
					ft := reflect.TypeOf(d.zero)
					if count > 1 || d.idx != nil && rapid.IntRange(0, 3).Draw(t, "slice1") == 0 {
						if _, isbool := d.zero.(bool); !isbool {
							ft = reflect.SliceOf(ft)
						}
					}
					fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", k), Type: ft, Tag: reflect.StructTag(fmt.Sprintf(`gologix:"%s"`, tmpl))})
					plans = append(plans, plan{d, count, names})
				}
				if op == "group" {
					g := gologix.NewTagGroup(defs...)
					for _, pl := range plans {
						for j, nm := range pl.names {
							want = append(want, &dtEntry{dtPlace: pl.d.elem(j), name: nm})
						}
					}
					err = step(fmt.Sprintf("AddTagGroup(%v,%v)", defs, args), func() error { return buf.AddTagGroup(g, args...) })
				} else {
					st := reflect.New(reflect.StructOf(fields))
					for k, pl := range plans {
						f := st.Elem().Field(k)
						if f.Kind() == reflect.Slice {
							f.Set(reflect.MakeSlice(f.Type(), pl.count, pl.count))
						}
						for j, nm := range pl.names {
							ref := f.Addr()
							if f.Kind() == reflect.Slice {
								ref = f.Index(j).Addr()
							}
							want = append(want, &dtEntry{dtPlace: pl.d.elem(j), name: nm, ref: ref})
						}
					}
					err = step(fmt.Sprintf("AddTaggedStruct(%v,%v)", st.Elem().Type(), args), func() error { return buf.AddTaggedStruct(st.Interface(), args...) })
				}
				if err != nil {
					t.Fatalf("%v\nsteps: %s", err, desc)
				}
				for b, ns := range newExp {
					expansions[b] = ns
				}
				adopt(op, want)
			case "remove":
				if len(model) == 0 || spoiled < 0 && rapid.IntRange(0, 8).Draw(t, "unknown") == 0 {
					if err = step("RemoveTag(unknown)", func() error { return buf.RemoveTag("NotThere") }); err == nil {
						t.Fatalf("removing a tag that is not registered succeeded\nsteps: %s", desc)
					}
					adopt("refused removal", nil)
					break
				}
				name := model[rapid.IntRange(0, len(model)-1).Draw(t, "which")].name
				if spoiled >= 0 {
					name = model[spoiled].name
				}
				k := 0
				for model[k].name != name {
					k++
				}
				if rapid.IntRange(0, 5).Draw(t, "refuse") == 0 {
					refuse(0x4F)
				}
				before := refused
				err = step("RemoveTag("+name+")", func() error { return buf.RemoveTag(name) })
				calm()
				if refused != before {
					rec.Class("removal refused")
					if err == nil {
						t.Fatalf("the controller refused to remove %q and RemoveTag reports success\nsteps: %s", name, desc)
					}
					adopt("refused removal", nil)
					break
				}
				if err != nil {
					t.Fatalf("RemoveTag(%q): %v\nsteps: %s", name, err, desc)
				}
				removed = removed || model[k].sync
				if !model[k].sync {
					rec.Class("removed before it was sent")
				}
				model = append(model[:k:k], model[k+1:]...)
				if !has(name) {
					for b, ns := range expansions {
						for _, n := range ns {
							if n == name {
								delete(expansions, b)
							}
						}
					}
				}
				adopt("RemoveTag", nil)
			case "set":
				if len(model) > 0 && rapid.Bool().Draw(t, "registered") {
					c26Set(t, p, model[rapid.IntRange(0, len(model)-1).Draw(t, "which")].dtPlace)
				} else {
					c26Set(t, p, pick())
				}
				desc += "set; "
			default:
				bad, pending, total := false, false, 0
				for _, m := range model {
					bad = bad || m.bad
					pending = pending || !m.sync
					total += m.size + 2
				}
				if op == "sync" || rapid.IntRange(0, 7).Draw(t, "refuse") == 0 {
					switch rapid.IntRange(0, 3).Draw(t, "svc") {
					case 0:
						refuse(0x4E)
					case 1:
						refuse(0x4C)
					}
				}
				before := refused
				var vals map[string]any
				var raws map[string][]byte
				var res *gologix.TagGroupResult
				for _, m := range model {
					if m.ref.IsValid() {
						m.ref.Elem().Set(reflect.Zero(m.ref.Elem().Type()))
					}
				}
				err = step(op, func() (err error) {
					switch op {
					case "sync":
						err = buf.SyncTags()
					case "read":
						vals, err = buf.ReadAll()
					case "raw":
						raws, err = buf.ReadAllRaw()
					case "typed":
						res, err = buf.ReadAllTyped()
					}
					return
				})
				calm()
				adopt(op, nil)
				if refused != before || bad {
					if refused != before {
						rec.Class(op + " refused once")
					}
					if err == nil {
						t.Fatalf("%s reports success although the controller refused; bad tags: %v\nsteps: %s", op, bad, desc)
					}
					break
				}
				if err != nil {
					if op != "sync" && (len(model) == 0 || total+6 > size) {
						rec.Class("nothing to read or too much")
						break
					}
					t.Fatalf("%s: %v\nsteps: %s", op, err, desc)
				}
				for _, m := range model {
					m.sync = true
				}
				// what the controller holds now
				slots, ok := p.TableSlots(buf.InstanceID())
				if !ok || len(slots) != len(model) {
					t.Fatalf("after %s the controller has %d tags in the table, registered are %d\nsteps: %s", op, len(slots), len(model), desc)
				}
				for i, tg := range buf.Tags() {
					if slots[tg.Index()] != model[i].key() {
						t.Fatalf("after %s tag %q has number %d, where the controller has %q\nsteps: %s", op, tg.Name, tg.Index(), slots[tg.Index()], desc)
					}
				}
				if op == "sync" {
					break
				}
				good = true
				if removed && pending {
					addedAfter = true
				}
				for _, m := range model {
					if op != "raw" && m.ref.IsValid() && !sameVal(m.value(p), m.ref.Elem().Interface()) {
						t.Fatalf("%s left %v in the variable for %q, the controller has %v\nsteps: %s", op, m.ref.Elem().Interface(), m.name, m.value(p), desc)
					}
				}
				all := map[string]any{}
				for _, m := range model {
					all[m.name] = m.value(p)
				}
				switch op {
				case "raw":
					if len(raws) != len(all) {
						t.Fatalf("%s gave %d values, registered are %d\nsteps: %s", op, len(raws), len(all), desc)
					}
					for _, m := range model {
						if want := p.Get(m.tag)[m.off : m.off+m.size]; string(raws[m.name]) != string(want) {
							t.Fatalf("%s gave %x for %q, the controller has %x\nsteps: %s", op, raws[m.name], m.name, want, desc)
						}
					}
				case "read":
					if len(vals) != len(all) {
						t.Fatalf("%s gave %d values, registered are %d: %v\nsteps: %s", op, len(vals), len(all), vals, desc)
					}
					for n, want := range all {
						if !sameVal(want, vals[n]) {
							t.Fatalf("%s gave %T %v for %q, the controller has %T %v\nsteps: %s", op, vals[n], vals[n], n, want, want, desc)
						}
					}
				case "typed":
					raw := res.Raw()
					covered := map[string]bool{}
					var names []string
					for b := range expansions {
						names = append(names, b)
					}
					sort.Strings(names)
					for _, b := range names {
						var want any
						if len(expansions[b]) == 1 {
							want = all[expansions[b][0]]
						} else {
							var l []any
							for _, n := range expansions[b] {
								l = append(l, all[n])
							}
							want = l
							rec.Class("collapsed array")
						}
						for _, n := range expansions[b] {
							covered[n] = true
						}
						covered[b] = true
						if !sameVal(want, raw[b]) {
							t.Fatalf("%s gave %v for %q, the controller has %v\nsteps: %s", op, raw[b], b, want, desc)
						}
					}
					for n, want := range all {
						if !covered[n] && !sameVal(want, raw[n]) {
							t.Fatalf("%s gave %v for %q, the controller has %v\nsteps: %s", op, raw[n], n, want, desc)
						}
					}
					for n := range raw {
						if _, reg := all[n]; !reg && !covered[n] {
							t.Fatalf("%s gave %q, which is not registered\nsteps: %s", op, n, desc)
						}
					}
				}
			}
			rec.Class("op:" + op)
		}
		if len(model) > 255 {
			rec.Class("more than 255 tags")
		}
		refuseClose := rapid.IntRange(0, 7).Draw(t, "refuseclose") == 0
		if refuseClose {
			refuse(0x09)
		}
		if err := step("Close", buf.Close); (err != nil) != refuseClose {
			t.Fatalf("Close: %v, refused: %v\nsteps: %s", err, refuseClose, desc)
		}
		calm()
		if n := p.Tables(); !refuseClose && n != 0 {
			t.Fatalf("%d tables left on the controller after Close\nsteps: %s", n, desc)
		}
		if err := step("Close again", buf.Close); err != nil {
			t.Fatalf("closing again: %v\nsteps: %s", err, desc)
		}
		if err := step("ReadAll after Close", func() error { _, err := buf.ReadAll(); return err }); err == nil {
			t.Fatalf("reading a closed buffer succeeded\nsteps: %s", desc)
		}
		if err := step("AddTag after Close", func() error { return buf.AddTag(places[0].path, places[0].typ) }); err == nil {
			t.Fatalf("adding to a closed buffer succeeded\nsteps: %s", desc)
		}
		rec.Case(desc, good && addedAfter)
	})
}

// TestC26Services drives the services of the tables themselves, several tables
// at a time.
func TestC26Services(t *testing.T) {
	rec := hx.For("C26")
	hx.Check(t, "C26", 1500, func(t *rapid.T) {
		p := shared.Get()
		places := c26World(t, p, false)
		for _, d := range places {
			c26Set(t, p, d)
		}
		c := hx.Connected(t, p, nil)
		defer c.Disconnect()
		type table struct {
			id      uint16
			batches [][2]int // number given by the controller, place
			index   []uint16
			next    uint16
		}
		var tables []*table
		desc := ""
		call := func(what string, f func() error) error {
			var err error
			if bad := hx.Within(opLimit, func() { err = f() }); bad != "" {
				t.Fatalf("%s: %s\nsteps: %s", what, bad, desc)
			}
			desc += fmt.Sprintf("%s=%v; ", what, err != nil)
			if e := p.TakeErrors(); len(e) != 0 {
				t.Fatalf("%s: malformed requests: %v\nsteps: %s", what, e, desc)
			}
			return err
		}
		reads := 0
		for n := rapid.IntRange(3, 14).Draw(t, "steps"); n > 0; n-- {
			op := rapid.SampledFrom([]string{"new", "add", "add", "add", "read", "read", "remove", "delete", "set"}).Draw(t, "op")
			if len(tables) == 0 {
				op = "new"
			}
			var tb *table
			k := 0
			if op != "new" {
				k = rapid.IntRange(0, len(tables)-1).Draw(t, "table")
				tb = tables[k]
			}
			switch op {
			case "new":
				var id uint16
				if err := call("create", func() (err error) { id, err = c.CreateDataTableBuffer(); return }); err != nil {
					t.Fatalf("create: %v\nsteps: %s", err, desc)
				}
				if _, ok := p.TableSlots(id); !ok {
					t.Fatalf("create gave %#x, which does not exist\nsteps: %s", id, desc)
				}
				for _, o := range tables {
					if o.id == id {
						t.Fatalf("create gave %#x twice\nsteps: %s", id, desc)
					}
				}
				tables = append(tables, &table{id: id})
			case "set":
				c26Set(t, p, rapid.SampledFrom(places).Draw(t, "place"))
			case "add":
				i := rapid.IntRange(0, len(places)-1).Draw(t, "place")
				d := places[i]
				size := d.size
				if rapid.IntRange(0, 9).Draw(t, "wrongsize") == 0 {
					size++
				}
				var batch uint16
				err := call(fmt.Sprintf("add(%#x, %s)", tb.id, d.path), func() (err error) {
					batch, err = c.DataTableAddTag(tb.id, uint16(size), d.address(t))
					return
				})
				if (err != nil) != (size != d.size) {
					t.Fatalf("add of %s with size %d gave %v, its size is %d\nsteps: %s", d.path, size, err, d.size, desc)
				}
				if err == nil {
					tb.next++
					tb.batches, tb.index = append(tb.batches, [2]int{int(batch), i}), append(tb.index, tb.next)
				}
			case "remove":
				if len(tb.index) == 0 {
					break // the controller would note it
				}
				at := rapid.IntRange(0, len(tb.index)-1).Draw(t, "at")
				ix := tb.index[at]
				if err := call(fmt.Sprintf("remove(%#x, %d)", tb.id, ix), func() error { return c.DataTableRemoveTag(tb.id, ix) }); err != nil {
					t.Fatalf("remove: %v\nsteps: %s", err, desc)
				}
				tb.index, tb.batches = append(tb.index[:at:at], tb.index[at+1:]...), append(tb.batches[:at:at], tb.batches[at+1:]...)
			case "delete":
				if err := call(fmt.Sprintf("delete(%#x)", tb.id), func() error { return c.DeleteDataTableBuffer(tb.id) }); err != nil {
					t.Fatalf("delete: %v\nsteps: %s", err, desc)
				}
				if _, ok := p.TableSlots(tb.id); ok {
					t.Fatalf("table %#x still exists\nsteps: %s", tb.id, desc)
				}
				if err := call("read of what is deleted", func() error { _, err := c.DataTableReadBuffer(tb.id); return err }); err == nil {
					t.Fatalf("a table that does not exist was read\nsteps: %s", desc)
				}
				tables = append(tables[:k:k], tables[k+1:]...)
			case "read":
				var it *gologix.CIPItem
				if err := call(fmt.Sprintf("read(%#x)", tb.id), func() (err error) { it, err = c.DataTableReadBuffer(tb.id); return }); err != nil {
					t.Fatalf("read: %v\nsteps: %s", err, desc)
				}
				var want []byte
				for _, b := range tb.batches {
					d := places[b[1]]
					want = append(want, byte(b[0]), byte(b[0]>>8))
					want = append(want, p.Get(d.tag)[d.off:d.off+d.size]...)
				}
				if got := it.Rest(); string(got) != string(want) {
					t.Fatalf("table %#x reads %x, should be %x\nsteps: %s", tb.id, got, want, desc)
				}
				if len(want) > 0 {
					reads++
				}
			}
			for _, o := range tables {
				slots, ok := p.TableSlots(o.id)
				if !ok || len(slots) != len(o.index) {
					t.Fatalf("table %#x has %d tags (exists: %v), should have %d\nsteps: %s", o.id, len(slots), ok, len(o.index), desc)
				}
				for i, ix := range o.index {
					if want := places[o.batches[i][1]].key(); slots[ix] != want {
						t.Fatalf("tag %d of table %#x is %s, should be %s\nsteps: %s", ix, o.id, slots[ix], want, desc)
					}
				}
			}
		}
		rec.Case("services: "+desc, reads > 0 && len(tables) > 0, "services")
	})
}

// address is the path of the place, as a request holds it.
func (d dtPlace) address(t *rapid.T) []byte {
	var r raw.Tag
	if d.tag.Program != "" {
		r = append(r, raw.Seg{Name: "Program:" + d.tag.Program})
	}
	r = append(r, raw.Seg{Name: d.tag.Name, Index: d.idx})
	return r.Path(rapid.IntRange(0, 2).Draw(t, "wide"))
}
