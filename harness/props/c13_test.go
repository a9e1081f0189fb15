package props

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// bitTag is a place holding an integer.
type bitTag struct {
	path string
	cip  byte
	tag  *plc.Tag
	off  int
	w    int // bits
}

var bitTypes = []byte{plc.SINT, plc.INT, plc.DINT, plc.LINT, plc.USINT, plc.UINT, plc.UDINT, plc.ULINT, plc.BYTE, plc.WORD, plc.DWORD, plc.LWORD}

func c13World(t *rapid.T, p *plc.PLC) []bitTag {
	var out []bitTag
	n := rapid.IntRange(1, 4).Draw(t, "tags")
	fill := func(tg *plc.Tag) {
		p.AddTag(tg)
		b := make([]byte, len(p.Get(tg)))
		r := rand.New(rand.NewSource(int64(rapid.Uint32().Draw(t, "fill"))))
		mode := rapid.IntRange(0, 3).Draw(t, "mode")
		for i := range b {
			switch mode {
			case 0:
				b[i] = byte(r.Intn(256))
			case 1:
				b[i] = 0xFF
			case 2:
				b[i] = byte(1 << r.Intn(8))
			case 3:
				b[i] = ^byte(1 << r.Intn(8))
			}
		}
		p.Set(tg, 0, b)
	}
	for i := 0; i < n; i++ {
		ty := rapid.SampledFrom(bitTypes).Draw(t, "type")
		sz := plc.AtomSize(ty)
		name := fmt.Sprintf("%s%d", hx.GenName(t, "name"), i)
		prog, pre := "", ""
		if rapid.IntRange(0, 4).Draw(t, "inprog") == 0 {
			prog, pre = "Pg", "Program:Pg."
		}
		switch rapid.IntRange(0, 3).Draw(t, "shape") {
		case 0:
			tg := &plc.Tag{Name: name, Type: ty, Program: prog}
			fill(tg)
			out = append(out, bitTag{pre + name, ty, tg, 0, sz * 8})
		case 1:
			tg := &plc.Tag{Name: name, Type: ty, Dims: []int{rapid.SampledFrom([]int{1, 3, 40, 300}).Draw(t, "dim")}, Program: prog}
			fill(tg)
			for k := 0; k < 2; k++ {
				x := rapid.IntRange(0, tg.Dims[0]-1).Draw(t, "x")
				out = append(out, bitTag{fmt.Sprintf("%s%s[%d]", pre, name, x), ty, tg, x * sz, sz * 8})
			}
		case 2:
			tg := &plc.Tag{Name: name, Type: ty, Dims: []int{3, 4}, Program: prog}
			fill(tg)
			x, y := rapid.IntRange(0, 2).Draw(t, "x"), rapid.IntRange(0, 3).Draw(t, "y")
			out = append(out, bitTag{fmt.Sprintf("%s%s[%d,%d]", pre, name, x, y), ty, tg, (x*4 + y) * sz, sz * 8})
		case 3:
			tm := &plc.Template{ID: uint16(0x200 + i), Handle: uint16(0x1000 + i), Name: fmt.Sprintf("U%d", i), Size: 48, Members: []plc.Member{
				{Name: "pad", Type: plc.LINT}, {Name: "v", Type: ty, Offset: 8}, {Name: "arr", Type: ty, Offset: 16, Count: 3}}}
			tg := &plc.Tag{Name: name, Type: plc.STRUCT, Tmpl: tm, Program: prog}
			fill(tg)
			out = append(out, bitTag{pre + name + ".v", ty, tg, 8, sz * 8})
			x := rapid.IntRange(0, 2).Draw(t, "x")
			out = append(out, bitTag{fmt.Sprintf("%s%s.arr[%d]", pre, name, x), ty, tg, 16 + x*sz, sz * 8})
		}
	}
	p.Programs = append(p.Programs, plc.Program{Name: "Pg", ID: 0x21})
	return out
}

func (b bitTag) bit(p *plc.PLC, n int) bool {
	d := p.Get(b.tag)[b.off:]
	return d[n/8]>>(n%8)&1 == 1
}

func (b bitTag) value(p *plc.PLC) uint64 {
	d := append(p.Get(b.tag)[b.off:b.off+b.w/8], make([]byte, 8)...)
	return binary.LittleEndian.Uint64(d)
}

type bitReq struct {
	b    bitTag
	n    int // -1: the integer itself
	path string
}

// asUint widens any integer.
func asUint(v any) (uint64, bool) {
	r := reflect.ValueOf(v)
	switch {
	case !r.IsValid():
		return 0, false
	case r.CanInt():
		return uint64(r.Int()), true
	case r.CanUint():
		return r.Uint(), true
	}
	return 0, false
}

func (q bitReq) check(p *plc.PLC, got any, how string) string {
	if q.n < 0 {
		u, ok := asUint(got)
		mask := ^uint64(0)
		if q.b.w < 64 {
			mask = 1<<uint(q.b.w) - 1
		}
		if !ok || u&mask != q.b.value(p) {
			return fmt.Sprintf("%s of %q (type %#x, holding %#x) gave %T %v", how, q.path, q.b.cip, q.b.value(p), got, got)
		}
		return ""
	}
	x, ok := got.(bool)
	if !ok {
		return fmt.Sprintf("%s of %q (type %#x) gave %T %v, not a boolean", how, q.path, q.b.cip, got, got)
	}
	if want := q.b.bit(p, q.n); x != want {
		return fmt.Sprintf("%s of %q (type %#x, holding %#x) gave %v, the bit is %v", how, q.path, q.b.cip, q.b.value(p), got, want)
	}
	return ""
}

// goType of the integer as the library reads it.
var c13Go = map[byte]any{plc.SINT: int8(0), plc.INT: int16(0), plc.DINT: int32(0), plc.LINT: int64(0), plc.USINT: uint8(0), plc.UINT: uint16(0),
	plc.UDINT: uint32(0), plc.ULINT: uint64(0), plc.BYTE: uint8(0), plc.WORD: uint16(0), plc.DWORD: uint32(0), plc.LWORD: uint64(0)}

var c13CIP = map[byte]gologix.CIPType{plc.SINT: gologix.CIPTypeSINT, plc.INT: gologix.CIPTypeINT, plc.DINT: gologix.CIPTypeDINT, plc.LINT: gologix.CIPTypeLINT,
	plc.USINT: gologix.CIPTypeUSINT, plc.UINT: gologix.CIPTypeUINT, plc.UDINT: gologix.CIPTypeUDINT, plc.ULINT: gologix.CIPTypeULINT,
	plc.BYTE: gologix.CIPTypeBYTE, plc.WORD: gologix.CIPTypeWORD, plc.DWORD: gologix.CIPTypeDWORD, plc.LWORD: gologix.CIPTypeLWORD}

func TestC13(t *testing.T) {
	rec := hx.For("C13")
	rec.Rule("one controller with integers of all 12 types as tags, elements and members; 2-10 steps of single bit reads (Read into bool or any, Read_single, a map entry without a type; names reused in other ways) and batches (map, list, struct) mixing bits, repeated names, whole integers and bits the integer does not have, with values changing in between; non-trivial when a bit that is set and one that is clear were read")
	hx.Check(t, "C13", 3000, func(t *rapid.T) {
		p := shared.Get()
		tags := c13World(t, p)
		c := hx.Connected(t, p, nil)
		defer c.Disconnect()
		if rapid.IntRange(0, 3).Draw(t, "discover") == 0 {
			if err := c.ListAllTags(0); err != nil {
				t.Fatalf("ListAllTags: %v", err)
			}
			rec.Class("after listing")
		}
		var prev []bitReq
		gen := func(valid bool) (q bitReq) {
			if valid {
				if len(prev) > 0 && rapid.IntRange(0, 2).Draw(t, "again") == 0 { // a name used before, maybe in another way
					return rapid.SampledFrom(prev).Draw(t, "prev")
				}
				defer func() { prev = append(prev, q) }()
			}
			b := rapid.SampledFrom(tags).Draw(t, "tag")
			n := rapid.IntRange(0, b.w-1).Draw(t, "bit")
			if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
				n = rapid.SampledFrom([]int{0, b.w - 1, b.w / 2, 7}).Draw(t, "edgebit")
			}
			if !valid {
				n = rapid.SampledFrom([]int{b.w, b.w + 1, 2 * b.w, 63, 64, 65, 100, 255, 256}).Draw(t, "badbit")
				if n < b.w {
					n = b.w
				}
			}
			return bitReq{b, n, hx.RandCase(t, fmt.Sprintf("%s.%d", b.path, n), "case")}
		}
		var set, clear bool
		note := func(q bitReq) {
			if q.n >= 0 && q.n < q.b.w {
				if q.b.bit(p, q.n) {
					set = true
				} else {
					clear = true
				}
			}
		}
		desc := ""
		for i, k := 0, rapid.IntRange(2, 10).Draw(t, "steps"); i < k; i++ {
			if rapid.IntRange(0, 3).Draw(t, "change") == 0 {
				b := rapid.SampledFrom(tags).Draw(t, "chtag")
				v := make([]byte, b.w/8)
				for j := range v {
					v[j] = rapid.Byte().Draw(t, "chv")
				}
				p.Set(b.tag, b.off, v)
			}
			before := p.Snapshot()
			how := rapid.SampledFrom([]string{"ptr", "ptr", "single", "any", "nilmap", "map", "list", "struct", "write", "badptr", "badmap", "badlist"}).Draw(t, "how")
			var bad string
			var err error
			switch how {
			case "ptr", "single", "any", "nilmap":
				q := gen(true)
				var got any
				bad = hx.Within(opLimit, func() {
					switch how {
					case "ptr":
						var x bool
						err = c.Read(q.path, &x)
						got = x
					case "any":
						err = c.Read(q.path, &got)
					case "nilmap":
						m := map[string]any{q.path: nil}
						err = c.ReadMap(m)
						got = m[q.path]
					default:
						got, err = c.Read_single(q.path, gologix.CIPTypeBOOL, 1)
					}
				})
				if bad == "" && err != nil {
					bad = fmt.Sprintf("%s of %q (type %#x): %v", how, q.path, q.b.cip, err)
				}
				if bad == "" {
					bad = q.check(p, got, how)
				}
				note(q)
				desc += fmt.Sprintf("%s %s %x; ", how, q.path, q.b.value(p))
			case "map", "list", "struct":
				var qs []bitReq
				seen := map[string]bool{}
				for j, n := 0, rapid.IntRange(1, 6).Draw(t, "n"); j < n; j++ {
					q := gen(true)
					if rapid.IntRange(0, 4).Draw(t, "whole") == 0 {
						q.n, q.path = -1, q.b.path
					}
					if seen[q.path] && how != "list" {
						continue
					}
					seen[q.path] = true
					qs = append(qs, q)
					note(q)
				}
				got := make([]any, len(qs))
				m := map[string]any{}
				var names []string
				var types []any
				var elems []int
				var fields []reflect.StructField
				for j, q := range qs {
					var z any = false
					if q.n < 0 {
						z = c13Go[q.b.cip]
					}
					m[q.path] = z
					names, types, elems = append(names, q.path), append(types, z), append(elems, 1)
					fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", j), Type: reflect.TypeOf(z), Tag: reflect.StructTag(fmt.Sprintf(`gologix:"%s"`, q.path))})
				}
				bad = hx.Within(opLimit, func() {
					switch how {
					case "map":
						err = c.ReadMap(m)
						for j := range qs {
							got[j] = m[qs[j].path]
						}
					case "list":
						var l []any
						l, err = c.ReadList(names, types, elems)
						if err == nil && len(l) != len(qs) {
							err = fmt.Errorf("%d results for %d tags", len(l), len(qs))
						}
						copy(got, l)
					case "struct":
						s := reflect.New(reflect.StructOf(fields))
						err = c.ReadMulti(s.Interface())
						for j := range qs {
							got[j] = s.Elem().Field(j).Interface()
						}
					}
				})
				if bad == "" && err != nil {
					bad = fmt.Sprintf("%s of %q: %v", how, names, err)
				}
				for j := range qs {
					if bad == "" {
						bad = qs[j].check(p, got[j], how)
					}
				}
				desc += fmt.Sprintf("%s %q; ", how, names)
			case "write":
				// a write to a bit either sets that bit alone or is refused
				q := gen(true)
				val := rapid.Bool().Draw(t, "val")
				asMap := rapid.Bool().Draw(t, "asmap")
				bad = hx.Within(opLimit, func() {
					if asMap {
						err = c.WriteMap(map[string]any{q.path: val})
					} else {
						err = c.Write(q.path, val)
					}
				})
				if bad == "" && err == nil && q.b.bit(p, q.n) != val {
					bad = fmt.Sprintf("writing %v to %q succeeded but the bit is %v", val, q.path, !val)
				}
				if bad == "" {
					after := p.Snapshot()
					if err == nil { // only that bit may differ
						k := tagKey(q.b.tag)
						m := after[k]
						m[q.b.off+q.n/8] = m[q.b.off+q.n/8]&^(1<<(q.n%8)) | before[k][q.b.off+q.n/8]&(1<<(q.n%8))
					}
					if d := diffOutside(before, after, "", 0, 0); d != "" {
						bad = fmt.Sprintf("writing %v to %q (%v): %s", val, q.path, err, d)
					}
				}
				before = p.Snapshot()
				rec.Class("bit write")
			default:
				q := gen(false)
				var got any
				bad = hx.Within(opLimit, func() {
					switch how {
					case "badptr":
						var x bool
						err = c.Read(q.path, &x)
						got = x
					case "badmap":
						m := map[string]any{q.path: false}
						err = c.ReadMap(m)
						got = m[q.path]
					case "badlist":
						g := gen(true)
						var l []any
						l, err = c.ReadList([]string{g.path, q.path}, []any{false, false}, []int{1, 1})
						got = l
					}
				})
				if bad == "" && err == nil {
					bad = fmt.Sprintf("%s of %q (an integer of %d bits) gave %v instead of an error", how, q.path, q.b.w, got)
				}
				desc += fmt.Sprintf("%s %s; ", how, q.path)
			}
			if bad != "" {
				t.Fatalf("%s\nsteps: %s", bad, desc)
			}
			if d := diffOutside(before, p.Snapshot(), "", 0, 0); d != "" {
				t.Fatalf("%s changed memory: %s", how, d)
			}
			for _, r := range p.TakeLog() {
				if r.Service == 0x4C || r.Service == 0x52 {
					if pl, ok := p.Resolve(r.Path); ok {
						found := false
						for _, b := range tags {
							found = found || pl.Tag == b.tag && pl.Off == b.off
						}
						if !found {
							t.Fatalf("%s addressed %s", how, plc.SegsString(r.Path))
						}
					}
				}
			}
			rec.Class("how:" + strings.TrimSpace(how))
		}
		rec.Case(desc, set && clear)
	})
}
