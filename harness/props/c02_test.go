package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// structures with boolean arrays have no agreed handle, so they are not written
var c02World = hx.WorldOpts{MinTags: 1, MaxTags: 5, Structs: true, Strings: true, Bools: false, Programs: true, BigIndex: true,
	StructOpts: hx.StructOpts{Depth: 2, Arrays: true, MaxFields: 8}}

// diffOutside compares memory apart from one region.
func diffOutside(before, after map[string][]byte, key string, off, n int) string {
	for name, b := range before {
		a := after[name]
		if len(a) != len(b) {
			return name + " changed size"
		}
		for i := range b {
			if a[i] != b[i] && !(name == key && i >= off && i < off+n) {
				return fmt.Sprintf("%s byte %d changed from %#x to %#x", name, i, b[i], a[i])
			}
		}
	}
	return ""
}

func tagKey(t *plc.Tag) string { return strings.ToLower(t.Program) + "/" + strings.ToLower(t.Name) }

// packedMask tells which bits of a structure's bytes belong to members.
func structMask(st reflect.Type) []byte {
	v := reflect.New(st).Elem()
	setAll(v)
	return hx.EncodeAny(v)
}

func setAll(v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(-1)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(1<<(8*v.Type().Size()) - 1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			setAll(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			setAll(v.Index(i))
		}
	case reflect.Float32, reflect.Float64:
		v.SetFloat(1)
	}
}

func checkWriteRequests(t *rapid.T, what string, log []*plc.Req, v hx.Var, n int, want []byte) {
	writes := 0
	path := plc.CanonText(v.Path)
	for _, r := range log {
		if r.Service == 0x0E || r.Service == 0x01 {
			continue
		}
		if r.Service != 0x4D {
			t.Fatalf("%s sent %v", what, r)
		}
		writes++
		if got := plc.SegsString(r.Path); got != path {
			t.Fatalf("%s addressed %s, want %s", what, got, path)
		}
	}
	if writes != 1 {
		t.Fatalf("%s sent %d write requests", what, writes)
	}
}

func TestC02(t *testing.T) {
	rec := hx.For("C02")
	rec.Rule("one generated controller and 1-8 Write calls of scalars, strings, slices and structures to tags, elements and members, each checked against the whole controller memory and read back; non-trivial when a write changed memory")
	rec.Assume("the model controller refuses writes whose type code, structure handle, element count or data length do not match, like a Logix controller")
	hx.Check(t, "C02", 4500, func(t *rapid.T) {
		p := shared.Get()
		w := hx.GenWorld(t, p, c02World)
		c := hx.Connected(t, p, nil)
		defer c.Disconnect()
		desc := ""
		nontrivial := false
		k := rapid.IntRange(1, 8).Draw(t, "writes")
		for i := 0; i < k; i++ {
			v := rapid.SampledFrom(w.Vars).Draw(t, "var")
			n := 1
			slice := false
			if v.Type.Kind() != reflect.Struct && v.Type.Kind() != reflect.Bool && rapid.Bool().Draw(t, "slice") {
				n = genCount(t, v)
				if n*v.ESize > 3600 {
					n = 3600 / v.ESize
				}
				slice = true
			}
			var val reflect.Value
			if slice {
				val = reflect.MakeSlice(reflect.SliceOf(v.Type), n, n)
				m := n
				if m > 30 {
					m = 30
				}
				for j := 0; j < m; j++ {
					hx.Fill(t, val.Index(j), "val")
				}
				for j := m; j < n; j++ {
					val.Index(j).Set(val.Index(j % m))
				}
			} else {
				val = reflect.New(v.Type).Elem()
				hx.Fill(t, val, "val")
			}
			path := hx.RandCase(t, v.Path, "case")
			want := hx.EncodeAny(val)
			before := p.Snapshot()
			p.TakeLog()
			what := fmt.Sprintf("Write(%q, %s)", path, hx.Short(fmt.Sprintf("%T(%v)", val.Interface(), val.Interface()), 300))
			var err error
			if bad := hx.Within(opLimit, func() { err = c.Write(path, val.Interface()) }); bad != "" {
				t.Fatalf("%s: %s", what, bad)
			}
			log := p.TakeLog()
			if err != nil && len(want) > 3600 { // more than one request takes
				if d := diffOutside(before, p.Snapshot(), "", 0, 0); d != "" {
					t.Fatalf("%s failed but %s", what, d)
				}
				rec.Class("too large")
				continue
			}
			if err != nil {
				t.Fatalf("%s failed: %v; controller noted %v", what, err, p.TakeErrors())
			}
			after := p.Snapshot()
			got := w.Image(v, n)
			if len(want) > len(got) {
				want = want[:len(got)]
			}
			if v.CIP == plc.STRUCT && v.Type.Kind() == reflect.String {
				got, want = []byte(strings.Join(decodeStrings(got), "\x00")), []byte(strings.Join(decodeStrings(want), "\x00"))
			}
			if !bytes.Equal(got, want) {
				t.Fatalf("%s stored %x, want %x", what, got, want)
			}
			if v.Bit >= 0 {
				b := before[tagKey(v.Tag)][v.Off]
				a := after[tagKey(v.Tag)][v.Off]
				if (a^b)&^(1<<uint(v.Bit)) != 0 {
					t.Fatalf("%s changed byte %d of %s from %08b to %08b", what, v.Off, v.Tag.Name, b, a)
				}
			}
			if d := diffOutside(before, after, tagKey(v.Tag), v.Off, n*v.ESize); d != "" {
				t.Fatalf("%s: %s", what, d)
			}
			checkWriteRequests(t, what, log, v, n, want)
			how := "ptr"
			if slice {
				how = "slice"
			}
			back, _, err := readVar(c, v, n, how, v.Path)
			if err != nil {
				t.Fatalf("reading back after %s: %v", what, err)
			}
			img := w.Image(v, n)
			if len(back) > len(img) {
				back = back[:len(img)]
			}
			if v.Type.Kind() == reflect.String {
				back, img = []byte(strings.Join(decodeStrings(back), "\x00")), []byte(strings.Join(decodeStrings(img), "\x00"))
			}
			if !bytes.Equal(back, img) {
				t.Fatalf("reading back after %s gave %x, memory is %x", what, back, img)
			}
			if !bytes.Equal(before[tagKey(v.Tag)], after[tagKey(v.Tag)]) {
				nontrivial = true
			}
			desc += fmt.Sprintf("%s=%.60x; ", v.Path, want)
			cl := v.Class
			if slice {
				cl += " slice"
			}
			rec.Class("class:" + cl)
		}
		if e := p.TakeErrors(); e != nil {
			t.Fatalf("malformed requests: %v", e)
		}
		rec.Case(desc, nontrivial)
	})
}

func decodeStrings(b []byte) []string {
	var out []string
	for len(b) >= 88 {
		out = append(out, plc.DecodeString(b[:88]))
		b = b[88:]
	}
	return out
}

// Writes that cannot be carried out fail and change nothing.
func TestC02Refuse(t *testing.T) {
	rec := hx.For("C02")
	rec.Rule("a write of a value that does not suit the tag (type, element count, text too long, structure of another type, unsupported Go value): must fail and leave all memory unchanged; non-trivial always")
	hx.Check(t, "C02", 2400, func(t *rapid.T) {
		p := shared.Get()
		w := hx.GenWorld(t, p, c02World)
		c := hx.Connected(t, p, nil)
		defer c.Disconnect()
		v := rapid.SampledFrom(w.Vars).Draw(t, "var")
		path := v.Path
		var val any
		kind := rapid.SampledFrom([]string{"type", "count", "longstring", "longstrings", "struct", "unsupported", "unknown", "pointer", "bit"}).Draw(t, "kind")
		switch kind {
		case "type":
			o := rapid.SampledFrom([]any{int8(1), int16(2), int32(3), int64(4), uint8(5), uint16(6), uint32(7), uint64(8), float32(9), float64(10), true, "text"}).Draw(t, "val")
			if reflect.TypeOf(o) == v.Type {
				t.Skip("suitable type")
			}
			val = o
		case "count":
			if v.Type.Kind() == reflect.Struct || v.Type.Kind() == reflect.Bool {
				t.Skip("count")
			}
			n := v.Avail + rapid.IntRange(1, 3).Draw(t, "over")
			if n*v.ESize > 3700 {
				t.Skip("count")
			}
			val = reflect.MakeSlice(reflect.SliceOf(v.Type), n, n).Interface()
		case "longstring", "longstrings":
			n := rapid.SampledFrom([]int{83, 84, 85, 86, 88, 90, 200, 1000}).Draw(t, "len")
			s := strings.Repeat("x", n)
			val = s
			if kind == "longstrings" {
				val = []string{"ok", s}
				if v.Avail < 2 {
					val = []string{s}
				}
			}
			// the interesting target is a string tag
			for _, o := range w.Vars {
				if o.Type.Kind() == reflect.String {
					path, v = o.Path, o
				}
			}
		case "struct":
			st := hx.GenStruct(t, hx.StructOpts{Depth: 1, PadTo4: true}, "other")
			if v.Type.Kind() == reflect.Struct && hx.Handle(st) == hx.Handle(v.Type) {
				t.Skip("same handle")
			}
			val = reflect.New(st).Elem().Interface()
		case "unsupported":
			val = rapid.SampledFrom([]any{nil, map[string]int{"a": 1}, []any{1, 2}, [2]int32{1, 2}, int(5), uint(6), complex(1, 2), []bool{true, false}, []int{1}, struct{ S string }{"x"}, struct{ P *int }{}}).Draw(t, "val")
		case "unknown":
			path = "zz" + path
			if rapid.Bool().Draw(t, "member") {
				path = v.Path + ".nothere"
			}
			for _, o := range w.Vars {
				if strings.EqualFold(o.Path, path) {
					t.Skip("exists")
				}
			}
			val = int32(1)
		case "bit":
			// a bit of an integer cannot be written on its own; the whole
			// integer must not be written in its place
			if v.CIP == plc.STRUCT || v.Type.Kind() == reflect.Bool || v.Bools {
				t.Skip("no integer")
			}
			path += "." + strconv.Itoa(rapid.IntRange(0, v.ESize*8-1).Draw(t, "bit"))
			val = rapid.SampledFrom([]any{true, false, reflect.Zero(v.Type).Interface(), reflect.ValueOf(1).Convert(v.Type).Interface()}).Draw(t, "bitval")
		case "pointer":
			x := reflect.New(v.Type)
			if v.Type.Kind() != reflect.Struct {
				t.Skip("pointers to scalars are accepted values")
			}
			val = x.Interface()
		}
		before := p.Snapshot()
		what := fmt.Sprintf("%s: Write(%q [%s, %d left], %s)", kind, path, v.Class, v.Avail, hx.Short(fmt.Sprintf("%T(%v)", val, val), 200))
		var err error
		if bad := hx.Within(opLimit, func() { err = c.Write(path, val) }); bad != "" {
			t.Fatalf("%s: %s", what, bad)
		}
		if err == nil {
			t.Fatalf("%s reported success", what)
		}
		if d := diffOutside(before, p.Snapshot(), "", 0, 0); d != "" {
			t.Fatalf("%s: %s", what, d)
		}
		rec.Case(what, true, "refuse:"+kind)
		o := rapid.SampledFrom(w.Vars).Draw(t, "after")
		if o.Type.Kind() == reflect.Struct {
			return
		}
		img, _, err := readVar(c, o, 1, "ptr", o.Path)
		if err != nil || !bytes.Equal(img, w.Image(o, 1)) {
			t.Fatalf("after %s, %q reads %x (%v)", what, o.Path, img, err)
		}
	})
}

// Structures of declared types carry their own name in the handle, and the
// predefined ones their predefined handle.
type c02Recipe struct {
	Speed  float32
	Counts [3]int16
	Run    bool
	Hold   bool
	Code   int64
}

func TestC02Named(t *testing.T) {
	rec := hx.For("C02")
	hx.Check(t, "C02", 300, func(t *rapid.T) {
		p := shared.Get()
		st := reflect.TypeOf(c02Recipe{})
		tag := p.AddTag(&plc.Tag{Name: "rec", Type: plc.STRUCT, Tmpl: hx.TemplateOf(st, "c02Recipe", 0x200)})
		c := hx.Connected(t, p, nil)
		defer c.Disconnect()
		var v c02Recipe
		hx.Fill(t, reflect.ValueOf(&v).Elem(), "v")
		if err := c.Write("rec", v); err != nil {
			t.Fatalf("writing %+v: %v", v, err)
		}
		if want := hx.EncodeAny(reflect.ValueOf(v)); !bytes.Equal(p.Get(tag), want) {
			t.Fatalf("stored %x, want %x", p.Get(tag), want)
		}
		back, err := gologix.ReadPacked[c02Recipe](c, "rec")
		if err != nil || back != v {
			t.Fatalf("read back %+v (%v), want %+v", back, err, v)
		}
		rec.Case(fmt.Sprintf("named %+v", v), true, "named")
	})
}
