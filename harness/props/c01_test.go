package props

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// readBack performs one single-tag read of n elements of v by method how and
// returns the controller image of what came back.
func readVar(c *gologix.Client, v hx.Var, n int, how, path string) (img []byte, got any, err error) {
	switch how {
	case "ptr":
		x := reflect.New(v.Type)
		err = c.Read(path, x.Interface())
		return hx.EncodeAny(x.Elem()), x.Elem().Interface(), err
	case "any":
		var x any
		err = c.Read(path, &x)
		if err != nil {
			return nil, nil, err
		}
		if b, ok := x.([]byte); ok && v.CIP == plc.STRUCT {
			return b, x, nil
		}
		if reflect.TypeOf(x) != v.Type {
			return nil, x, fmt.Errorf("WRONGTYPE %T for %v", x, v.Type)
		}
		return hx.EncodeAny(reflect.ValueOf(x)), x, nil
	case "slice":
		x := reflect.MakeSlice(reflect.SliceOf(v.Type), n, n)
		err = c.Read(path, x.Interface())
		if x.Len() != n {
			return nil, x.Interface(), fmt.Errorf("WRONGTYPE slice length changed to %d", x.Len())
		}
		return hx.EncodeAny(x), x.Interface(), err
	case "bools":
		x := make([]bool, n*32)
		err = c.Read(path, x)
		return hx.PackBools(x), x, err
	case "single":
		var ct gologix.CIPType
		if v.Type.Kind() == reflect.Struct {
			ct = gologix.CIPTypeStruct
		} else {
			ct, _ = gologix.GoVarToCIPType(reflect.Zero(v.Type).Interface())
		}
		x, e := c.Read_single(path, ct, uint16(n))
		if e != nil {
			return nil, x, e
		}
		img, e = imageOfSingle(x, v, n)
		return img, x, e
	}
	panic(how)
}

// imageOfSingle turns a Read_single result into its controller image.
func imageOfSingle(x any, v hx.Var, n int) ([]byte, error) {
	one := func(e any) ([]byte, error) {
		if v.Type.Kind() == reflect.String {
			b, ok := e.([]byte)
			if !ok {
				return nil, fmt.Errorf("WRONGTYPE %T for a string", e)
			}
			return plc.EncodeString(string(b)), nil
		}
		if reflect.TypeOf(e) != v.Type {
			return nil, fmt.Errorf("WRONGTYPE %T for %v", e, v.Type)
		}
		return hx.EncodeAny(reflect.ValueOf(e)), nil
	}
	if v.Type.Kind() == reflect.Struct {
		b, ok := x.([]byte)
		if !ok {
			return nil, fmt.Errorf("WRONGTYPE %T for structure bytes", x)
		}
		return b, nil
	}
	if n == 1 {
		return one(x)
	}
	l, ok := x.([]any)
	if !ok || len(l) != n {
		return nil, fmt.Errorf("WRONGTYPE %T (%d elements wanted)", x, n)
	}
	var out []byte
	for _, e := range l {
		b, err := one(e)
		if err != nil {
			return nil, err
		}
		out = append(out, b...)
	}
	return out, nil
}

// readHows lists the single-tag read calls suitable for v.
func readHows(v hx.Var) []string {
	if v.Bools {
		return []string{"bools"}
	}
	if v.Type.Kind() == reflect.String {
		return []string{"ptr", "slice", "single"}
	}
	if v.Type.Kind() == reflect.Bool {
		return []string{"ptr", "single"}
	}
	return []string{"ptr", "ptr", "slice", "slice", "single", "any"}
}

func genCount(t *rapid.T, v hx.Var) int {
	max := v.Avail
	n := rapid.IntRange(1, max).Draw(t, "n")
	switch rapid.IntRange(0, 5).Draw(t, "nk") {
	case 0:
		n = max
	case 1:
		n = 1
	case 2:
		for _, e := range []int{257, 256, 255} {
			if e <= max {
				n = e
				break
			}
		}
	}
	if n > 65535 {
		n = 65535
	}
	return n
}

var c01World = hx.WorldOpts{MinTags: 1, MaxTags: 5, Structs: true, Strings: true, Bools: true, Programs: true, BigIndex: true, AltTypes: true,
	StructOpts: hx.StructOpts{Depth: 2, NoPack: true, BoolArrays: true, Arrays: true, MaxFields: 7}}

// needFragments: structured data that does not fit one reply may be refused.
func tooBigForStruct(v hx.Var, n int, c *gologix.Client) bool {
	return v.CIP == plc.STRUCT && n*v.ESize+16 > int(c.ConnectionSize)
}

func TestC01(t *testing.T) {
	rec := hx.For("C01")
	rec.Rule("one generated controller (1-5 tags: scalars, strings, arrays to 3 dimensions and 65600 elements, structures) and 1-8 single reads through Read(&x), Read(slice), Read(&any), Read_single; non-trivial when at least one value with a nonzero image was read and compared")
	rec.Assume("the model controller decodes requests strictly and answers like a Logix controller", "structure contents compared outside padding")
	hx.Check(t, "C01", 4500, func(t *rapid.T) {
		p := shared.Get()
		w := hx.GenWorld(t, p, c01World)
		size := rapid.SampledFrom([]uint16{4000, 4000, 511, 508, 504, 1000, 0}).Draw(t, "connsize")
		c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = size })
		defer c.Disconnect()
		before := p.Snapshot()
		nontrivial := false
		desc := ""
		k := rapid.IntRange(1, 8).Draw(t, "reads")
		var keep hx.Keeper
		for i := 0; i < k; i++ {
			v := rapid.SampledFrom(w.Vars).Draw(t, "var")
			how := rapid.SampledFrom(readHows(v)).Draw(t, "how")
			n := 1
			if how != "ptr" && how != "any" && v.Avail > 1 {
				n = genCount(t, v)
			}
			path := hx.RandCase(t, v.Path, "case")
			mutate := rapid.IntRange(0, 3).Draw(t, "mutate") == 0 && v.CIP != plc.STRUCT && !v.Bools && v.Type.Kind() != reflect.Bool
			if mutate { // the controller's value changes between reads
				x := reflect.New(v.Type).Elem()
				hx.Fill(t, x, "newv")
				p.Set(v.Tag, v.Off, hx.EncodeAny(x))
				before = p.Snapshot()
			}
			want := w.Image(v, n)
			p.TakeLog()
			var img []byte
			var got any
			var err error
			if bad := hx.Within(opLimit, func() { img, got, err = readVar(c, v, n, how, path) }); bad != "" {
				t.Fatalf("read %q (%s, %d elements of %v): %s", path, how, n, v.Type, bad)
			}
			log := p.TakeLog()
			desc += fmt.Sprintf("%s %s[%d] %v=%.40x; ", how, v.Path, n, hx.Short(v.Type.String(), 60), want)
			what := fmt.Sprintf("read %q by %s, %d elements of %s (controller type %#x, class %s)", path, how, n, hx.Short(v.Type.String(), 200), v.CIP, v.Class)
			if err != nil {
				if tooBigForStruct(v, n, c) && len(err.Error()) > 0 && !bytes.Contains([]byte(err.Error()), []byte("WRONGTYPE")) {
					rec.Class("structure array refused as too large")
					continue
				}
				t.Fatalf("%s failed: %v; controller noted %v", what, err, p.TakeErrors())
			}
			if v.CIP == plc.STRUCT && v.Type.Kind() == reflect.Struct && len(img) > len(want) {
				img = img[:len(want)]
			}
			if !bytes.Equal(img, want) {
				t.Fatalf("%s\n got %x (%v)\nwant %x", what, img, got, want)
			}
			for _, b := range want {
				if b != 0 {
					nontrivial = true
				}
			}
			checkReadRequests(t, what, log, v, n)
			keep.Keep(what, got)
			if m := keep.Changed(); m != "" {
				t.Fatalf("%s", m)
			}
			rec.Class("class:"+v.Class, "how:"+how)
		}
		if e := p.TakeErrors(); e != nil {
			t.Fatalf("malformed requests: %v", e)
		}
		after := p.Snapshot()
		for name, b := range before {
			if !bytes.Equal(b, after[name]) {
				t.Fatalf("reading changed %s", name)
			}
		}
		rec.Case(desc, nontrivial)
	})
}

// checkReadRequests: every request sent for the read names exactly the tag and count.
func checkReadRequests(t *rapid.T, what string, log []*plc.Req, v hx.Var, n int) {
	reads := 0
	want := plc.CanonText(v.Path)
	for _, r := range log {
		if r.Service == 0x0E || r.Service == 0x01 {
			continue // firmware query before the first tag access
		}
		if r.Service != 0x4C && r.Service != 0x52 {
			t.Fatalf("%s sent %v", what, r)
		}
		reads++
		if got := plc.SegsString(r.Path); got != want {
			t.Fatalf("%s addressed %s, want %s", what, got, want)
		}
		if len(r.Data) < 2 || int(r.Data[0])|int(r.Data[1])<<8 != n {
			t.Fatalf("%s asked for %x elements", what, r.Data)
		}
	}
	if reads == 0 {
		t.Fatalf("%s sent no request", what)
	}
}

// Reads that cannot succeed must fail, and never produce a value.
func TestC01Refuse(t *testing.T) {
	rec := hx.For("C01")
	rec.Rule("a read of a wrong Go type, too many elements, an unknown tag or an index outside the array; non-trivial when the request reached the controller")
	hx.Check(t, "C01", 1800, func(t *rapid.T) {
		p := shared.Get()
		w := hx.GenWorld(t, p, c01World)
		c := hx.Connected(t, p, nil)
		defer c.Disconnect()
		v := rapid.SampledFrom(w.Vars).Draw(t, "var")
		path := v.Path
		n := 1
		kind := rapid.SampledFrom([]string{"type", "count", "unknown", "index", "nested"}).Draw(t, "kind")
		typ := v.Type
		how := "ptr"
		switch kind {
		case "type":
			if v.CIP == plc.STRUCT || v.Bools {
				t.Skip("structures carry no type the caller must match")
			}
			o := rapid.SampledFrom(w.Vars).Draw(t, "other")
			typ = o.Type
			if o.Type == v.Type || o.Type.Kind() == reflect.Struct {
				typ = reflect.TypeOf(uint32(0))
				if v.Type == typ {
					typ = reflect.TypeOf(int64(0))
				}
			}
			if v.Avail > 1 && rapid.Bool().Draw(t, "slice") {
				how, n = "slice", rapid.IntRange(2, v.Avail).Draw(t, "n")
				if n > 3000 {
					n = 3000
				}
			}
		case "count":
			how, n = "slice", v.Avail+rapid.IntRange(1, 5).Draw(t, "extra")
			if n > 65535 || v.Bools || v.Bit >= 0 {
				t.Skip("count")
			}
		case "unknown":
			path += "_q"
			if path[len(path)-3] == ']' {
				path = "nope." + path
			}
			if len(v.Tag.Dims) > 0 && v.Off == 0 {
				path = "zz" + path
			}
		case "index":
			path = v.Tag.Name
			if v.Tag.Program != "" {
				path = "Program:" + v.Tag.Program + "." + path
			}
			typ = reflect.TypeOf(int32(0))
			if len(v.Tag.Dims) == 0 {
				path += "[0]"
			} else if len(v.Tag.Dims) == 1 {
				path += fmt.Sprintf("[%d]", v.Tag.Dims[0]+rapid.SampledFrom([]int{0, 1, 255, 256, 65536}).Draw(t, "over"))
			} else {
				path += "[0]"
			}
		case "nested":
			if v.Class != "scalar" {
				t.Skip("nested")
			}
			path += ".member"
		}
		vv := v
		vv.Type, vv.Bit = typ, -1
		var got any
		var err error
		p.TakeLog()
		if bad := hx.Within(opLimit, func() { _, got, err = readVar(c, vv, n, how, path) }); bad != "" {
			t.Fatalf("read %q as %v: %s", path, typ, bad)
		}
		if err == nil {
			t.Fatalf("%s: read of %q (%d elements as %v; controller has %s type %#x dims %v) succeeded with %v", kind, path, n, typ, v.Path, v.CIP, v.Tag.Dims, got)
		}
		reached := false
		for _, r := range p.TakeLog() {
			reached = reached || r.Service == 0x4C
		}
		rec.Case(fmt.Sprintf("%s %s as %v x%d", kind, path, typ, n), reached, "refuse:"+kind)
		// the connection is still good
		o := rapid.SampledFrom(w.Vars).Draw(t, "after")
		if o.Bools || o.Avail > 1 && o.Type.Kind() == reflect.Struct {
			return
		}
		img, _, err := readVar(c, o, 1, "ptr", o.Path)
		if err != nil || !bytes.Equal(img, w.Image(o, 1)) {
			t.Fatalf("after a refused read, %q reads %x (%v), want %x", o.Path, img, err, w.Image(o, 1))
		}
	})
}

// Destinations that cannot hold a value are refused instead of ignored.
func TestC01Destinations(t *testing.T) {
	p := shared.Get()
	p.AddTag(&plc.Tag{Name: "d", Type: plc.DINT, Data: []byte{1, 2, 3, 4}})
	p.AddTag(&plc.Tag{Name: "arr", Type: plc.DINT, Dims: []int{4}, Data: bytes.Repeat([]byte{7, 0, 0, 0}, 4)})
	p.AddTag(&plc.Tag{Name: "udt", Type: plc.STRUCT, Tmpl: &plc.Template{Handle: 0x1234, Size: 8}, Data: make([]byte, 8)})
	c := hx.NewClient(p)
	if err := c.Connect(); err != nil {
		t.Fatal(err)
	}
	defer c.Disconnect()
	try := func(tag string, dst any) func() string {
		return func() string {
			var err error
			if bad := hx.Within(opLimit, func() { err = c.Read(tag, dst) }); bad != "" {
				return bad
			}
			if err == nil {
				return fmt.Sprintf("Read(%q, %T) reported success without delivering a value", tag, dst)
			}
			return ""
		}
	}
	hx.Probe(t, "C01", "non-pointer", try("d", int32(0)))
	hx.Probe(t, "C01", "nil", try("d", nil))
	hx.Probe(t, "C01", "struct-by-value", try("udt", struct{ A, B int32 }{}))
	hx.Probe(t, "C01", "array-pointer", try("udt", &[2]int32{}))
	hx.Probe(t, "C01", "map", try("udt", map[string]int{}))
	hx.Probe(t, "C01", "empty-slice", try("arr", []int32{}))
	hx.Probe(t, "C01", "empty-bools", try("arr", []bool{}))
	hx.Probe(t, "C01", "slice-of-bytes-pointer", try("udt", &[]byte{1, 2}))
	hx.Probe(t, "C01", "any-slice", try("udt", []any{1, 2}))
}
