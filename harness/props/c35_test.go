package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

type (
	badPair   struct{ A, B int32 }
	badHidden struct{ A, b int32 }
	badBlank  struct {
		A int16
		_ int16
		B int32
	}
	badInside  struct{ P badHidden }
	badMap     struct{ M map[string]int32 }
	badPointer struct{ P *int32 }
	badAny     struct{ P any }
	badFunc    struct{ F func() }
	badChans   struct{ A, B chan int32 }

	multiHidden struct {
		A int32 `gologix:"d"`
		b int32 `gologix:"d"`
	}
	multiChan struct {
		A int32    `gologix:"d"`
		B chan int `gologix:"arr[0]"`
	}
	multiEmpty struct {
		A int32   `gologix:"d"`
		B []int32 `gologix:"arr"`
	}
	multiMap struct {
		A int32          `gologix:"d"`
		B map[string]int `gologix:"u"`
	}
	multiNilP struct {
		A int32  `gologix:"d"`
		B *int32 `gologix:"arr[1]"`
	}
	multiEmbed struct {
		*multiNilP
		C int32 `gologix:"d"`
	}
	multiDup struct {
		A int32   `gologix:"d"`
		F float32 `gologix:"f"`
		B int32   `gologix:"d"`
	}
	multiDupType struct {
		A int32   `gologix:"d"`
		F float32 `gologix:"d"`
	}
	multiOverlap struct {
		U badPair `gologix:"u"`
		A int32   `gologix:"u.A"`
	}
	multiElements struct {
		U [2]badPair `gologix:"us"`
		B int32      `gologix:"us[1].B"`
	}
	multiDeep struct {
		A int32     `gologix:"d"`
		U badHidden `gologix:"u"`
	}
	multiDeeper struct {
		A int32        `gologix:"d"`
		U [2]badHidden `gologix:"us"`
	}
)

// badCall is a call that cannot be carried out.
type badCall struct {
	desc   string
	local  bool // the library can know by itself
	run    func() error
	values func() string // or, if it claims success, what is wrong with what it did
}

// TestC35: what cannot be carried out as given is refused, and changes nothing.
func TestC35(t *testing.T) {
	rec := hx.For("C35")
	rec.Rule("a call that has to be refused, alone or among entries of a batch that are fine, followed by reads that are not affected")
	rec.Assume("blanks in names are not judged", "after a refused batch write the other entries have either their old or their new values; when the library can know by itself, the old ones")
	hx.Check(t, "C35", 6000, func(t *rapid.T) {
		p := shared.Get()
		p.Reset()
		le := binary.LittleEndian
		words := func(n int, k uint32) []byte {
			var b []byte
			for i := 0; i < n; i++ {
				k = k*1664525 + 1013904223
				b = le.AppendUint32(b, k)
			}
			return b
		}
		seed := rapid.Uint32().Draw(t, "seed")
		pair := hx.TemplateOf(reflect.TypeOf(badPair{}), "badPair", 0x123)
		tags := map[string]*plc.Tag{}
		add := func(x *plc.Tag) { tags[x.Name] = p.AddTag(x) }
		add(&plc.Tag{Name: "d", Type: plc.DINT, Data: words(1, seed)})
		add(&plc.Tag{Name: "flag", Type: plc.BOOL, Data: []byte{byte(seed & 1)}})
		add(&plc.Tag{Name: "f", Type: plc.REAL, Data: []byte{0, 0, 128, 63}})
		add(&plc.Tag{Name: "arr", Type: plc.DINT, Dims: []int{5}, Data: words(5, seed+1)})
		add(&plc.Tag{Name: "grid", Type: plc.DINT, Dims: []int{2, 3}, Data: words(6, seed+2)})
		add(&plc.Tag{Name: "s", Type: plc.STRUCT, Tmpl: plc.StringTemplate, Data: plc.EncodeString("text")})
		add(&plc.Tag{Name: "u", Type: plc.STRUCT, Tmpl: pair, Data: words(2, seed+3)})
		add(&plc.Tag{Name: "us", Type: plc.STRUCT, Tmpl: pair, Dims: []int{3}, Data: words(6, seed+4)})
		c := hx.NewClient(p)
		c.ConnectionSize = rapid.SampledFrom([]uint16{4000, 511}).Draw(t, "size")
		if err := c.Connect(); err != nil {
			hx.Harness("connect: %v", err)
		}
		defer c.Disconnect()
		bigs := 0
		for i := rapid.IntRange(1, 5).Draw(t, "calls"); i > 0; i-- {
			b := genBadCall(t, c, func() {
				if bigs++; bigs == 1 {
					add(&plc.Tag{Name: "big", Type: plc.DINT, Dims: []int{66000}, Data: words(66000, seed+5)})
					add(&plc.Tag{Name: "bigu", Type: plc.STRUCT, Tmpl: pair, Dims: []int{66000}, Data: words(132000, seed+6)})
				}
			}, tags)
			before := map[string][]byte{}
			for n, x := range tags {
				before[n] = bytes.Clone(x.Data)
			}
			accepts, opens := p.Accepted(), p.OpenCount()
			p.TakeErrors()
			var err error
			if bad := hx.Within(opLimit, func() { err = b.run() }); bad != "" {
				t.Fatalf("%s: %s", b.desc, bad)
			}
			if err == nil {
				what := "reported as a success"
				if b.values != nil {
					what = b.values()
				}
				if what != "" {
					t.Fatalf("%s: %s", b.desc, what)
				}
			}
			if e := p.TakeErrors(); len(e) > 0 {
				t.Fatalf("%s: the controller noted %v", b.desc, e)
			}
			if a, o := p.Accepted(), p.OpenCount(); a != accepts || o != opens || !c.Connected() {
				t.Fatalf("%s: the connection was lost over it (%v; %d then %d sockets, %d then %d connections opened; connected %v)", b.desc, err, accepts, a, opens, o, c.Connected())
			}
			p.Lock()
			for n, x := range tags {
				if b.local && !bytes.Equal(x.Data, before[n]) {
					p.Unlock()
					t.Fatalf("%s (%v): %s changed", b.desc, err, n)
				}
			}
			p.Unlock()
			// everything else goes on
			var d int32
			a := make([]int32, 5)
			if err := c.Read("d", &d); err != nil || uint32(d) != le.Uint32(tags["d"].Data) {
				t.Fatalf("after %s: d is read as %d, %v instead of %x", b.desc, d, err, tags["d"].Data)
			}
			if err := c.Read("arr", a); err != nil || uint32(a[4]) != le.Uint32(tags["arr"].Data[16:]) {
				t.Fatalf("after %s: arr is read as %d, %v instead of %x", b.desc, a, err, tags["arr"].Data)
			}
			rec.Case(b.desc, true, strings.Fields(b.desc)[0])
		}
	})
}

var nilPointers = []any{(*int32)(nil), (*bool)(nil), (*string)(nil), (*float32)(nil), (*uint8)(nil), (*int64)(nil), (*badPair)(nil), (*any)(nil)}

func genBadCall(t *rapid.T, c *gologix.Client, big func(), tags map[string]*plc.Tag) badCall {
	good := func(l string) (string, any) {
		switch rapid.IntRange(0, 3).Draw(t, l) {
		case 0:
			return "d", rapid.Int32().Draw(t, "good d")
		case 1:
			return "f", rapid.Float32().Draw(t, "good f")
		case 2:
			return "s", "other"
		}
		return "u", badPair{1, rapid.Int32().Draw(t, "good u")}
	}
	// a batch of good entries around a bad one
	batch := func(name string, v any) map[string]any {
		m := map[string]any{}
		for k := rapid.IntRange(0, 3).Draw(t, "others"); k > 0; k-- {
			n, x := good("other")
			m[n] = x
		}
		m[name] = v
		return m
	}
	tag := rapid.SampledFrom([]string{"d", "f", "arr", "s", "u", "us", "us[1]", "arr[2]"}).Draw(t, "tag")
	switch rapid.SampledFrom([]string{"destination", "destination", "value", "value", "value", "multi", "name", "name", "name", "count", "count", "bit", "oversize", "lists", "nothing", "pack"}).Draw(t, "kind") {
	case "destination":
		var i32 int32
		p32 := &i32
		pool := append([]any{nil, int32(5), "text", true, badPair{}, map[string]int32{}, func() {}, make(chan int32), [3]int32{}, &p32,
			new(map[string]int32), new(chan int32), new(func()), new(badMap), new(badPointer), new(badAny), new(badFunc), new(badChans), new(badHidden), new(badBlank), new(badInside),
			new(complex64), new([]int32), &[]badPair{}, []int32{}, []int64{}, []badPair{}, []bool{}, []string{}, []any{}, []any{nil}, []any{int32(1)}, []*int32{nil}, []chan int32{nil, nil}, make([]badHidden, 2), make([]badMap, 2), make([]map[string]int32, 2)}, nilPointers...)
		dst := rapid.SampledFrom(pool).Draw(t, "dst")
		return badCall{desc: fmt.Sprintf("Read of %s into a %T %v", tag, dst, isNil(dst)), local: true, run: func() error { return c.Read(tag, dst) }}
	case "multi":
		var dst any
		dst = rapid.SampledFrom([]any{nil, 5, "d", []string{"d"}, badPair{}, multiHidden{}, &multiHidden{}, &multiChan{}, &multiEmpty{}, &multiMap{}, &multiEmbed{}, (*badPair)(nil), (*multiHidden)(nil), new(int), new(map[string]any), map[string]int32{"d": 1}, func() {}}).Draw(t, "multi")
		if _, ok := dst.(badPair); ok {
			return badCall{desc: "ReadMulti into a structure by value", local: true, run: func() error { return c.ReadMulti(dst) }}
		}
		if rapid.Bool().Draw(t, "write") {
			v := reflect.ValueOf(dst)
			if v.Kind() == reflect.Pointer && !v.IsNil() && v.Elem().Kind() == reflect.Struct && rapid.Bool().Draw(t, "deref") {
				v = v.Elem()
				dst = v.Interface()
			}
			if _, ok := dst.(multiEmbed); ok {
				dst = &multiHidden{}
			}
			if rapid.IntRange(0, 2).Draw(t, "members") == 0 {
				dst = rapid.SampledFrom([]any{multiDup{}, &multiDup{1, 2, 3}, multiDupType{}, multiOverlap{}, &multiOverlap{}, multiElements{}, multiDeep{}, &multiDeep{}, multiDeeper{}, &multiDeeper{}}).Draw(t, "twice")
			}
			return badCall{desc: fmt.Sprintf("WriteMulti of a %T %v", dst, isNil(dst)), local: true, run: func() error { return c.WriteMulti(dst) }}
		}
		return badCall{desc: fmt.Sprintf("ReadMulti into a %T %v", dst, isNil(dst)), local: true, run: func() error { return c.ReadMulti(dst) }}
	case "value":
		pool := append([]any{nil, map[string]int32{"a": 1}, func() {}, make(chan int32), complex64(1), [3]int32{}, []int32{}, []string{}, []bool(nil), []any{int32(1)}, []any{}, []*int32{nil}, [][]int32{{1}},
			badMap{}, badPointer{}, badAny{}, badFunc{}, badChans{}, badHidden{}, badBlank{}, badInside{}, strings.Repeat("x", 83), []string{"a", strings.Repeat("y", 100)}, make([]int32, 70000), make([]uint8, 65537), make([]int32, 1200)}, nilPointers...)
		v := rapid.SampledFrom(pool).Draw(t, "value")
		if rapid.Bool().Draw(t, "alone") {
			return badCall{desc: fmt.Sprintf("Write of a %T %v to %s", v, isNil(v), tag), local: true, run: func() error { return c.Write(tag, v) }}
		}
		m := batch(tag, v)
		return badCall{desc: fmt.Sprintf("WriteMap with a %T %v for %s among %d", v, isNil(v), tag, len(m)), local: true, run: func() error { return c.WriteMap(m) }}
	case "name":
		name, local := genBadName(t)
		how := rapid.SampledFrom([]string{"Read", "Write", "ReadMap", "WriteMap", "ReadList", "Read_single", "ReadTagGroup", "slice", "bool", "bool map"}).Draw(t, "how")
		desc := fmt.Sprintf("%s of %q", how, hx.Short(name, 60))
		m := batch(name, int32(77))
		var run func() error
		switch how {
		case "Read":
			run = func() error { var v int32; return c.Read(name, &v) }
		case "bool":
			run = func() error { var v bool; return c.Read(name, &v) }
		case "bool map":
			run = func() error { return c.ReadMap(map[string]any{"d": int32(0), name: false}) }
		case "slice":
			run = func() error { return c.Read(name, make([]int32, 2)) }
		case "Write":
			run = func() error { return c.Write(name, int32(77)) }
		case "ReadMap":
			run = func() error { return c.ReadMap(m) }
		case "WriteMap":
			run = func() error { return c.WriteMap(m) }
		case "ReadList":
			run = func() error {
				_, err := c.ReadList([]string{"d", name}, []any{int32(0), int32(0)}, []int{1, 1})
				return err
			}
		case "Read_single":
			run = func() error { _, err := c.Read_single(name, gologix.CIPTypeDINT, 1); return err }
		case "ReadTagGroup":
			if strings.Contains(name, "{") {
				return badCall{desc: "nothing", run: func() error { return io.EOF }}
			}
			run = func() error {
				_, err := c.ReadTagGroup(gologix.NewTagGroup(gologix.TagDef{Name: "d", Type: gologix.CIPTypeDINT}, gologix.TagDef{Name: name, Type: gologix.CIPTypeDINT}))
				return err
			}
		}
		return badCall{desc: desc, local: local && how != "WriteMap", run: run}
	case "count":
		n := rapid.SampledFrom([]int{-1, -65535, -1 << 31, 6, 7, 65530, 65535, 65536, 65537, 65541, 1 << 31, 1<<32 + 1, 1<<32 + 3, 1 << 62}).Draw(t, "n")
		tag := rapid.SampledFrom([]string{"arr", "us", "d"}).Draw(t, "counted")
		ty := any(int32(0))
		if tag == "us" {
			ty = badPair{}
		}
		if rapid.Bool().Draw(t, "slice") {
			ty = []int32{}
		}
		return badCall{desc: fmt.Sprintf("ReadList of %d elements of %s as %T", n, tag, ty), local: true, run: func() error {
			_, err := c.ReadList([]string{"d", tag}, []any{int32(0), ty}, []int{1, n})
			return err
		}}
	case "bit":
		// bits can be read but not written
		name := rapid.SampledFrom([]string{"d.0", "d.3", "d.31", "arr[1].4", "us[1].A.7", "u.B.15", "grid[1,2].9", "flag.0", "flag.3", "flag.7", "d.8"}).Draw(t, "bit")
		v := rapid.SampledFrom([]any{true, false, int32(1), int32(-1), uint8(1), []bool{true}, []bool{true, false}, 1.5, "1"}).Draw(t, "bit value")
		if rapid.Bool().Draw(t, "alone") {
			return badCall{desc: fmt.Sprintf("Write of %v to bit %s", v, name), local: true, run: func() error { return c.Write(name, v) }}
		}
		m := batch(name, v)
		return badCall{desc: fmt.Sprintf("WriteMap of %v to bit %s among %d", v, name, len(m)), local: true, run: func() error { return c.WriteMap(m) }}
	case "oversize":
		big()
		n := rapid.SampledFrom([]int{65535 + 1, 65537, 65539, 66000}).Draw(t, "n")
		le := binary.LittleEndian
		switch rapid.IntRange(0, 2).Draw(t, "oversize") {
		case 0:
			s := make([]int32, n)
			return badCall{desc: fmt.Sprintf("Read of %d elements", n), local: true, run: func() error { return c.Read("big", s) }, values: func() string {
				for i := range s {
					if uint32(s[i]) != le.Uint32(tags["big"].Data[i*4:]) {
						return fmt.Sprintf("element %d is %d", i, s[i])
					}
				}
				return ""
			}}
		case 1:
			s := make([]badPair, n)
			return badCall{desc: fmt.Sprintf("Read of %d structures", n), local: true, run: func() error { return c.Read("bigu", s) }, values: func() string {
				for i := range s {
					if uint32(s[i].B) != le.Uint32(tags["bigu"].Data[i*8+4:]) {
						return fmt.Sprintf("element %d is %v", i, s[i])
					}
				}
				return ""
			}}
		}
		m := map[string]any{"big": make([]int32, n)}
		return badCall{desc: fmt.Sprintf("ReadMap of %d elements", n), local: true, run: func() error { return c.ReadMap(m) }}
	case "lists":
		k := [3]int{}
		for j := range k {
			k[j] = rapid.IntRange(0, 4).Draw(t, "len")
		}
		if k[0] == k[1] && k[1] == k[2] {
			k[1+k[0]%2]++
		}
		return badCall{desc: fmt.Sprintf("ReadList of %d names, %d types and %d counts", k[0], k[1], k[2]), local: true, run: func() error {
			var names []string
			var types []any
			var counts []int
			for j := 0; j < k[0]; j++ {
				names = append(names, "d")
			}
			for j := 0; j < k[1]; j++ {
				types = append(types, int32(0))
			}
			for j := 0; j < k[2]; j++ {
				counts = append(counts, 1)
			}
			_, err := c.ReadList(names, types, counts)
			return err
		}}
	case "nothing":
		if rapid.Bool().Draw(t, "group") {
			return badCall{desc: "ReadTagGroup of no group", local: true, run: func() error { _, err := c.ReadTagGroup(nil); return err }}
		}
		return badCall{desc: "ListSubTags of no program", local: true, run: func() error { _, err := c.ListSubTags(nil, 0); return err }}
	}
	// packing by itself
	v := rapid.SampledFrom([]any{nil, 5, "text", map[string]int32{}, func() {}, []badPair{{}}, (*badPair)(nil), (*int32)(nil), badHidden{}, badBlank{}, badInside{}, badMap{}, badPointer{}, badFunc{}, badAny{}}).Draw(t, "packed")
	if rapid.Bool().Draw(t, "unpack") {
		v = rapid.SampledFrom([]any{nil, 5, "text", map[string]int32{}, func() {}, badPair{}, (*badPair)(nil), (*int32)(nil), new(int32), new(badHidden), new(badBlank), new(badInside), new(badMap), new(badPointer), new(badFunc), new(badAny)}).Draw(t, "unpacked")
		return badCall{desc: fmt.Sprintf("Unpack into a %T %v", v, isNil(v)), local: true, run: func() error { _, err := gologix.Unpack(bytes.NewReader(make([]byte, 100)), v); return err }}
	}
	return badCall{desc: fmt.Sprintf("Pack of a %T %v", v, isNil(v)), local: true, run: func() error { _, err := gologix.Pack(io.Discard, v); return err }}
}

func isNil(v any) string {
	r := reflect.ValueOf(v)
	switch {
	case r.Kind() == reflect.Pointer && r.IsNil():
		return "(nil)"
	case r.Kind() == reflect.Slice || r.Kind() == reflect.String:
		return fmt.Sprintf("(%d)", r.Len())
	}
	return ""
}

// genBadName makes a name that addresses nothing in the controller.
func genBadName(t *rapid.T) (name string, local bool) {
	fixed := []string{"", ".", "..", "d.", ".d", "d..", "arr[", "arr]", "arr[]", "arr[x]", "arr[1", "arr[1]]", "arr[1][2]", "arr[1]x", "[1]", "[", "]", "d[", "u.", "u..A", "u.A.", ".u.A", "u.[1]", "us[1].", "us[1]..A", "us.A", "us[1]A",
		"d.5.x", "d.5.6", "u.5.A", "u.A.5.B", "u.A.5.6", "us[1].3.A", "us[1].A.31.A", "arr[1].2.3", "d.32", "d.33", "d.255", "d.256", "d.-1", "d.x", "d.0x", "arr[1].32", "f.0", "f.1", "s.0", "u.0", "us[0].7",
		"d[0]", "f[0]", "d[1]", "u[0]", "s[0]", "grid[1]", "grid[0,3]", "grid[2,0]", "grid[0,0,0]", "grid[,1]", "grid[1,]", "grid[,]", "grid[1;1]", "grid[1.1]",
		"u.C", "us[1].C", "u.A.B", "Program:", "Program:x", "Program:x.d", "Program:.d", "d\x00", "\x00d", "D\x00", "d\xff", "\xc3\xa9"}
	switch rapid.IntRange(0, 5).Draw(t, "name kind") {
	case 0, 1, 2:
		return rapid.SampledFrom(fixed).Draw(t, "name"), true
	case 3: // an element that is not there
		k := rapid.OneOf(rapid.Int64Range(5, 300), rapid.Int64Range(65530, 65545), rapid.SampledFrom([]int64{-1, -5, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 4, 1 << 40, 1<<63 - 1})).Draw(t, "index")
		return fmt.Sprintf(rapid.SampledFrom([]string{"arr[%d]", "us[%d]", "us[%d].A", "grid[0,%d]", "grid[%d,0]"}).Draw(t, "array"), k), true
	case 4: // a number no integer holds
		return fmt.Sprintf("arr[%s]", rapid.SampledFrom([]string{"18446744073709551616", "18446744073709551617", "99999999999999999999999", "4294967296000000000000", "0x1", "1e0", "+1", "-0", "1_0", "٣"}).Draw(t, "digits")), true
	}
	// names no path can hold
	n := rapid.SampledFrom([]int{41, 100, 254, 255, 256, 257, 300, 512, 600}).Draw(t, "length")
	return strings.Repeat(rapid.SampledFrom([]string{"d", "dd", "x.", "u.A."}).Draw(t, "repeated"), n)[:n], true
}
