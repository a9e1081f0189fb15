package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// pathSize is the number of bytes the encoded path of a tag name takes.
func pathSize(path string) int {
	n := 0
	for _, part := range strings.Split(path, ".") {
		idx := ""
		if i := strings.IndexByte(part, '['); i >= 0 {
			idx = strings.TrimSuffix(part[i+1:], "]")
			part = part[:i]
		}
		n += 2 + len(part) + len(part)%2
		if idx != "" {
			for _, x := range strings.Split(idx, ",") {
				k, _ := strconv.Atoi(x)
				switch {
				case k < 256:
					n += 2
				case k < 65536:
					n += 4
				default:
					n += 6
				}
			}
		}
	}
	return n
}

// bwrite is one entry of a batch write.
type bwrite struct {
	v    hx.Var
	n    int
	val  reflect.Value
	path string
}

func (b bwrite) String() string {
	return fmt.Sprintf("%s x%d (%s of %s)=%.60x", b.path, b.n, b.v.Class, hx.Short(b.v.Type.String(), 60), hx.EncodeAny(b.val))
}

// requestSize is the size of the message that carries this entry alone.
func (b bwrite) requestSize() int {
	hdr := 4
	if b.v.CIP == plc.STRUCT {
		hdr = 6
	}
	return 10 + 2 + 2 + pathSize(b.path) + hdr + len(hx.EncodeAny(b.val))
}

func genWrites(t *rapid.T, w *hx.World, max int, mode string) []bwrite {
	return genWritesN(t, w, max, mode, 30)
}

// genWritesN limits most of the element counts to lim.
func genWritesN(t *rapid.T, w *hx.World, max int, mode string, lim int) []bwrite {
	type span struct {
		tag      *plc.Tag
		off, end int
	}
	var taken []span
	var out []bwrite
	for i := 0; i < max; i++ {
		v := rapid.SampledFrom(w.Vars).Draw(t, "var")
		b := bwrite{v: v, n: 1}
		slice := false
		if v.Type.Kind() != reflect.Struct && v.Type.Kind() != reflect.Bool && rapid.IntRange(0, 2).Draw(t, "sl") > 0 {
			slice = true
			b.n = genCount(t, v)
			if b.n > lim && rapid.IntRange(0, 3).Draw(t, "keepbig") > 0 {
				b.n = 1 + b.n%lim
			}
		}
		if mode == "struct" && v.Type.Kind() == reflect.Struct && (strings.HasSuffix(v.Class, "[]") || v.Class == "memberarray") && !strings.HasSuffix(v.Path, "]") {
			continue // members of a whole array have no name
		}
		s := span{v.Tag, v.Off, v.Off + b.n*v.ESize}
		clash := false
		for _, o := range taken {
			clash = clash || o.tag == s.tag && s.off < o.end && o.off < s.end
		}
		if clash {
			continue
		}
		taken = append(taken, s)
		if slice {
			b.val = reflect.MakeSlice(reflect.SliceOf(v.Type), b.n, b.n)
			for j := 0; j < b.n; j++ {
				if j < 12 {
					hx.Fill(t, b.val.Index(j), "val")
				} else {
					b.val.Index(j).Set(b.val.Index(j % 12))
				}
			}
			if mode == "struct" && rapid.Bool().Draw(t, "array") {
				a := reflect.New(reflect.ArrayOf(b.n, v.Type)).Elem()
				reflect.Copy(a, b.val)
				b.val = a
			}
		} else {
			b.val = reflect.New(v.Type).Elem()
			hx.Fill(t, b.val, "val")
		}
		b.path = hx.RandCase(t, v.Path, "case")
		out = append(out, b)
	}
	return out
}

func encodeEntry(v reflect.Value) []byte { return hx.EncodeAny(v) }

// apply puts an entry into a memory image.
func (b bwrite) apply(m map[string][]byte) {
	img := encodeEntry(b.val)
	mem := m[tagKey(b.v.Tag)]
	if b.v.Bit >= 0 {
		mem[b.v.Off] &^= 1 << uint(b.v.Bit)
		mem[b.v.Off] |= img[0] << uint(b.v.Bit)
		return
	}
	copy(mem[b.v.Off:b.v.Off+b.n*b.v.ESize], img)
}

func cloneMem(m map[string][]byte) map[string][]byte {
	o := make(map[string][]byte, len(m))
	for k, v := range m {
		o[k] = append([]byte(nil), v...)
	}
	return o
}

// runWrites performs the batch.
func runWrites(t *rapid.T, c *gologix.Client, mode string, ws []bwrite) error {
	var err error
	bad := ""
	if mode == "map" {
		m := map[string]any{}
		for _, b := range ws {
			m[b.path] = b.val.Interface()
		}
		bad = hx.Within(opLimit, func() { err = c.WriteMap(m) })
	} else {
		var fs []reflect.StructField
		idx := make([]int, len(ws))
		for i, b := range ws {
			if rapid.IntRange(0, 9).Draw(t, "untagged") == 0 {
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("U%d", len(fs)), Type: reflect.TypeOf(int32(0))})
			}
			idx[i] = len(fs)
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: b.val.Type(), Tag: reflect.StructTag(`gologix:` + strconv.Quote(b.path))})
		}
		x := reflect.New(reflect.StructOf(fs)).Elem()
		for i, b := range ws {
			x.Field(idx[i]).Set(b.val)
		}
		bad = hx.Within(opLimit, func() { err = c.WriteMulti(x.Interface()) })
	}
	if bad != "" {
		return fmt.Errorf("VIOLATED: %s", bad)
	}
	return err
}

var c04World = hx.WorldOpts{MinTags: 1, MaxTags: 30, Structs: true, Strings: true, Programs: true,
	StructOpts: hx.StructOpts{Depth: 1, Arrays: true, MaxFields: 6}}

func TestC04(t *testing.T) {
	rec := hx.For("C04")
	rec.Rule("one generated controller (1-30 tags), connection size 200-4000 (one case in eight up to 65511, with large arrays), one batch of up to 300 non-overlapping writes (scalars, slices, arrays, strings, structures written whole or member by member) by map or struct; the whole memory compared with the model after the call; non-trivial when at least two entries were written")
	rec.Assume("entries whose own request cannot fit the connection may make the batch fail", "the order in which entries are applied is not specified; entries never overlap")
	hx.Check(t, "C04", 3000, func(t *rapid.T) {
		p := shared.Get()
		big := rapid.IntRange(0, 7).Draw(t, "large") == 0 // connections and arrays far beyond the usual
		wo, lim := c04World, 30
		if big {
			wo.BigIndex, wo.MaxElems, lim = true, 600, rapid.SampledFrom([]int{30, 300, 2000}).Draw(t, "lim")
		}
		w := hx.GenWorld(t, p, wo)
		size := genConnSize(t)
		if big {
			size = genLargeSize(t)
		}
		c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = size })
		defer c.Disconnect()
		mode := rapid.SampledFrom([]string{"map", "struct"}).Draw(t, "mode")
		max := rapid.IntRange(1, 15).Draw(t, "entries")
		if rapid.IntRange(0, 2).Draw(t, "many") == 0 {
			max = 80
			if big {
				max = 300
			}
		}
		ws := genWritesN(t, w, max, mode, lim)
		if len(ws) == 0 {
			t.Skip("empty")
		}
		mayFail := false
		for _, b := range ws {
			if b.val.Kind() == reflect.Struct && mode == "struct" {
				mayFail = mayFail || 10+2+2+pathSize(b.path)+60+len(hx.EncodeAny(b.val)) > int(c.ConnectionSize)
				continue
			}
			mayFail = mayFail || b.requestSize() > int(c.ConnectionSize)
		}
		before := p.Snapshot()
		want := cloneMem(before)
		for _, b := range ws {
			b.apply(want)
		}
		p.TakeLog()
		what := fmt.Sprintf("%s write of %d entries over %d byte connection", mode, len(ws), c.ConnectionSize)
		err := runWrites(t, c, mode, ws)
		log := p.TakeLog()
		if err != nil && strings.HasPrefix(err.Error(), "VIOLATED") {
			t.Fatalf("%s: %v\n%v", what, err, ws)
		}
		if e := p.TakeErrors(); e != nil {
			t.Fatalf("%s: controller noted %v\n%v", what, e, ws)
		}
		after := p.Snapshot()
		if err != nil {
			if !mayFail {
				t.Fatalf("%s failed: %v\n%v", what, err, ws)
			}
			rec.Class("failed: too large")
			return
		}
		if d := compareMem(after, want, ws); d != "" {
			t.Fatalf("%s: %s\n%v", what, d, ws)
		}
		seen := map[string]int{}
		msgs := 0
		for _, r := range log {
			switch r.Service {
			case 0x0A:
				msgs++
			case 0x4D:
				k := plc.SegsString(r.Path)
				seen[k]++
				if seen[k] > 1 {
					t.Fatalf("%s wrote %s %d times\n%v", what, k, seen[k], ws)
				}
			case 0x0E, 0x01, 0x03:
			default:
				t.Fatalf("%s sent %v", what, r)
			}
		}
		desc := what
		for _, b := range ws {
			desc += "; " + hx.Short(b.String(), 60)
			rec.Class("entry:" + b.v.Class)
		}
		cl := "messages:1"
		if msgs > 1 {
			cl = "messages:2-5"
		}
		if msgs > 5 {
			cl = "messages:6+"
		}
		rec.Case(desc, len(ws) > 1, "mode:"+mode, cl)
	})
}

// compareMem compares memory, allowing for the undefined characters past the
// end of written strings.
func compareMem(after, want map[string][]byte, ws []bwrite) string {
	a, b := cloneMem(after), cloneMem(want)
	for _, w := range ws {
		if w.v.Type.Kind() != reflect.String {
			continue
		}
		for i := 0; i < w.n; i++ {
			o := w.v.Off + i*88
			x, y := a[tagKey(w.v.Tag)][o:o+88], b[tagKey(w.v.Tag)][o:o+88]
			if plc.DecodeString(x) == plc.DecodeString(y) {
				copy(x, y)
			}
		}
	}
	for k := range b {
		if !bytes.Equal(a[k], b[k]) {
			return fmt.Sprintf("memory of %s is\n %x, want\n %x", k, a[k], b[k])
		}
	}
	return ""
}

// A refusal of any part is an error, the refused part stays as it was and
// nothing outside the batch changes.
func TestC04Refuse(t *testing.T) {
	rec := hx.For("C04")
	rec.Rule("a batch write in which the controller refuses a random subset, or one entry is unknown, of the wrong type, too long or not representable: an error, refused entries unchanged, others either old or new; non-trivial when a refusal happened")
	hx.Check(t, "C04", 2400, func(t *rapid.T) {
		p := shared.Get()
		w := hx.GenWorld(t, p, c04World)
		size := genConnSize(t)
		c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = size })
		defer c.Disconnect()
		mode := rapid.SampledFrom([]string{"map", "struct"}).Draw(t, "mode")
		ws := genWrites(t, w, rapid.IntRange(1, 60).Draw(t, "entries"), mode)
		if len(ws) == 0 {
			t.Skip("empty")
		}
		good := append([]bwrite(nil), ws...)
		k := rapid.IntRange(0, len(ws)-1).Draw(t, "victim")
		kind := rapid.SampledFrom([]string{"status", "status", "readonly", "unknown", "type", "count", "long", "unsupported", "bit"}).Draw(t, "kind")
		hit := false
		victims := map[int]bool{k: true}
		switch kind {
		case "status":
			targets := map[string]bool{}
			for i := range ws {
				if i == k || rapid.IntRange(0, 4).Draw(t, "also") == 0 {
					targets[plc.CanonText(ws[i].v.Path)] = true
					victims[i] = true
				}
			}
			st := rapid.SampledFrom([]byte{1, 4, 5, 6, 8, 0x0A, 0x0F, 0x10, 0x11, 0x13, 0x15, 0x1E, 0x26, 0xFF}).Draw(t, "status")
			ms := rapid.SampledFrom([]byte{0x1E, 0}).Draw(t, "multistatus")
			ext := []uint16(nil)
			if rapid.Bool().Draw(t, "ext") {
				ext = []uint16{0x2107, 1}[:rapid.IntRange(1, 2).Draw(t, "next")]
			}
			p.Lock()
			p.MultiStatus = ms
			p.Intercept = func(r *plc.Req) *plc.Reply {
				if r.Service != 0x4D {
					return nil
				}
				path := plc.SegsString(r.Path)
				for x := range targets {
					if path == x || strings.HasPrefix(path, x+".") {
						hit = true
						return &plc.Reply{Status: st, Ext: ext}
					}
				}
				return nil
			}
			p.Unlock()
		case "readonly":
			p.Lock()
			ws[k].v.Tag.ReadOnly = true
			p.Unlock()
			for i := range ws {
				if ws[i].v.Tag == ws[k].v.Tag {
					victims[i] = true
				}
			}
			hit = true
		case "unknown":
			ws[k].path = rapid.SampledFrom([]string{"zq_none", "zq_none[3]", "zq.none"}).Draw(t, "path")
			hit = true
		case "bit":
			if kd := ws[k].v.Type.Kind(); kd < reflect.Int8 || kd > reflect.Uint64 {
				t.Skip("bit")
			}
			ws[k].path += ".3"
			ws[k].val = rapid.SampledFrom([]reflect.Value{reflect.ValueOf(true), reflect.ValueOf(int32(1)), reflect.ValueOf(int8(1))}).Draw(t, "bitval")
			hit = true
		case "type":
			if ws[k].v.CIP == plc.STRUCT && ws[k].v.Type.Kind() == reflect.Struct && mode == "struct" {
				t.Skip("type")
			}
			o := rapid.SampledFrom([]any{int8(1), int16(2), int32(3), int64(4), uint8(5), uint16(6), uint32(7), uint64(8), float32(9), float64(10), true, "text"}).Draw(t, "val")
			if reflect.TypeOf(o) == ws[k].v.Type {
				t.Skip("type")
			}
			ws[k].val = reflect.ValueOf(o)
			hit = true
		case "count":
			b := &ws[k]
			if b.v.Type.Kind() == reflect.Struct || b.v.Type.Kind() == reflect.Bool {
				t.Skip("count")
			}
			b.val = reflect.MakeSlice(reflect.SliceOf(b.v.Type), b.v.Avail+rapid.IntRange(1, 3).Draw(t, "over"), b.v.Avail+4)
			hit = true
		case "long":
			s := strings.Repeat("y", rapid.SampledFrom([]int{83, 84, 86, 88, 170, 300}).Draw(t, "len"))
			ws[k].val = reflect.ValueOf(s)
			if rapid.Bool().Draw(t, "longslice") {
				ws[k].val = reflect.ValueOf([]string{s})
			}
			hit = true
		case "unsupported":
			o := rapid.SampledFrom([]any{int(5), uint(6), complex64(1), []bool{true}, []int{1}, map[string]int{"a": 1}, []int32{}, []any{int32(1)}, struct{ P *int }{}, struct{ N int }{4}}).Draw(t, "val")
			if mode == "map" && rapid.IntRange(0, 5).Draw(t, "nil") == 0 {
				o = nil
			}
			if o == nil {
				var x any
				ws[k].val = reflect.ValueOf(&x).Elem()
			} else {
				ws[k].val = reflect.ValueOf(o)
			}
			hit = true
		}
		before := p.Snapshot()
		what := fmt.Sprintf("%s: %s write of %d entries, entry %d %s", kind, mode, len(ws), k, ws[k].path)
		err := runWrites(t, c, mode, ws)
		if err != nil && strings.HasPrefix(err.Error(), "VIOLATED") {
			t.Fatalf("%s: %v", what, err)
		}
		if err == nil && hit {
			t.Fatalf("%s reported success (value %v)", what, ws[k].val)
		}
		after := p.Snapshot()
		all := cloneMem(before)
		for i, b := range good {
			if !victims[i] {
				b.apply(all)
			}
		}
		for key, mem := range after {
			for i := range mem {
				if mem[i] != before[key][i] && mem[i] != all[key][i] && !insideString(good, key, i) && !packedBits(good, key, i) {
					t.Fatalf("%s: byte %d of %s became %#x, was %#x, batch says %#x", what, i, key, mem[i], before[key][i], all[key][i])
				}
			}
		}
		rec.Case(what+hx.Short(fmt.Sprint(ws), 200), hit, "refuse:"+kind)
		if !c.Connected() {
			t.Fatalf("%s lost the connection: %v", what, err)
		}
		p.Lock()
		p.Intercept, p.MultiStatus = nil, 0x1E
		for _, b := range ws {
			b.v.Tag.ReadOnly = false
		}
		p.Unlock()
		o := rapid.SampledFrom(w.Vars).Draw(t, "after")
		if o.Type.Kind() == reflect.Struct || o.ESize+20 > int(c.ConnectionSize) {
			return
		}
		img, _, err := readVar(c, o, 1, "ptr", o.Path)
		if err != nil || o.Type.Kind() != reflect.String && !bytes.Equal(img, w.Image(o, 1)) {
			t.Fatalf("after %s, %q reads %x (%v)", what, o.Path, img, err)
		}
	})
}

func insideString(ws []bwrite, key string, i int) bool {
	for _, b := range ws {
		if b.v.Type.Kind() == reflect.String && tagKey(b.v.Tag) == key && i >= b.v.Off && i < b.v.Off+b.n*b.v.ESize {
			return true
		}
	}
	return false
}

// packedBits: several booleans of one byte may be in the batch.
func packedBits(ws []bwrite, key string, i int) bool {
	for _, b := range ws {
		if tagKey(b.v.Tag) == key && (b.v.Bit >= 0 && b.v.Off == i || b.v.Type.Kind() == reflect.Struct && i >= b.v.Off && i < b.v.Off+b.v.ESize) {
			return true
		}
	}
	return false
}

type c04Nested struct {
	Local  int32
	Level  float32    `gologix:"Tank[{N}].Level"`
	Recipe c02Recipe  `gologix:"Rec"`
	Steps  [3]c04Step `gologix:"Steps"`
	Names  [2]string  `gologix:"Names"`
	Note   string     `gologix:"Note"`
}
type c04Step struct {
	Time int32
	Sub  [2]c04Sub
	On   bool
}
type c04Sub struct{ X, Y int16 }

// A declared structure with nested structures and arrays of structures.
func TestC04Declared(t *testing.T) {
	rec := hx.For("C04")
	rec.Rule("a declared struct with nested structs, arrays of structs and strings is written by WriteMulti and compared with memory; non-trivial always")
	hx.Check(t, "C04", 450, func(t *rapid.T) {
		p := shared.Get()
		tank := p.AddTag(&plc.Tag{Name: "Tank", Type: plc.STRUCT, Dims: []int{2}, Tmpl: hx.TemplateOf(reflect.TypeOf(struct{ Level, Rate float32 }{}), "Tank", 0x300)})
		recT := p.AddTag(&plc.Tag{Name: "Rec", Type: plc.STRUCT, Tmpl: hx.TemplateOf(reflect.TypeOf(c02Recipe{}), "c02Recipe", 0x200)})
		steps := p.AddTag(&plc.Tag{Name: "Steps", Type: plc.STRUCT, Dims: []int{4}, Tmpl: hx.TemplateOf(reflect.TypeOf(c04Step{}), "c04Step", 0x400)})
		names := p.AddTag(&plc.Tag{Name: "Names", Type: plc.STRUCT, Dims: []int{3}, Tmpl: plc.StringTemplate})
		note := p.AddTag(&plc.Tag{Name: "Note", Type: plc.STRUCT, Tmpl: plc.StringTemplate})
		var full c04Nested
		hx.Fill(t, reflect.ValueOf(&full).Elem(), "val")
		type plain struct {
			Local  int32
			Level  float32    `gologix:"Tank[1].Level"`
			Recipe c02Recipe  `gologix:"Rec"`
			Steps  [3]c04Step `gologix:"Steps"`
			Names  [2]string  `gologix:"Names"`
			Note   string     `gologix:"Note"`
		}
		v := plain(full)
		size := rapid.SampledFrom([]uint16{4000, 511, 300}).Draw(t, "size")
		c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = size })
		defer c.Disconnect()
		if err := c.WriteMulti(v); err != nil {
			t.Fatalf("WriteMulti(%+v) over %d: %v", v, size, err)
		}
		ck := func(what string, got, want []byte) {
			if !bytes.Equal(got, want) {
				t.Fatalf("WriteMulti(%+v): %s is %x, want %x", v, what, got, want)
			}
		}
		enc := func(x any) []byte { return encodeEntry(reflect.ValueOf(x)) }
		ck("Tank", p.Get(tank), append(append(make([]byte, 8), enc(v.Level)...), 0, 0, 0, 0))
		ck("Rec", p.Get(recT), enc(v.Recipe))
		ck("Steps", p.Get(steps), append(enc(v.Steps), make([]byte, steps.ElemSize())...))
		ck("Names", []byte(strings.Join(decodeStrings(p.Get(names)), "\x00")), []byte(v.Names[0]+"\x00"+v.Names[1]+"\x00"))
		ck("Note", []byte(plc.DecodeString(p.Get(note))), []byte(v.Note))
		if e := p.TakeErrors(); e != nil {
			t.Fatalf("controller noted %v", e)
		}
		rec.Case(fmt.Sprintf("declared %d %+v", size, v), true, "declared")
	})
}

// Batches of thousands of entries.
func TestC04Huge(t *testing.T) {
	rec := hx.For("C04")
	rec.Rule("or a batch of 1000-4000 writes of array elements in shuffled order; non-trivial always")
	hx.Check(t, "C04", 50, func(t *rapid.T) {
		p := shared.Get()
		p.KeepLog = false
		n := rapid.IntRange(1000, 4000).Draw(t, "entries")
		mode := rapid.SampledFrom([]string{"map", "struct"}).Draw(t, "mode")
		large := rapid.Bool().Draw(t, "large")
		size := genConnSize(t)
		if large {
			size = genLargeSize(t)
		}
		tag := p.AddTag(&plc.Tag{Name: "arr", Type: plc.DINT, Dims: []int{n + 5}})
		b := make([]byte, 4*n)
		r := rand.New(rand.NewSource(int64(rapid.Uint32().Draw(t, "fill"))))
		r.Read(b)
		c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = size })
		defer c.Disconnect()
		v := hx.Var{Type: reflect.TypeOf(int32(0)), CIP: plc.DINT, Tag: tag, Bit: -1, Avail: 1, ESize: 4, Class: "scalar[]elem"}
		var ws []bwrite
		for _, k := range r.Perm(n) {
			e := v
			e.Path, e.Off = fmt.Sprintf("arr[%d]", k), 4*k
			ws = append(ws, bwrite{v: e, n: 1, path: e.Path, val: reflect.ValueOf(int32(uint32(b[4*k]) | uint32(b[4*k+1])<<8 | uint32(b[4*k+2])<<16 | uint32(b[4*k+3])<<24))})
		}
		what := fmt.Sprintf("%s write of %d entries over a %d byte connection", mode, n, c.ConnectionSize)
		if err := runWrites(t, c, mode, ws); err != nil {
			t.Fatalf("%s failed: %v; controller noted %v", what, err, p.TakeErrors())
		}
		if got := p.Get(tag); !bytes.Equal(got, append(b, make([]byte, 20)...)) {
			for i := range b {
				if got[i] != b[i] {
					t.Fatalf("%s: arr[%d] holds %x instead of %x", what, i/4, got[i/4*4:i/4*4+4], b[i/4*4:i/4*4+4])
				}
			}
			t.Fatalf("%s: an element past the batch was written", what)
		}
		if e := p.TakeErrors(); e != nil {
			t.Fatalf("%s: controller noted %v", what, e)
		}
		rec.Case(what, true, "huge batch")
	})
}
