package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// breq is one entry of a batch read.
type breq struct {
	v     hx.Var
	n     int  // elements (words for boolean arrays)
	slice bool // destination is a slice
	bit   int  // -1: the value itself
	blind bool // no destination type given
	path  string
}

func (q breq) String() string {
	return fmt.Sprintf("%s x%d slice=%v bit=%d blind=%v (%s of %s)", q.path, q.n, q.slice, q.bit, q.blind, q.v.Class, hx.Short(q.v.Type.String(), 60))
}

// dest is an example value of the destination.
func (q breq) dest() any {
	switch {
	case q.blind:
		return nil
	case q.bit >= 0:
		return false
	case q.v.Bools:
		return make([]bool, q.n*32)
	case q.slice:
		return reflect.MakeSlice(reflect.SliceOf(q.v.Type), q.n, q.n).Interface()
	}
	return reflect.Zero(q.v.Type).Interface()
}

// image is the controller image of a value delivered for q.
func (q breq) image(x any) ([]byte, error) {
	if q.blind && q.v.CIP == plc.STRUCT {
		b, ok := x.([]byte)
		if !ok {
			return nil, fmt.Errorf("delivered a %T for a structure of unknown type", x)
		}
		return b, nil
	}
	et := q.v.Type
	if q.bit >= 0 || q.v.Bools {
		et = reflect.TypeOf(false)
	}
	rv := reflect.ValueOf(x)
	if !rv.IsValid() {
		return nil, fmt.Errorf("delivered nil")
	}
	var elems []reflect.Value
	if rv.Kind() == reflect.Slice {
		for i := 0; i < rv.Len(); i++ {
			e := rv.Index(i)
			if e.Kind() == reflect.Interface {
				e = e.Elem()
			}
			elems = append(elems, e)
		}
	} else {
		elems = []reflect.Value{rv}
	}
	want := q.n
	if q.v.Bools {
		want *= 32
	}
	if len(elems) != want {
		return nil, fmt.Errorf("delivered %d elements instead of %d", len(elems), want)
	}
	if q.v.Bools {
		bs := make([]bool, want)
		for i, e := range elems {
			if !e.IsValid() || e.Type() != et {
				return nil, fmt.Errorf("delivered %v for a bool", e)
			}
			bs[i] = e.Bool()
		}
		return hx.PackBools(bs), nil
	}
	var out []byte
	for _, e := range elems {
		if !e.IsValid() || e.Type() != et {
			return nil, fmt.Errorf("delivered %T element %v for a %v", x, e, et)
		}
		out = append(out, hx.EncodeAny(e)...)
	}
	return out, nil
}

// want is the image the controller holds.
func (q breq) want(w *hx.World) []byte {
	img := w.Image(q.v, q.n)
	if q.bit >= 0 {
		return []byte{img[q.bit/8] >> uint(q.bit%8) & 1}
	}
	return img
}

// sameImage compares, allowing for undefined bytes past the text of strings
// and a structure without padding after its last member.
func (q breq) same(got, want []byte) bool {
	if q.v.CIP == plc.STRUCT && q.v.Type.Kind() == reflect.String {
		return strings.Join(decodeStrings(got), "\x00") == strings.Join(decodeStrings(want), "\x00") && len(got) == len(want)
	}
	return bytes.Equal(got, want)
}

// replySize is the room the reply to q takes inside a batch reply.
func (q breq) replySize() int {
	n := 2 + 4 + 2 + q.n*q.v.ESize
	if q.v.Bit >= 0 {
		n = 2 + 4 + 2 + 1
	}
	if q.v.CIP == plc.STRUCT {
		n += 2
	}
	return n
}

func genBatch(t *rapid.T, w *hx.World, n int, mode string) []breq {
	return genBatchN(t, w, n, mode, 40)
}

// genBatchN limits most of the element counts to lim.
func genBatchN(t *rapid.T, w *hx.World, n int, mode string, lim int) []breq {
	var out []breq
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		v := rapid.SampledFrom(w.Vars).Draw(t, "var")
		q := breq{v: v, n: 1, bit: -1}
		structy := v.Type.Kind() == reflect.Struct
		if v.Bools {
			q.slice = true
			q.n = rapid.IntRange(1, v.Words).Draw(t, "words")
		} else if v.Type.Kind() != reflect.Bool && !structy && v.Avail > 1 && rapid.IntRange(0, 2).Draw(t, "sl") > 0 {
			q.slice = true
			q.n = genCount(t, v)
			if q.n > lim && rapid.IntRange(0, 3).Draw(t, "keepbig") > 0 {
				q.n = 1 + q.n%lim
			}
		} else if !structy && v.Type.Kind() != reflect.Bool && rapid.IntRange(0, 5).Draw(t, "sl1") == 0 {
			q.slice = true
		}
		if mode == "group" && (structy || v.Bools && false) {
			continue
		}
		k := v.Type.Kind()
		single := v.Avail == 1 || strings.HasSuffix(v.Path, "]")
		if !q.slice && single && k >= reflect.Int8 && k <= reflect.Uint64 && rapid.IntRange(0, 3).Draw(t, "bit") == 0 {
			q.bit = rapid.IntRange(0, 8*v.ESize-1).Draw(t, "bitno")
		}
		if q.bit < 0 && !q.slice && !v.Bools && v.Type.Kind() != reflect.Struct && (mode == "list" || mode == "map") && rapid.IntRange(0, 7).Draw(t, "blind") == 0 {
			q.blind = true
		}
		p := v.Path
		if q.bit >= 0 {
			p += fmt.Sprintf(".%d", q.bit)
		}
		q.path = hx.RandCase(t, p, "case")
		if mode == "map" || mode == "group" {
			if seen[q.path] {
				continue
			}
			seen[q.path] = true
		}
		out = append(out, q)
	}
	return out
}

var firstIndex = regexp.MustCompile(`\[(\d+)`)

// templated replaces the first index by {0} wherever it equals arg.
func templated(t *rapid.T, paths []string) ([]string, []any) {
	arg := ""
	for _, p := range paths {
		if m := firstIndex.FindStringSubmatch(p); m != nil && rapid.IntRange(0, 2).Draw(t, "arg") == 0 {
			arg = m[1]
			break
		}
	}
	if arg == "" {
		return paths, nil
	}
	out := append([]string(nil), paths...)
	for i, p := range out {
		if m := firstIndex.FindStringSubmatchIndex(p); m != nil && p[m[2]:m[3]] == arg && rapid.Bool().Draw(t, "tmpl") {
			out[i] = p[:m[2]] + "{0}" + p[m[3]:]
		}
	}
	n, _ := strconv.Atoi(arg)
	if rapid.Bool().Draw(t, "strarg") {
		return out, []any{arg}
	}
	return out, []any{n}
}

// runBatch performs one batch read and returns the value delivered for every entry.
func runBatch(t *rapid.T, c *gologix.Client, mode string, qs []breq) ([]any, error) {
	out := make([]any, len(qs))
	var err error
	bad := ""
	switch mode {
	case "list":
		names, types, elems := make([]string, len(qs)), make([]any, len(qs)), make([]int, len(qs))
		for i, q := range qs {
			names[i], types[i], elems[i] = q.path, q.dest(), q.n
			if q.v.Bools {
				elems[i] = q.n * 32
			}
		}
		var vals []any
		bad = hx.Within(opLimit, func() { vals, err = c.ReadList(names, types, elems) })
		if bad == "" && err == nil {
			if len(vals) != len(qs) {
				return nil, fmt.Errorf("VIOLATED: %d results for %d tags", len(vals), len(qs))
			}
			copy(out, vals)
		}
	case "map":
		m := map[string]any{}
		for _, q := range qs {
			m[q.path] = q.dest()
		}
		if rapid.Bool().Draw(t, "multi") {
			bad = hx.Within(opLimit, func() { err = c.ReadMulti(m) })
		} else {
			bad = hx.Within(opLimit, func() { err = c.ReadMap(m) })
		}
		if bad == "" && err == nil && len(m) != len(qs) {
			return nil, fmt.Errorf("VIOLATED: map has %d entries after reading %d", len(m), len(qs))
		}
		for i, q := range qs {
			out[i] = m[q.path]
		}
	case "group":
		paths := make([]string, len(qs))
		for i := range qs {
			paths[i] = qs[i].path
		}
		paths, args := templated(t, paths)
		defs := make([]gologix.TagDef, len(qs))
		for i, q := range qs {
			d := gologix.TagDef{Name: paths[i], Type: gologix.CIPType(q.v.CIP), Elements: q.n}
			switch {
			case q.v.Type.Kind() == reflect.String:
				d.Type = gologix.CIPTypeSTRING
			case q.bit >= 0 || q.v.Bit >= 0:
				d.Type = gologix.CIPTypeBOOL
			case q.v.Bools:
				d.Type, d.Elements = gologix.CIPTypeBOOL, q.n*32
			}
			if d.Elements == 1 && rapid.Bool().Draw(t, "zero") {
				d.Elements = 0
			}
			defs[i] = d
		}
		g := gologix.NewTagGroup(defs...)
		var res *gologix.TagGroupResult
		bad = hx.Within(opLimit, func() { res, err = c.ReadTagGroup(g, args...) })
		if bad == "" && err == nil {
			for i, q := range qs {
				v, e := res.Value(q.path)
				if e != nil {
					return nil, fmt.Errorf("VIOLATED: no value for %s: %v", q.path, e)
				}
				out[i] = v
			}
		}
	case "struct":
		paths := make([]string, len(qs))
		for i := range qs {
			paths[i] = qs[i].path
		}
		paths, args := templated(t, paths)
		var fs []reflect.StructField
		idx := make([]int, len(qs))
		var extra []int
		for i, q := range qs {
			if rapid.IntRange(0, 9).Draw(t, "untagged") == 0 {
				extra = append(extra, len(fs))
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("U%d", len(fs)), Type: reflect.TypeOf(int32(0))})
			}
			idx[i] = len(fs)
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: reflect.TypeOf(q.dest()),
				Tag: reflect.StructTag(`gologix:` + strconv.Quote(paths[i]))})
		}
		x := reflect.New(reflect.StructOf(fs))
		for i, q := range qs {
			x.Elem().Field(idx[i]).Set(reflect.ValueOf(q.dest()))
		}
		for _, e := range extra {
			x.Elem().Field(e).SetInt(77)
		}
		bad = hx.Within(opLimit, func() { err = c.ReadMulti(x.Interface(), args...) })
		for _, e := range extra {
			if x.Elem().Field(e).Int() != 77 {
				return nil, fmt.Errorf("VIOLATED: a field without a tag was changed")
			}
		}
		for i := range qs {
			out[i] = x.Elem().Field(idx[i]).Interface()
		}
	}
	if bad != "" {
		return nil, fmt.Errorf("VIOLATED: %s", bad)
	}
	return out, err
}

var c03World = hx.WorldOpts{MinTags: 1, MaxTags: 25, Structs: true, Strings: true, Bools: true, Programs: true, BigIndex: false, AltTypes: true,
	StructOpts: hx.StructOpts{Depth: 1, NoPack: true, BoolArrays: true, Arrays: true, MaxFields: 6}}

var batchSizes = []uint16{4000, 4000, 511, 508, 504, 200, 250, 1000}

// genLargeSize draws a connection size beyond what Logix controllers grant.
func genLargeSize(t *rapid.T) uint16 {
	if rapid.Bool().Draw(t, "anylarge") {
		return uint16(rapid.IntRange(4001, 65511).Draw(t, "lsize"))
	}
	return rapid.SampledFrom([]uint16{4096, 4097, 4200, 8200, 32767, 32768, 65511}).Draw(t, "lsize")
}

func genConnSize(t *rapid.T) uint16 {
	if rapid.Bool().Draw(t, "anysize") {
		return uint16(rapid.IntRange(200, 1200).Draw(t, "size"))
	}
	return rapid.SampledFrom(batchSizes).Draw(t, "size")
}

// checkBatchLog compares the read requests the controller saw with the batch.
func checkBatchLog(what string, log []*plc.Req, qs []breq, ordered bool) string {
	var got, want []string
	for _, r := range log {
		switch {
		case r.Service == 0x0A || r.Service == 0x0E || r.Service == 0x01 || r.Service == 0x03:
		case r.Service == 0x4C && len(r.Data) == 2:
			got = append(got, fmt.Sprintf("%s x%d", plc.SegsString(r.Path), int(r.Data[0])|int(r.Data[1])<<8))
		default:
			return fmt.Sprintf("%s sent %v", what, r)
		}
	}
	for _, q := range qs {
		want = append(want, fmt.Sprintf("%s x%d", plc.CanonText(q.v.Path), q.n))
	}
	if ordered {
		if !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("%s requested\n %v\nwant\n %v", what, got, want)
		}
		return ""
	}
	cnt := map[string]int{}
	for _, x := range want {
		cnt[x]++
	}
	for _, x := range got {
		cnt[x]--
	}
	for x, n := range cnt {
		if n != 0 {
			return fmt.Sprintf("%s requested %s %d times too few", what, x, n)
		}
	}
	return ""
}

func TestC03(t *testing.T) {
	rec := hx.For("C03")
	rec.Rule("one generated controller (1-25 tags), connection size 200-4000 (one case in eight up to 65511, with large arrays), and one batch of 1-600 reads by struct, map, list or tag group (scalars, arrays, strings, structures, boolean arrays, bits; indexes given by template arguments); each delivered value compared with controller memory and the requests seen with the entries; non-trivial when at least two values were delivered")
	rec.Assume("entries whose own reply cannot fit the connection may make the batch fail", "entries given without a type have unknown size, so a batch with them may overflow and fail")
	hx.Check(t, "C03", 3000, func(t *rapid.T) {
		p := shared.Get()
		big := rapid.IntRange(0, 7).Draw(t, "large") == 0 // connections and arrays far beyond the usual
		wo, lim := c03World, 40
		if big {
			wo.BigIndex, wo.MaxElems, lim = true, 600, rapid.SampledFrom([]int{40, 300, 2000}).Draw(t, "lim")
		}
		w := hx.GenWorld(t, p, wo)
		size := genConnSize(t)
		if big {
			size = genLargeSize(t)
		}
		c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = size })
		defer c.Disconnect()
		mode := rapid.SampledFrom([]string{"list", "map", "group", "struct"}).Draw(t, "mode")
		n := rapid.IntRange(1, 20).Draw(t, "entries")
		if rapid.IntRange(0, 2).Draw(t, "many") == 0 {
			n = rapid.IntRange(20, 120).Draw(t, "entriesbig")
			if big {
				n *= 5
			}
		}
		qs := genBatchN(t, w, n, mode, lim)
		if len(qs) == 0 {
			t.Skip("empty")
		}
		mayFail := ""
		total, blind := 0, false
		for _, q := range qs {
			if 2+4+2+q.replySize() > int(c.ConnectionSize) {
				mayFail = "oversized entry " + q.String()
			}
			blind = blind || q.blind
			total += q.replySize()
		}
		if blind && 2+4+2+total > int(c.ConnectionSize) {
			mayFail = "blind entries"
		}
		before := p.Snapshot()
		p.TakeLog()
		what := fmt.Sprintf("%s read of %d entries over %d byte connection", mode, len(qs), c.ConnectionSize)
		vals, err := runBatch(t, c, mode, qs)
		log := p.TakeLog()
		if err != nil && strings.HasPrefix(err.Error(), "VIOLATED") {
			t.Fatalf("%s: %v\n%v", what, err, qs)
		}
		if e := p.TakeErrors(); e != nil {
			t.Fatalf("%s: controller noted %v\n%v", what, e, qs)
		}
		if err != nil {
			if mayFail == "" {
				t.Fatalf("%s failed: %v\n%v", what, err, qs)
			}
			rec.Class("failed: too large")
			if !c.Connected() {
				t.Fatalf("%s lost the connection: %v", what, err)
			}
			return
		}
		desc := what
		for i, q := range qs {
			got, e := q.image(vals[i])
			want := q.want(w)
			if e != nil || !q.same(got, want) {
				t.Fatalf("%s, entry %d %v\n got %x (%v) %v\nwant %x", what, i, q, got, vals[i], e, want)
			}
			desc += fmt.Sprintf("; %s=%.20x", q.path, want)
			rec.Class("entry:" + q.v.Class)
			if q.bit >= 0 {
				rec.Class("entry:bit")
			}
		}
		if bad := checkBatchLog(what, log, qs, mode == "list" || mode == "struct"); bad != "" {
			t.Fatalf("%s", bad)
		}
		if d := diffOutside(before, p.Snapshot(), "", 0, 0); d != "" {
			t.Fatalf("%s changed controller memory: %s", what, d)
		}
		msgs := 0
		for _, r := range log {
			if r.Service == 0x0A {
				msgs++
			}
		}
		cl := "messages:1"
		if msgs > 1 {
			cl = "messages:2-5"
		}
		if msgs > 5 {
			cl = "messages:6+"
		}
		rec.Case(desc, len(qs) > 1, "mode:"+mode, cl)
	})
}

// One unreadable entry anywhere makes the whole call an error.
func TestC03Refuse(t *testing.T) {
	rec := hx.For("C03")
	rec.Rule("a batch with one entry that is unknown, refused by the controller or of another type than its destination: an error (or, where the destination is dynamic, the real value), and the client still works; non-trivial always")
	hx.Check(t, "C03", 1500, func(t *rapid.T) {
		p := shared.Get()
		w := hx.GenWorld(t, p, c03World)
		size := genConnSize(t)
		c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = size })
		defer c.Disconnect()
		mode := rapid.SampledFrom([]string{"list", "map", "group", "struct"}).Draw(t, "mode")
		qs := genBatch(t, w, rapid.IntRange(1, 60).Draw(t, "entries"), mode)
		if len(qs) == 0 {
			t.Skip("empty")
		}
		k := rapid.IntRange(0, len(qs)-1).Draw(t, "victim")
		kind := rapid.SampledFrom([]string{"unknown", "status", "type"}).Draw(t, "kind")
		st := byte(0)
		hit := false
		switch kind {
		case "unknown":
			v := &qs[k]
			v.path = "zq_" + v.path
			if strings.Contains(v.path, ":") {
				v.path = "zq_tag"
				v.bit = -1
			}
			for _, x := range p.Tags() {
				if x.Program == "" && strings.HasPrefix(strings.ToLower(v.path), strings.ToLower(x.Name)) {
					t.Skip("exists")
				}
			}
			hit = true
		case "status":
			st = rapid.SampledFrom([]byte{1, 4, 5, 8, 0x0A, 0x0F, 0x11, 0x13, 0x14, 0x26, 0xFF, 2, 3, 0x1E, 0x20, 0x40, 0x80, 0xC0}).Draw(t, "status")
			ms := rapid.SampledFrom([]byte{0x1E, 0}).Draw(t, "multistatus")
			target := plc.CanonText(qs[k].v.Path)
			ext := []uint16(nil)
			if rapid.Bool().Draw(t, "ext") {
				ext = []uint16{0x2105}
			}
			withData := rapid.Bool().Draw(t, "withdata")
			p.Lock()
			p.MultiStatus = ms
			p.Intercept = func(r *plc.Req) *plc.Reply {
				if r.Service == 0x4C && plc.SegsString(r.Path) == target {
					hit = true
					rep := &plc.Reply{Status: st, Ext: ext}
					if withData {
						rep.Data = []byte{0xC4, 0, 1, 2, 3, 4, 0, 0, 0, 0}
					}
					return rep
				}
				return nil
			}
			p.Unlock()
		case "type":
			q := &qs[k]
			if mode != "struct" || q.bit >= 0 || q.v.Bools || q.v.Bit >= 0 || q.v.Type.Kind() == reflect.Struct {
				t.Skip("type")
			}
			o := rapid.SampledFrom([]reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
				reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(struct{ A, B int32 }{})}).Draw(t, "as")
			if o == q.v.Type || q.v.Type.Kind() == reflect.String && o.Kind() == reflect.Struct || q.slice && (o.Kind() == reflect.Struct || o.Kind() == reflect.Bool) {
				t.Skip("type")
			}
			q.v.Type = o
			hit = true
		}
		what := fmt.Sprintf("%s: %s read of %d entries, entry %d %v", kind, mode, len(qs), k, qs[k])
		before := p.Snapshot()
		vals, err := runBatch(t, c, mode, qs)
		if err != nil && strings.HasPrefix(err.Error(), "VIOLATED") {
			t.Fatalf("%s: %v", what, err)
		}
		if err == nil && hit {
			t.Fatalf("%s (status %#x) reported success and delivered %v", what, st, vals[k])
		}
		if d := diffOutside(before, p.Snapshot(), "", 0, 0); d != "" {
			t.Fatalf("%s changed controller memory: %s", what, d)
		}
		rec.Case(what, hit, "refuse:"+kind)
		p.Lock()
		p.Intercept, p.MultiStatus = nil, 0x1E
		p.Unlock()
		if !c.Connected() {
			t.Fatalf("%s lost the connection: %v", what, err)
		}
		o := rapid.SampledFrom(w.Vars).Draw(t, "after")
		if o.Bools || o.Avail > 1 && o.Type.Kind() == reflect.Struct || o.ESize+20 > int(c.ConnectionSize) {
			return
		}
		img, _, err := readVar(c, o, 1, "ptr", o.Path)
		if err != nil || !bytes.Equal(img, w.Image(o, 1)) && o.Type.Kind() != reflect.String {
			t.Fatalf("after %s, %q reads %x (%v), want %x", what, o.Path, img, err, w.Image(o, 1))
		}
	})
}

type c03Inner struct {
	Rate  float32 `gologix:"Rates[{0}]"`
	Count int32   `gologix:"Counts[{0},{1}]"`
}

type c03Outer struct {
	c03Note  string
	Untagged int
	c03Embed
	*C03Ptr
	Counts []int32   `gologix:"Counts[{0},0]"`
	Flag   bool      `gologix:"Word.{1}"`
	Text   string    `gologix:"Name"`
	Recipe c02Recipe `gologix:"Rec"`
	Two    []string  `gologix:"Names"`
}
type c03Embed struct {
	c03Deep
	A int16 `gologix:"Shorts[{1}]"`
	B uint8 `gologix:"Bytes[{0}]"`
}
type c03Deep struct {
	Before int
	c03Deeper
}
type c03Deeper struct {
	Note string
	E    uint8   `gologix:"Bytes[{0}]"`
	F    float32 `gologix:"Rates[{0}]"`
}
type C03Ptr struct {
	C int64 `gologix:"Longs[{1}]"`
}

// A declared structure type with embedded structures and templates.
func TestC03Declared(t *testing.T) {
	rec := hx.For("C03")
	rec.Rule("a declared struct with embedded structs, untagged fields and templated names, read with random arguments from random memory; non-trivial always")
	hx.Check(t, "C03", 450, func(t *rapid.T) {
		p := shared.Get()
		fill := func(name string, typ byte, dims []int) *plc.Tag {
			tag := &plc.Tag{Name: name, Type: typ, Dims: dims}
			p.AddTag(tag)
			b := make([]byte, len(tag.Data))
			seed := rapid.Uint32().Draw(t, name)
			for i := range b {
				seed = seed*1664525 + 1013904223
				b[i] = byte(seed >> 16)
				if (typ == plc.REAL) && i%4 == 3 {
					b[i] &= 0x3f
				}
			}
			p.Set(tag, 0, b)
			return tag
		}
		rates, counts := fill("Rates", plc.REAL, []int{300}), fill("Counts", plc.DINT, []int{300, 4})
		word, shorts, bytesT, longs := fill("Word", plc.DINT, nil), fill("Shorts", plc.INT, []int{8}), fill("Bytes", plc.BYTE, []int{300}), fill("Longs", plc.LINT, []int{8})
		name := p.AddTag(&plc.Tag{Name: "Name", Type: plc.STRUCT, Tmpl: plc.StringTemplate, Data: plc.EncodeString(hx.GenString(t, "name", 82))})
		names := p.AddTag(&plc.Tag{Name: "Names", Type: plc.STRUCT, Tmpl: plc.StringTemplate, Dims: []int{3}})
		for i := 0; i < 3; i++ {
			p.Set(names, 88*i, plc.EncodeString(hx.GenString(t, "names", 82)))
		}
		recT := p.AddTag(&plc.Tag{Name: "Rec", Type: plc.STRUCT, Tmpl: hx.TemplateOf(reflect.TypeOf(c02Recipe{}), "c02Recipe", 0x200)})
		var recipe c02Recipe
		hx.Fill(t, reflect.ValueOf(&recipe).Elem(), "recipe")
		p.Set(recT, 0, hx.EncodeAny(reflect.ValueOf(recipe)))
		a, b := rapid.IntRange(0, 299).Draw(t, "a"), rapid.IntRange(0, 3).Draw(t, "b")
		size := genConnSize(t)
		c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = size })
		defer c.Disconnect()
		var in c03Inner
		if err := c.ReadMulti(&in, a, b); err != nil {
			t.Fatalf("ReadMulti(%d,%d): %v", a, b, err)
		}
		if g := hx.Encode(in); !bytes.Equal(g[:4], p.Get(rates)[4*a:4*a+4]) || !bytes.Equal(g[4:], p.Get(counts)[4*(4*a+b):4*(4*a+b)+4]) {
			t.Fatalf("ReadMulti(%d,%d) delivered %+v", a, b, in)
		}
		o := c03Outer{c03Note: "keep", Untagged: 5, C03Ptr: &C03Ptr{}, Counts: make([]int32, 4), Two: make([]string, 2)}
		err := c.ReadMulti(&o, a, b)
		if err != nil && c.ConnectionSize < 230 {
			return
		}
		if err != nil {
			t.Fatalf("ReadMulti of embedded structures (%d,%d) over %d: %v", a, b, c.ConnectionSize, err)
		}
		enc := func(x any) []byte { return hx.EncodeAny(reflect.ValueOf(x)) }
		ck := func(what string, got, want []byte) {
			if !bytes.Equal(got, want) {
				t.Fatalf("ReadMulti(%d,%d): %s is %x, want %x", a, b, what, got, want)
			}
		}
		ck("embedded A", enc(o.A), p.Get(shorts)[2*b:2*b+2])
		ck("embedded B", enc(o.B), p.Get(bytesT)[a:a+1])
		ck("twice embedded E", enc(o.E), p.Get(bytesT)[a:a+1])
		ck("twice embedded F", enc(o.F), p.Get(rates)[4*a:4*a+4])
		ck("embedded pointer C", enc(o.C), p.Get(longs)[8*b:8*b+8])
		ck("slice", enc(o.Counts), p.Get(counts)[16*a:16*a+16])
		ck("bit", enc(o.Flag), []byte{p.Get(word)[0] >> uint(b) & 1})
		ck("string", enc(o.Text), p.Get(name))
		ck("structure", enc(o.Recipe), p.Get(recT))
		ck("strings", enc(o.Two), p.Get(names)[:176])
		if o.c03Note != "keep" || o.Untagged != 5 {
			t.Fatalf("untagged fields changed: %+v", o)
		}
		rec.Case(fmt.Sprintf("declared %d %d %d %+v", a, b, size, o.Counts), true, "declared")
	})
}

// Batches of thousands of entries.
func TestC03Huge(t *testing.T) {
	rec := hx.For("C03")
	rec.Rule("or a batch of 1000-4000 reads of array elements in shuffled order; non-trivial always")
	hx.Check(t, "C03", 50, func(t *rapid.T) {
		p := shared.Get()
		p.KeepLog = false
		n := rapid.IntRange(1000, 4000).Draw(t, "entries")
		mode := rapid.SampledFrom([]string{"list", "map", "group", "struct"}).Draw(t, "mode")
		large := rapid.Bool().Draw(t, "large")
		size := genConnSize(t)
		if large {
			size = genLargeSize(t)
		}
		tag := p.AddTag(&plc.Tag{Name: "arr", Type: plc.DINT, Dims: []int{n}})
		b := make([]byte, 4*n)
		r := rand.New(rand.NewSource(int64(rapid.Uint32().Draw(t, "fill"))))
		r.Read(b)
		p.Set(tag, 0, b)
		order := r.Perm(n)
		c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = size })
		defer c.Disconnect()
		v := hx.Var{Type: reflect.TypeOf(int32(0)), CIP: plc.DINT, Tag: tag, Bit: -1, Avail: 1, ESize: 4, Class: "scalar[]elem"}
		qs := make([]breq, n)
		for i, k := range order {
			e := v
			e.Path, e.Off = fmt.Sprintf("arr[%d]", k), 4*k
			qs[i] = breq{v: e, n: 1, bit: -1, path: e.Path}
		}
		what := fmt.Sprintf("%s read of %d entries over a %d byte connection", mode, n, c.ConnectionSize)
		vals, err := runBatch(t, c, mode, qs)
		if err != nil {
			t.Fatalf("%s failed: %v; controller noted %v", what, err, p.TakeErrors())
		}
		for i, q := range qs {
			got, e := q.image(vals[i])
			if e != nil || !bytes.Equal(got, b[q.v.Off:q.v.Off+4]) {
				t.Fatalf("%s: entry %d %s is %x (%v), want %x", what, i, q.path, got, e, b[q.v.Off:q.v.Off+4])
			}
		}
		if e := p.TakeErrors(); e != nil {
			t.Fatalf("%s: controller noted %v", what, e)
		}
		rec.Case(what, true, "huge batch")
	})
}
