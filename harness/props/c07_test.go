package props

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// checkOpens: no connection was asked for with more room than configured.
func checkOpens(p *plc.PLC, configured int) string {
	p.Lock()
	defer p.Unlock()
	for i, o := range p.Opens {
		if o.Size > configured || o.TOSize > configured {
			return fmt.Sprintf("open %d (large %v) asks for %d/%d bytes, configured %d", i, o.Large, o.Size, o.TOSize, configured)
		}
		if o.Size == 0 || o.TOSize == 0 {
			return fmt.Sprintf("open %d asks for %d/%d bytes", i, o.Size, o.TOSize)
		}
	}
	return ""
}

func TestC07(t *testing.T) {
	rec := hx.For("C07")
	rec.Rule("a controller with up to 400 tags of drawn name lengths, a configured connection size from 60 to 65511, large connections allowed, refused or limited, and one batch of up to 400 entries (list, struct, map, group, map write); every request measured against the size of its connection and the embedded requests compared in order with the entries; non-trivial when the batch needed more than one message or filled its message to within one entry")
	hx.Check(t, "C07", 2100, func(t *rapid.T) {
		p := shared.Get()
		cfg := rapid.SampledFrom([]int{4000, 511, 512, 504, 508, 500, 0, 200}).Draw(t, "cfg")
		switch rapid.IntRange(0, 3).Draw(t, "cfgk") {
		case 0:
			cfg = rapid.IntRange(60, 700).Draw(t, "cfgsmall")
		case 1:
			cfg = rapid.IntRange(500, 65511).Draw(t, "cfgany")
		}
		p.AllowLarge = rapid.IntRange(0, 3).Draw(t, "large") > 0
		if rapid.IntRange(0, 3).Draw(t, "limit") == 0 {
			p.MaxLarge = rapid.IntRange(512, 4000).Draw(t, "maxlarge")
		}
		p.EnforceReply = rapid.Bool().Draw(t, "enforce")
		n := rapid.IntRange(1, 60).Draw(t, "tags")
		if rapid.IntRange(0, 2).Draw(t, "many") == 0 {
			n = rapid.IntRange(60, 400).Draw(t, "tagsmany")
		}
		longNames := rapid.IntRange(0, 2).Draw(t, "longnames")
		types := []struct {
			cip byte
			t   reflect.Type
		}{{plc.DINT, reflect.TypeOf(int32(0))}, {plc.SINT, reflect.TypeOf(int8(0))}, {plc.INT, reflect.TypeOf(int16(0))}, {plc.LREAL, reflect.TypeOf(float64(0))}}
		names := make([]string, n)
		vals := make([]any, n)
		elems := make([]int, n)
		seed := rapid.Uint32().Draw(t, "seed")
		rnd := func(k int) int { seed = seed*1664525 + 1013904223; return int(seed>>8) % k }
		minFit := 0 // room the biggest single entry needs as a message of its own
		var want []string
		for i := range names {
			l := 1 + rnd(12)
			if longNames == 1 {
				l = 40
			} else if longNames == 2 {
				l = 1 + rnd(40)
			}
			name := fmt.Sprintf("t%d_", i)
			for len(name) < l {
				name += string(nameLetters[rnd(len(nameLetters))])
			}
			ty := types[rnd(len(types))]
			cnt := 1
			tag := &plc.Tag{Name: name, Type: ty.cip}
			if rnd(3) == 0 {
				cnt = 2 + rnd(8)
				tag.Dims = []int{cnt}
				if rnd(10) == 0 {
					tag.Dims = []int{600}
					cnt = 2 + rnd(60)
				}
			}
			p.AddTag(tag)
			names[i], elems[i] = name, cnt
			if cnt > 1 {
				vals[i] = reflect.MakeSlice(reflect.SliceOf(ty.t), cnt, cnt).Interface()
			} else {
				vals[i] = reflect.Zero(ty.t).Interface()
			}
			es := plc.AtomSize(ty.cip)
			req := 4 + len(name) + len(name)%2 + 2
			rep := 4 + 2 + es*cnt
			if x := 2 + 2 + 2 + 4 + 2 + 2 + 8 + req + es*cnt; x > minFit { // either direction, generously
				minFit = x
			}
			if x := 2 + 4 + 2 + 2 + 8 + rep; x > minFit {
				minFit = x
			}
			want = append(want, fmt.Sprintf("%s x%d", strings.ToLower(name), cnt))
		}
		c := hx.NewClient(p)
		c.ConnectionSize = uint16(cfg)
		if err := c.Connect(); err != nil {
			t.Fatalf("connect with size %d, large %v up to %d: %v", cfg, p.AllowLarge, p.MaxLarge, err)
		}
		defer c.Disconnect()
		if cfg == 0 {
			cfg = 4000
		}
		if bad := checkOpens(p, cfg); bad != "" {
			t.Fatalf("configured %d: %s", cfg, bad)
		}
		p.Lock()
		size := p.Opens[len(p.Opens)-1].Size
		p.Unlock()
		mode := rapid.SampledFrom([]string{"list", "list", "struct", "map", "group", "writemap", "writestruct"}).Draw(t, "mode")
		p.TakeLog()
		var err error
		var bad string
		limited := hx.Within
		ordered := true
		switch mode {
		case "list":
			var got []any
			bad = limited(opLimit, func() { got, err = c.ReadList(names, vals, elems) })
			if err == nil && len(got) != n {
				t.Fatalf("%d results for %d tags", len(got), n)
			}
		case "map":
			ordered = false
			m := map[string]any{}
			for i := range names {
				m[names[i]] = vals[i]
			}
			bad = limited(opLimit, func() { err = c.ReadMap(m) })
		case "writemap":
			ordered = false
			m := map[string]any{}
			for i := range names {
				m[names[i]] = vals[i]
			}
			bad = limited(opLimit, func() { err = c.WriteMap(m) })
		case "struct", "writestruct":
			var fs []reflect.StructField
			for i := range names {
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(vals[i]), Tag: reflect.StructTag(fmt.Sprintf(`gologix:"%s"`, names[i]))})
			}
			x := reflect.New(reflect.StructOf(fs))
			for i := range vals {
				x.Elem().Field(i).Set(reflect.ValueOf(vals[i]))
			}
			if mode == "struct" {
				bad = limited(opLimit, func() { err = c.ReadMulti(x.Interface()) })
			} else {
				bad = limited(opLimit, func() { err = c.WriteMulti(x.Elem().Interface()) })
			}
		case "group":
			defs := make([]gologix.TagDef, n)
			for i := range names {
				ct, _ := gologix.GoVarToCIPType(vals[i])
				defs[i] = gologix.TagDef{Name: names[i], Type: ct, Elements: elems[i]}
			}
			bad = limited(opLimit, func() { _, err = c.ReadTagGroup(gologix.NewTagGroup(defs...)) })
		}
		what := fmt.Sprintf("%s of %d tags (names mode %d), configured %d, negotiated %d", mode, n, longNames, cfg, size)
		if bad != "" {
			t.Fatalf("%s: %s", what, bad)
		}
		log := p.TakeLog()
		if e := p.TakeErrors(); e != nil {
			t.Fatalf("%s: controller noted %v", what, e)
		}
		if err != nil {
			if minFit <= size {
				t.Fatalf("%s failed although every entry fits (largest needs %d): %v", what, minFit, err)
			}
			rec.Class("an entry does not fit: refused")
			return
		}
		var got []string
		msgs, biggest := 0, 0
		for _, r := range log {
			if r.Connected && r.Embedded < 0 {
				if r.ItemLen > size {
					t.Fatalf("%s: request of %d bytes", what, r.ItemLen)
				}
				if r.ItemLen > biggest {
					biggest = r.ItemLen
				}
			}
			switch r.Service {
			case 0x0A:
				msgs++
			case 0x4C:
				got = append(got, fmt.Sprintf("%s x%d", plc.SegsString(r.Path), binary.LittleEndian.Uint16(r.Data)))
			case 0x4D:
				got = append(got, fmt.Sprintf("%s x%d", plc.SegsString(r.Path), binary.LittleEndian.Uint16(r.Data[2:])))
			}
		}
		if !ordered {
			a, b := map[string]int{}, map[string]int{}
			for _, x := range got {
				a[x]++
			}
			for _, x := range want {
				b[x]++
			}
			if !reflect.DeepEqual(a, b) {
				t.Fatalf("%s: requests %v, want %v", what, got, want)
			}
		} else if mode == "list" || mode == "struct" {
			if !reflect.DeepEqual(got, want) {
				t.Fatalf("%s: requests in order\n %v, want\n %v", what, got, want)
			}
		} else {
			cnt := map[string]int{}
			for _, x := range want {
				cnt[x]++
			}
			for _, x := range got {
				cnt[x]--
			}
			for x, k := range cnt {
				if k != 0 {
					t.Fatalf("%s: %s requested %d times", what, x, 1-k)
				}
			}
		}
		rec.Case(what+fmt.Sprint(want[:min(len(want), 10)]), msgs > 1 || biggest+60 > size, fmt.Sprintf("mode:%s", mode), fmt.Sprintf("split:%v", msgs > 1))
	})
}

const nameLetters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"

// Calls other than batches: they either fit or fail.
func TestC07Others(t *testing.T) {
	rec := hx.For("C07")
	rec.Rule("single writes, array writes, generic messages and attribute lists whose request is around the connection size: every request seen fits; non-trivial when the request is within 40 bytes of the limit or beyond it")
	hx.Check(t, "C07", 1500, func(t *rapid.T) {
		p := shared.Get()
		cfg := rapid.SampledFrom([]int{4000, 511, 504, 200, 100}).Draw(t, "cfg")
		p.AllowLarge = rapid.IntRange(0, 3).Draw(t, "large") > 0
		p.Objects[0x300] = func(r *plc.Req) plc.Reply { return plc.Reply{} }
		es := rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "es")
		tag := &plc.Tag{Name: hx.GenName(t, "name"), Type: map[int]byte{1: plc.SINT, 2: plc.INT, 4: plc.DINT, 8: plc.LINT}[es], Dims: []int{70000}}
		p.AddTag(tag)
		c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = uint16(cfg) })
		defer c.Disconnect()
		p.Lock()
		size := p.Opens[len(p.Opens)-1].Size
		p.Unlock()
		if bad := checkOpens(p, cfg); bad != "" {
			t.Fatalf("configured %d: %s", cfg, bad)
		}
		target := size + rapid.IntRange(-40, 40).Draw(t, "around")
		if rapid.IntRange(0, 4).Draw(t, "far") == 0 {
			target = rapid.IntRange(10, 66000).Draw(t, "target")
		}
		var err error
		what := ""
		kind := rapid.SampledFrom([]string{"write", "generic", "attrs"}).Draw(t, "kind")
		reqLen := 0
		bad := hx.Within(opLimit, func() {
			switch kind {
			case "write":
				ov := 2 + 2 + 2 + len(tag.Name) + len(tag.Name)%2 + 4
				n := (target - ov) / es
				if n < 1 {
					n = 1
				}
				if n > 65535 {
					n = 65535
				}
				reqLen = ov + n*es
				x := map[int]any{1: make([]int8, n), 2: make([]int16, n), 4: make([]int32, n), 8: make([]int64, n)}[es]
				what = fmt.Sprintf("write of %d elements of %d bytes", n, es)
				err = c.Write(tag.Name, x)
			case "generic":
				n := target - 10
				if n < 0 {
					n = 0
				}
				reqLen = 2 + 2 + 6 + n
				what = fmt.Sprintf("generic message of %d bytes", n)
				_, err = c.GenericCIPMessage(0x50, []byte{0x21, 0, 0, 3, 0x24, 1}, make([]byte, n))
			case "attrs":
				n := (target - 10) / 2
				if n < 1 {
					n = 1
				}
				what = fmt.Sprintf("list of %d attributes", n)
				at := make([]gologix.CIPAttribute, n)
				for i := range at {
					at[i] = 1
				}
				reqLen = 2 + 2 + 6 + 2 + 2*n
				_, err = c.GetAttrList(gologix.CIPClass(0x300), 1, at...)
			}
		})
		what += fmt.Sprintf(" over a %d byte connection (configured %d)", size, cfg)
		if bad != "" {
			t.Fatalf("%s: %s", what, bad)
		}
		for _, r := range p.TakeLog() {
			if r.Connected && r.ItemLen > size {
				t.Fatalf("%s sent a request of %d bytes", what, r.ItemLen)
			}
		}
		if e := p.TakeErrors(); e != nil {
			t.Fatalf("%s: controller noted %v", what, e)
		}
		if err != nil && reqLen+40 < size && kind != "attrs" {
			t.Fatalf("%s (%d bytes) failed: %v", what, reqLen, err)
		}
		rec.Case(what, reqLen+40 > size, "other:"+kind, fmt.Sprintf("fits=%v", reqLen <= size))
		if !c.Connected() {
			t.Fatalf("%s lost the connection: %v", what, err)
		}
	})
}
