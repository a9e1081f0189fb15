package props

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

var c06Types = []struct {
	cip byte
	t   reflect.Type
}{
	{plc.SINT, reflect.TypeOf(int8(0))}, {plc.USINT, reflect.TypeOf(uint8(0))}, {plc.INT, reflect.TypeOf(int16(0))},
	{plc.UINT, reflect.TypeOf(uint16(0))}, {plc.DINT, reflect.TypeOf(int32(0))}, {plc.UDINT, reflect.TypeOf(uint32(0))},
	{plc.LINT, reflect.TypeOf(int64(0))}, {plc.LWORD, reflect.TypeOf(uint64(0))}, {plc.REAL, reflect.TypeOf(float32(0))},
	{plc.LREAL, reflect.TypeOf(float64(0))}, {plc.DWORD, reflect.TypeOf(false)},
}

// c06Array adds an array tag with recognizable contents.
func c06Array(t *rapid.T, p *plc.PLC) hx.Var {
	ty := rapid.SampledFrom(c06Types).Draw(t, "type")
	bools := ty.t.Kind() == reflect.Bool
	es := plc.AtomSize(ty.cip)
	cnt := rapid.IntRange(2, 400).Draw(t, "count")
	switch rapid.IntRange(0, 5).Draw(t, "big") {
	case 0:
		cnt = rapid.IntRange(1000, 60000/es).Draw(t, "countbig")
	case 1:
		cnt = rapid.IntRange(60000/es, 200000/es).Draw(t, "counthuge")
	}
	if cnt > 65600 {
		cnt = 65600
	}
	tag := &plc.Tag{Name: hx.GenName(t, "name"), Type: ty.cip, Dims: []int{cnt}, Data: make([]byte, cnt*es)}
	seed := rapid.Uint32().Draw(t, "contents")
	for i := range tag.Data {
		seed = seed*1664525 + 1013904223
		tag.Data[i] = byte(seed >> 24)
		if ty.cip == plc.REAL && i%4 == 3 || ty.cip == plc.LREAL && i%8 == 7 {
			tag.Data[i] &= 0x3f // no NaN
		}
	}
	p.AddTag(tag)
	v := hx.Var{Path: tag.Name, Type: ty.t, CIP: ty.cip, Tag: tag, Bit: -1, Avail: cnt, ESize: es, Class: "array", Bools: bools, Words: cnt}
	if s := rapid.IntRange(0, cnt-1).Draw(t, "start"); s > 0 && rapid.Bool().Draw(t, "part") && cnt-s > 1 {
		v.Path += fmt.Sprintf("[%d]", s)
		v.Off, v.Avail, v.Words = s*es, cnt-s, cnt-s
	}
	return v
}

// genPlan draws how much of the data each reply carries.
func genPlan(t *rapid.T, es, total int) (func(total, off, max int) int, string) {
	min := total / 60
	if min < 1 {
		min = 1
	}
	var sizes []int
	aligned := rapid.IntRange(0, 3).Draw(t, "aligned") > 0
	for i := rapid.IntRange(1, 6).Draw(t, "parts"); i > 0; i-- {
		k := rapid.IntRange(min, total).Draw(t, "part")
		switch rapid.IntRange(0, 4).Draw(t, "pk") {
		case 0:
			k = min
		case 1:
			k = total - es
		case 2:
			k = total / 2
		}
		if k < min {
			k = min
		}
		if aligned {
			k = (k + es - 1) / es * es
		}
		sizes = append(sizes, k)
	}
	n := 0
	return func(_, off, max int) int {
		k := sizes[n%len(sizes)]
		n++
		if k > max {
			k = max
		}
		return k
	}, fmt.Sprint(sizes)
}

func c06Read(t *rapid.T, c *gologix.Client, v hx.Var, n int, how string) (img []byte, got any, err error, bad string) {
	bad = hx.Within(opLimit, func() { img, got, err = readVar(c, v, n, how, v.Path) })
	return
}

// continuation checks that the requests seen are one read and its gap-free continuation.
func continuation(log []*plc.Req, parts []int, v hx.Var, n int) string {
	off := 0
	i := 0
	for _, r := range log {
		if r.Service == 0x0E || r.Service == 0x01 {
			continue
		}
		if got := plc.SegsString(r.Path); got != plc.CanonText(v.Path) {
			return fmt.Sprintf("request %d addressed %s", i, got)
		}
		if len(r.Data) < 2 || int(r.Data[0])|int(r.Data[1])<<8 != n {
			return fmt.Sprintf("request %d asked for %x elements, want %d", i, r.Data, n)
		}
		switch {
		case i == 0 && r.Service == 0x4C && len(r.Data) == 2:
		case i > 0 && r.Service == 0x52 && len(r.Data) == 6:
			o := int(r.Data[2]) | int(r.Data[3])<<8 | int(r.Data[4])<<16 | int(r.Data[5])<<24
			if o != off {
				return fmt.Sprintf("continuation %d asks from byte %d, previous parts ended at %d", i, o, off)
			}
		default:
			return fmt.Sprintf("request %d is %v", i, r)
		}
		if i < len(parts) {
			off += parts[i]
		}
		i++
	}
	if i != len(parts) {
		return fmt.Sprintf("%d requests for %d parts", i, len(parts))
	}
	return ""
}

func TestC06(t *testing.T) {
	rec := hx.For("C06")
	rec.Rule("one array (2-65600 elements of every width, from any start) read whole through Read(slice), Read_single or as booleans, the controller cutting the data into drawn parts (aligned to elements or not); value and every continuation offset compared; non-trivial when at least one continuation was needed")
	rec.Assume("a part that makes no progress is not a legal answer", "structured data may be refused when it does not fit one reply")
	hx.Check(t, "C06", 2700, func(t *rapid.T) {
		p := shared.Get()
		v := c06Array(t, p)
		n := genCount(t, v)
		how := "slice"
		if v.Bools {
			how = "bools"
		} else if rapid.IntRange(0, 2).Draw(t, "single") == 0 {
			how = "single"
		}
		desc := "whole replies"
		plan := func(_, _, max int) int { return max }
		if rapid.IntRange(0, 7).Draw(t, "plan") > 0 {
			plan, desc = genPlan(t, v.ESize, n*v.ESize)
		}
		var parts []int
		p.FragPlan = func(total, off, max int) int {
			k := plan(total, off, max)
			parts = append(parts, k)
			return k
		}
		size := rapid.SampledFrom([]uint16{4000, 4000, 511, 504, 300}).Draw(t, "connsize")
		c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = size })
		defer c.Disconnect()
		p.TakeLog()
		img, _, err, bad := c06Read(t, c, v, n, how)
		what := fmt.Sprintf("%s read of %s, %d of %d elements of %v, parts %s over a %d byte connection (%d parts)", how, v.Path, n, v.Tag.Count(), v.Type, desc, size, len(parts))
		if bad != "" {
			t.Fatalf("%s: %s", what, bad)
		}
		if err != nil {
			t.Fatalf("%s failed: %v; controller noted %v", what, err, p.TakeErrors())
		}
		if want := w06(p, v, n); !bytes.Equal(img, want) {
			d := 0
			for d < len(img) && d < len(want) && img[d] == want[d] {
				d++
			}
			t.Fatalf("%s: %d bytes delivered, %d held, first difference at byte %d", what, len(img), len(want), d)
		}
		if bad := continuation(p.TakeLog(), parts, v, n); bad != "" {
			t.Fatalf("%s: %s (parts %v)", what, bad, parts)
		}
		if e := p.TakeErrors(); e != nil {
			t.Fatalf("%s: controller noted %v", what, e)
		}
		rec.Case(what, len(parts) > 1, "how:"+how)
	})
}

func w06(p *plc.PLC, v hx.Var, n int) []byte { return p.Get(v.Tag)[v.Off : v.Off+n*v.ESize] }

// A continuation that fails must fail the read.
func TestC06Faults(t *testing.T) {
	rec := hx.For("C06")
	rec.Rule("the same with the k-th continuation refused, cut short of the array, empty, longer than asked or cut off with the connection; the read must fail; non-trivial when the fault was reached")
	hx.Check(t, "C06", 1800, func(t *rapid.T) {
		p := shared.Get()
		v := c06Array(t, p)
		o := &plc.Tag{Name: "other__tag", Type: plc.DINT, Data: []byte{1, 2, 3, 4}}
		p.AddTag(o)
		n := genCount(t, v)
		if n < 2 {
			n = 2
		}
		how := "slice"
		if v.Bools {
			how = "bools"
		} else if rapid.IntRange(0, 2).Draw(t, "single") == 0 {
			how = "single"
		}
		plan, desc := genPlan(t, v.ESize, n*v.ESize)
		p.FragPlan = plan
		fault := rapid.SampledFrom([]string{"status", "short", "empty", "toolong", "close", "garbage"}).Draw(t, "fault")
		at := rapid.IntRange(1, 6).Draw(t, "at")
		if rapid.Bool().Draw(t, "first") {
			at = 1
		}
		st := rapid.SampledFrom([]byte{0x01, 0x02, 0x04, 0x05, 0x0A, 0x10, 0x13, 0x1E, 0xFF, 0x08}).Draw(t, "st")
		k, hit, sent := 0, false, 0
		closing := false
		c := hx.Connected(t, p, nil)
		defer c.Disconnect()
		var firstN = -1
		p.Intercept = func(r *plc.Req) *plc.Reply {
			if r.Service == 0x4C && plc.SegsString(r.Path) == plc.CanonText(v.Path) {
				firstN = r.N
			}
			if r.Service != 0x52 {
				return nil
			}
			k++
			if k != at {
				return nil
			}
			off := int(r.Data[2]) | int(r.Data[3])<<8 | int(r.Data[4])<<16 | int(r.Data[5])<<24
			rest := n*v.ESize - off
			if rest > 60000 { // does not fit a frame
				at++
				return nil
			}
			hit = true
			b := make([]byte, 2, 2+rest+100)
			b[0] = v.CIP
			switch fault {
			case "status":
				rep := &plc.Reply{Status: st}
				if st == 0xFF {
					rep.Ext = []uint16{0x2104}
				}
				return rep
			case "short": // claims to be the last part but is not complete
				m := rest - 1
				if rest > v.ESize {
					m = rest - v.ESize
				}
				sent = m
				return &plc.Reply{Data: append(b, make([]byte, m)...)}
			case "empty":
				return &plc.Reply{Status: 6, Data: b}
			case "toolong": // more than the array, and still not done
				return &plc.Reply{Status: 6, Data: append(b, make([]byte, rest+1+int(st))...)}
			case "garbage":
				return &plc.Reply{Status: st, Data: append(b, make([]byte, rest)...)}
			}
			closing = true
			return nil
		}
		p.Frame = func(_ int, cmd uint16, f []byte) ([]byte, plc.Action) {
			if closing {
				closing = false
				return f[:int(st)%len(f)], plc.Close
			}
			return f, plc.Send
		}
		img, _, err, bad := c06Read(t, c, v, n, how)
		_ = firstN
		what := fmt.Sprintf("%s read of %s, %d elements of %v, parts %s, continuation %d: %s (status %#x, %d bytes)", how, v.Path, n, v.Type, desc, at, fault, st, sent)
		if bad != "" {
			t.Fatalf("%s: %s", what, bad)
		}
		rec.Case(what, hit, "fault:"+fault)
		if !hit {
			if err != nil || !bytes.Equal(img, w06(p, v, n)) {
				t.Fatalf("%s: not reached, but %v", what, err)
			}
			return
		}
		if err == nil {
			t.Fatalf("%s: reported success", what)
		}
		p.Lock()
		p.Intercept, p.Frame, p.FragPlan = nil, nil, nil
		p.Unlock()
		if fault != "close" {
			var x int32
			if err := c.Read("other__tag", &x); err != nil || x != 0x04030201 {
				t.Fatalf("%s: the next read gives %d, %v", what, x, err)
			}
		} else if c.Connected() {
			t.Fatalf("%s: client still reports a connection", what)
		}
	})
}

// Structures in parts: the exact contents, or an error.
func TestC06Structs(t *testing.T) {
	rec := hx.For("C06")
	rec.Rule("structure arrays and strings whose replies are cut into parts: exact or an error; non-trivial always")
	hx.Check(t, "C06", 450, func(t *rapid.T) {
		p := shared.Get()
		w := hx.GenWorld(t, p, hx.WorldOpts{MinTags: 1, MaxTags: 2, Structs: true, Strings: true, StructOpts: hx.StructOpts{Depth: 1, Arrays: true}, MaxElems: 60, NoMembers: true})
		v := rapid.SampledFrom(w.Vars).Draw(t, "var")
		if v.CIP != plc.STRUCT {
			t.Skip("not a structure")
		}
		n := genCount(t, v)
		plan, desc := genPlan(t, 4, n*v.ESize)
		p.FragPlan = plan
		c := hx.Connected(t, p, nil)
		defer c.Disconnect()
		how := "slice"
		if n == 1 {
			how = "ptr"
		}
		img, _, err, bad := c06Read(t, c, v, n, how)
		what := fmt.Sprintf("%s of %d %s, parts %s", how, n, hx.Short(v.Type.String(), 100), desc)
		if bad != "" {
			t.Fatalf("%s: %s", what, bad)
		}
		if err == nil && !bytes.Equal(img, w.Image(v, n)) {
			t.Fatalf("%s: delivered %x, held %x", what, img, w.Image(v, n))
		}
		rec.Case(what, true, fmt.Sprintf("struct ok=%v", err == nil))
	})
}
