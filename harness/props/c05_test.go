package props

import (
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// TestC05: an operation of which any request is refused reports an error, and
// the client goes on working on the connection it has.
func TestC05(t *testing.T) {
	rec := hx.For("C05")
	rec.Rule("one operation of the client (single and batch reads and writes, attributes, generic messages, listings, templates, data tables) of which one request, at top level or embedded, is refused by CIP or encapsulation status at a drawn position")
	rec.Assume("a partial transfer status (0x06) is a refusal only where nothing can be continued: the operation must then fail or end up with the right result",
		"refusing the direct program list or the template of a structure is recovered from: the operation may then succeed with everything else right and the structure unknown")
	seen := map[string]bool{}
	hx.Check(t, "C05", 5000, func(t *rapid.T) {
		p := shared.Get()
		f := newFix(p, rapid.Uint64().Draw(t, "seed"))
		o := opTable[rapid.IntRange(0, len(opTable)-1).Draw(t, "op")]
		size := rapid.SampledFrom([]uint16{4000, 4000, 504, 511, 1200}).Draw(t, "size")
		client := func() *gologix.Client {
			c := hx.Connected(t, p, func(c *gologix.Client) { c.ConnectionSize = size })
			// the first request of a tag asks for the firmware as well
			var d int32
			if err := c.Read("D", &d); err != nil {
				t.Fatalf("plain read failed: %v", err)
			}
			return c
		}
		salt := rapid.Uint64().Draw(t, "salt")

		// how many requests does it take?
		c := client()
		p.TakeLog()
		f0 := p.FrameCount()
		got, err, bad := o.do(f, c, salt^1)
		if bad != "" {
			t.Fatalf("%s: %s", o.name, bad)
		}
		if err != nil {
			t.Fatalf("%s of a willing controller failed: %v; it noted %v", o.name, err, p.TakeErrors())
		}
		if bad := o.right(f, got, salt^1); bad != "" {
			t.Fatalf("without a refusal: %s", bad)
		}
		log := p.TakeLog()
		frames := p.FrameCount() - f0
		hx.Within(opLimit, func() { c.Disconnect() })

		c = client()
		opens := len(p.Opens)
		before := p.Snapshot()
		p.TakeLog()
		how := "encap"
		if len(log) > 0 && rapid.IntRange(0, 5).Draw(t, "how") > 0 {
			how = "cip"
		}
		st := byte(rapid.IntRange(1, 255).Draw(t, "status"))
		if rapid.Bool().Draw(t, "usual") {
			st = rapid.SampledFrom([]byte{0x01, 0x03, 0x04, 0x05, 0x06, 0x06, 0x20, 0x40, 0x80, 0xC0, 0x08, 0x09, 0x0A, 0x0C, 0x0F, 0x10, 0x11, 0x13, 0x14, 0x15, 0x1E, 0x26, 0xFF}).Draw(t, "st")
		}
		at, svc, emb := -1, byte(0), -1
		hit := false
		switch how {
		case "cip":
			at = rapid.IntRange(0, len(log)-1).Draw(t, "at")
			rep := plc.Reply{Status: st}
			for i := rapid.IntRange(0, 3).Draw(t, "ext"); i > 0; i-- {
				rep.Ext = append(rep.Ext, uint16(rapid.IntRange(0, 0xFFFF).Draw(t, "extw")))
			}
			real := false
			if st != 6 {
				switch rapid.IntRange(0, 3).Draw(t, "trail") {
				case 0:
					rep.Data = rapid.SliceOfN(rapid.Byte(), 1, 24).Draw(t, "data")
				case 1:
					real = true // the data that would have been the answer
				}
			}
			p.MultiStatus = rapid.SampledFrom([]byte{0x1E, 0}).Draw(t, "multistatus")
			n := 0
			p.Intercept = func(r *plc.Req) *plc.Reply {
				k := n
				n++
				if k != at {
					return nil
				}
				hit, svc, emb = true, r.Service, r.Embedded
				if real && (r.Service == 0x4C || r.Service == 0x52 || r.Service == 0x55 || r.Service == 0x01 || r.Service == 0x03 || r.Service == 0x0E) {
					rep.Data = p.Answer(r, 200).Data
				}
				return &rep
			}
		case "encap":
			at = rapid.IntRange(0, frames-1).Draw(t, "at")
			code := rapid.SampledFrom([]uint32{1, 2, 3, 0x64, 0x65, 0x69, 0x100, 0x10000, 0x80000000}).Draw(t, "code")
			empty := rapid.Bool().Draw(t, "empty")
			base := -1
			p.Frame = func(n int, cmd uint16, fr []byte) ([]byte, plc.Action) {
				if base < 0 {
					base = n
				}
				if n-base != at {
					return fr, plc.Send
				}
				hit = true
				binary.LittleEndian.PutUint32(fr[8:], code)
				if empty {
					fr = fr[:24]
					binary.LittleEndian.PutUint16(fr[2:], 0)
				}
				return fr, plc.Send
			}
		}
		desc := fmt.Sprintf("%s size=%d %s at %d status=%#x", o.name, size, how, at, st)
		got, err, bad = o.do(f, c, salt)
		p.Intercept, p.Frame, p.MultiStatus = nil, nil, 0x1E
		if bad != "" {
			t.Fatalf("%s: %s", desc, bad)
		}
		if !hit {
			t.Fatalf("%s: the request to refuse never came (%d requests before)", desc, len(log))
		}
		desc += fmt.Sprintf(" svc=%#x emb=%d", svc, emb)
		lenient := o.list || how == "cip" && st == 6
		switch {
		case err == nil && !lenient:
			t.Fatalf("%s: success reported, result %s", desc, hx.Short(show(got), 300))
		case err == nil:
			if bad := o.rightL(f, got, salt, true); bad != "" {
				t.Fatalf("%s: success reported but %s", desc, bad)
			}
		case len(o.wr) == 1 && how == "cip":
			if d := diffOutside(before, p.Snapshot(), "", 0, 0); d != "" {
				t.Fatalf("%s: memory changed though the write was refused: %s", desc, d)
			}
		}
		if how == "cip" && !c.Connected() {
			t.Fatalf("%s: the refusal (%v) ended the connection", desc, err)
		}
		// the client goes on
		var d int32
		rerr := c.Read("D", &d)
		if rerr != nil || d != f.val("D", 0, 1)[0] {
			t.Fatalf("%s (%v): the next read gave %d, %v instead of %v", desc, err, d, rerr, f.val("D", 0, 1)[0])
		}
		got, err, bad = o.do(f, c, salt^2)
		if bad == "" && err != nil {
			bad = err.Error()
		}
		if bad == "" {
			bad = o.right(f, got, salt^2)
		}
		if bad != "" {
			t.Fatalf("%s: the same operation afterwards, not refused: %s", desc, bad)
		}
		if how == "cip" && len(p.Opens) != opens {
			t.Fatalf("%s: a new connection was opened", desc)
		}
		if e := p.TakeErrors(); len(e) > 0 {
			t.Fatalf("%s: the controller noted %v", desc, e)
		}
		hx.Within(opLimit, func() { c.Disconnect() })
		cl := "refused"
		if emb >= 0 {
			cl = "embedded"
		}
		if how == "encap" {
			cl = "encapsulation"
		}
		if !seen[o.name] {
			seen[o.name] = true
			rec.Class("op " + o.name)
		}
		rec.Case(desc, true, cl)
	})
}
