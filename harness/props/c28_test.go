package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// pathOf is the logical path of a class, an instance and perhaps an attribute
// as the specification encodes it.
func pathOf(class, instance uint32, attr int) []plc.Seg {
	s := []plc.Seg{{Kind: 'c', Num: class}, {Kind: 'i', Num: instance}}
	if attr >= 0 {
		s = append(s, plc.Seg{Kind: 'a', Num: uint32(attr)})
	}
	return s
}

// TestC28: requests arrive as given, and so do the answers.
func TestC28(t *testing.T) {
	rec := hx.For("C28")
	rec.Rule("a generic message, attribute or attribute list request with a reply of at least one byte, a refusal, or a request at the limit of the connection")
	rec.Assume("services are those of requests (0 to 127)", "a reply with status 0 has no additional status")
	hx.Check(t, "C28", 6000, func(t *rapid.T) {
		p := shared.Get()
		p.Reset()
		p.Lock()
		p.RawPaths = true
		p.Unlock()
		c := hx.NewClient(p)
		size := rapid.SampledFrom([]uint16{511, 511, 100, 4000, 4000}).Draw(t, "size")
		c.ConnectionSize = size
		if err := c.Connect(); err != nil {
			hx.Harness("connect: %v", err)
		}
		defer c.Disconnect()
		n := rapid.IntRange(1, 6).Draw(t, "requests")
		var keep hx.Keeper
		for i := 0; i < n; i++ {
			kind := rapid.SampledFrom([]string{"generic", "generic", "generic", "single", "list"}).Draw(t, "kind")
			var seen []*plc.Req
			// the answer
			replyLen := rapid.SampledFrom([]int{0, 1, 2, 4, 7, -1, -2}).Draw(t, "reply class")
			room := int(size) - 2 - 4
			switch replyLen {
			case -1:
				replyLen = rapid.IntRange(0, 200).Draw(t, "reply")
			case -2:
				replyLen = room
			}
			replyLen = min(replyLen, room)
			reply := make([]byte, replyLen)
			seed := rapid.Byte().Draw(t, "bytes")
			for k := range reply {
				reply[k] = byte(k)*37 + seed
			}
			status := byte(0)
			var ext []uint16
			if rapid.IntRange(0, 4).Draw(t, "refuse") == 0 {
				status = rapid.OneOf(rapid.SampledFrom([]byte{1, 4, 5, 6, 6, 8, 0x0A, 0x0F, 0x13, 0x1E, 0xFF}), rapid.ByteRange(1, 255)).Draw(t, "status")
				for k := rapid.IntRange(0, 2).Draw(t, "ext"); k > 0; k-- {
					ext = append(ext, rapid.Uint16().Draw(t, "ext status"))
				}
				if len(ext)*2 > room-len(reply) {
					reply = nil
				}
			}
			var run func() (*gologix.CIPItem, error)
			var service byte
			var path []byte
			var segs []plc.Seg
			var data []byte
			sendable := true
			desc := ""
			want := reply
			answer := reply
			id32 := func(name string) uint32 {
				return rapid.OneOf(rapid.Uint32Range(0, 255), rapid.Uint32Range(250, 260), rapid.Uint32Range(256, 65535), rapid.SampledFrom([]uint32{65535, 65536, 1<<32 - 1})).Draw(t, name)
			}
			switch kind {
			case "generic":
				service = rapid.ByteRange(0, 127).Draw(t, "service")
				words := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 9, 40, 255, 256, -1}).Draw(t, "path words")
				odd := 0
				if words < 0 {
					words, odd = rapid.IntRange(0, 5).Draw(t, "words"), 1
				}
				if rapid.Bool().Draw(t, "logical") && odd == 0 {
					class, inst, attr := id32("class")%65536, id32("instance"), int(id32("attr"))%65536
					b, err := gologix.Serialize(gologix.CIPClass(class), gologix.CIPInstance(inst), gologix.CIPAttribute(attr))
					if err != nil {
						t.Fatalf("Serialize: %v", err)
					}
					path, segs = b.Bytes(), pathOf(class, inst, attr)
					words = len(path) / 2
				} else {
					path = make([]byte, words*2+odd)
					for k := range path {
						path[k] = byte(k*k)*41 + seed
					}
				}
				dn := rapid.SampledFrom([]int{0, 0, 1, 2, 5, -1, -2, -3}).Draw(t, "data class")
				top := int(size) - 2 - 2 - len(path)
				switch dn {
				case -1:
					dn = rapid.IntRange(0, 300).Draw(t, "data")
				case -2:
					dn = max(top, 0)
				case -3:
					dn = max(top, 0) + rapid.IntRange(1, 3).Draw(t, "over")
				}
				data = make([]byte, dn)
				for k := range data {
					data[k] = byte(k)*13 + seed
				}
				sendable = odd == 0 && words <= 255 && 4+len(path)+len(data) <= int(size)
				pc, dc := bytes.Clone(path), bytes.Clone(data)
				if len(dc) == 0 && rapid.Bool().Draw(t, "nil") {
					dc = nil
				}
				run = func() (*gologix.CIPItem, error) {
					it, err := c.GenericCIPMessage(gologix.CIPService(service), pc, dc)
					if !bytes.Equal(pc, path) || !bytes.Equal(dc, data) {
						return nil, fmt.Errorf("VIOLATED the arguments were changed")
					}
					return it, err
				}
				desc = fmt.Sprintf("generic service %#x path %s data of %d", service, hx.Short(fmt.Sprintf("%x", path), 60), len(data))
			case "single":
				service = 0x0E
				class, inst, attr := id32("class")%65536, id32("instance"), int(id32("attr"))%65536
				segs = pathOf(class, inst, attr)
				run = func() (*gologix.CIPItem, error) {
					return c.GetAttrSingle(gologix.CIPClass(class), gologix.CIPInstance(inst), gologix.CIPAttribute(attr))
				}
				desc = fmt.Sprintf("attribute %d of instance %d of class %d", attr, inst, class)
			case "list":
				service = 0x03
				class, inst := id32("class")%65536, id32("instance")
				segs = pathOf(class, inst, -1)
				k := rapid.SampledFrom([]int{0, 1, 2, 3, 10, 40, 44, 245, 248, 250, 300}).Draw(t, "attributes")
				attrs := make([]gologix.CIPAttribute, k)
				data = binary.LittleEndian.AppendUint16(nil, uint16(k))
				for j := range attrs {
					if j < 8 {
						attrs[j] = gologix.CIPAttribute(id32("attr"))
					} else {
						attrs[j] = gologix.CIPAttribute(j*j*7 + int(seed))
					}
					data = binary.LittleEndian.AppendUint16(data, uint16(attrs[j]))
				}
				plen := 8 // at most 2 or 4 for the class and 2, 4 or 6 for the instance
				if class < 256 {
					plen = 6
				}
				if inst < 256 {
					plen -= 2
				} else if inst > 65535 {
					plen += 2
				}
				sendable = 4+plen+len(data) <= int(size)
				run = func() (*gologix.CIPItem, error) {
					return c.GetAttrList(gologix.CIPClass(class), gologix.CIPInstance(inst), attrs...)
				}
				if status == 0 {
					// the count is taken off
					answer = binary.LittleEndian.AppendUint16(nil, uint16(k))
					if len(reply)+2 > room {
						reply = reply[:room-2]
						want = reply
					}
					answer = append(answer, reply...)
				}
				desc = fmt.Sprintf("%d attributes of instance %d of class %d", k, inst, class)
			}
			desc = fmt.Sprintf("%s, size %d, answered with status %#x %v and %d bytes", desc, size, status, ext, len(answer))
			p.Lock()
			p.Intercept = func(r *plc.Req) *plc.Reply {
				seen = append(seen, r)
				return &plc.Reply{Status: status, Ext: ext, Data: answer}
			}
			p.Unlock()
			// the answer is for another service
			flip := byte(0)
			if kind == "generic" && sendable && status == 0 && rapid.IntRange(0, 11).Draw(t, "other service") == 0 {
				flip = 1 << rapid.IntRange(0, 6).Draw(t, "flip")
				if rapid.Bool().Draw(t, "more") {
					flip |= rapid.ByteRange(0, 127).Draw(t, "flips")
				}
				p.Lock()
				p.Frame = func(_ int, _ uint16, fr []byte) ([]byte, plc.Action) {
					if len(fr) > 46 {
						fr[46] ^= flip
					}
					return fr, plc.Send
				}
				p.Unlock()
			}
			var got *gologix.CIPItem
			var err error
			bad := hx.Within(opLimit, func() { got, err = run() })
			p.Lock()
			p.Intercept, p.Frame = nil, nil
			p.Unlock()
			if bad != "" {
				t.Fatalf("%s: %s", desc, bad)
			}
			if err != nil && len(err.Error()) > 8 && err.Error()[:8] == "VIOLATED" {
				t.Fatalf("%s: %v", desc, err)
			}
			if e := p.TakeErrors(); len(e) > 0 {
				t.Fatalf("%s: the controller noted %v", desc, e)
			}
			if !sendable {
				if err == nil || len(seen) > 0 {
					t.Fatalf("%s: cannot be sent, but %d requests were and the error is %v", desc, len(seen), err)
				}
				rec.Case(desc, true, kind, "not sendable")
				continue
			}
			if len(seen) != 1 {
				t.Fatalf("%s: %d requests were sent (%v)", desc, len(seen), err)
			}
			r := seen[0]
			if !r.Connected || r.Service != service || !bytes.Equal(r.Data, data) || path != nil && !bytes.Equal(r.PathRaw, path) {
				t.Fatalf("%s: the request was service %#x path %x data %x (connected %v), not path %x data %x", desc, r.Service, r.PathRaw, r.Data, r.Connected, path, data)
			}
			if segs != nil && plc.SegsString(r.Path) != plc.SegsString(segs) {
				t.Fatalf("%s: the path was %s instead of %s", desc, plc.SegsString(r.Path), plc.SegsString(segs))
			}
			if status != 0 {
				if err == nil {
					t.Fatalf("%s: the refusal was not reported", desc)
				}
				rec.Case(desc, true, kind, "refused")
				continue
			}
			if flip != 0 {
				if err == nil {
					t.Fatalf("%s: the answer was for service %#x and taken all the same", desc, service^flip)
				}
				rec.Case(desc, true, kind, "other service")
				continue
			}
			if err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			if !bytes.Equal(got.Rest(), want) {
				t.Fatalf("%s: the caller got %x instead of %x", desc, got.Rest(), want)
			}
			if len(want) > 0 {
				out := make([]byte, len(want))
				if err := got.DeSerialize(&out); err != nil || !bytes.Equal(out, want) {
					t.Fatalf("%s: decoding the answer gave %x, %v instead of %x", desc, out, err, want)
				}
			}
			keep.Keep(desc, got)
			if m := keep.Changed(); m != "" {
				t.Fatalf("%s", m)
			}
			rec.Case(desc, len(want) > 0, kind)
		}
	})
}
