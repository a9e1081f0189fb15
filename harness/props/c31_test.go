package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

type cpfItem struct {
	id   uint16
	data []byte
}

func cpf(items []cpfItem) []byte {
	b := binary.LittleEndian.AppendUint16(nil, uint16(len(items)))
	for _, it := range items {
		b = binary.LittleEndian.AppendUint16(b, it.id)
		b = binary.LittleEndian.AppendUint16(b, uint16(len(it.data)))
		b = append(b, it.data...)
	}
	return b
}

// genName is a name of up to n bytes, some of them not ASCII, none of them NUL.
func genName(n int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		k := rapid.SampledFrom([]int{0, 1, 5, n - 1, n, -1}).Draw(t, "length class")
		if k < 0 {
			k = rapid.IntRange(0, n).Draw(t, "length")
		}
		b := rapid.SliceOfN(rapid.OneOf(rapid.ByteRange(32, 126), rapid.ByteRange(1, 255)), k, k).Draw(t, "name")
		return string(b)
	})
}

// TestC31: what a device says about itself is what the caller gets.
func TestC31(t *testing.T) {
	rec := hx.For("C31")
	rec.Rule("an identity with at least one field that is neither zero nor all ones, or a list of at least one service")
	rec.Assume("service names are padded with NUL bytes and hold none themselves",
		"of several identities in a reply the first is returned, as documented")
	p := shared.Get()
	p.Reset()
	c := hx.NewClient(p)
	if err := c.Connect(); err != nil {
		hx.Harness("connect: %v", err)
	}
	defer c.Disconnect()
	hx.Check(t, "C31", 18000, func(t *rapid.T) {
		ident := rapid.Bool().Draw(t, "identity")
		var body []byte
		cmd := uint16(0)
		var want string
		var run func() (string, error)
		desc := ""
		interesting := false
		tail := rapid.SampledFrom([][]byte{nil, nil, nil, {0}, {1, 2, 3}}).Draw(t, "trailing")
		cut := rapid.IntRange(0, 7).Draw(t, "cut") == 0
		if ident {
			u16 := rapid.Uint16()
			i := plc.IdentityInfo{EncapVersion: u16.Draw(t, "encap"), Family: u16.Draw(t, "family"), Port: u16.Draw(t, "port"),
				Vendor: u16.Draw(t, "vendor"), DeviceType: u16.Draw(t, "type"), ProductCode: u16.Draw(t, "code"),
				Status: u16.Draw(t, "status"), Serial: rapid.Uint32().Draw(t, "serial"), Name: genName(255).Draw(t, "name"),
				State: rapid.Byte().Draw(t, "state"), Major: rapid.Byte().Draw(t, "major"), Minor: rapid.Byte().Draw(t, "minor")}
			for k := range i.Addr {
				i.Addr[k] = rapid.Byte().Draw(t, "addr")
			}
			var z [8]byte
			if rapid.IntRange(0, 3).Draw(t, "zeros") == 0 {
				binary.BigEndian.PutUint64(z[:], rapid.Uint64().Draw(t, "zero"))
			}
			first := i.Item()
			copy(first[10:18], z[:])
			if cut {
				first, tail = first[:rapid.OneOf(rapid.IntRange(len(first)-3, len(first)-1), rapid.IntRange(0, len(first)-1)).Draw(t, "at")], nil
			}
			items := []cpfItem{{0x0C, append(first, tail...)}}
			for k := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "others"); k > 0; k-- {
				o := i
				o.Serial, o.Name, o.Port = ^i.Serial, "other", ^i.Port
				items = append(items, cpfItem{0x0C, o.Item()})
			}
			body, cmd = cpf(items), 0x63
			desc = fmt.Sprintf("identity %+v zero %x others %d", i, z, len(items)-1)
			want = fmt.Sprint(i.EncapVersion, i.Family, i.Port, binary.BigEndian.Uint32(i.Addr[:]), binary.BigEndian.Uint32(z[:]), binary.BigEndian.Uint32(z[4:]),
				i.Vendor, i.DeviceType, i.ProductCode, uint16(i.Major)|uint16(i.Minor)<<8, i.Status, i.Serial, []byte(i.Name), i.State)
			interesting = i.Serial != 0 && i.Serial != 0xFFFFFFFF
			run = func() (string, error) {
				r, err := c.ListIdentity()
				if err != nil {
					return "", err
				}
				r.Vendor.Name()
				r.DeviceType.Name()
				return fmt.Sprint(r.EncapProtocolVersion, r.SocketAddress.Family, r.SocketAddress.Port, r.SocketAddress.Address, r.SocketAddress.Zero0, r.SocketAddress.Zero1,
					uint16(r.Vendor), uint16(r.DeviceType), r.ProductCode, r.Revision, r.Status, r.SerialNumber, []byte(r.ProductName), r.State), nil
			}
		} else {
			n := rapid.SampledFrom([]int{0, 1, 1, 2, 3, 9, 300}).Draw(t, "services")
			var items []cpfItem
			var all []plc.ServiceEntry
			many := n > 9
			for k := 0; k < n; k++ {
				var e plc.ServiceEntry
				if many {
					e = plc.ServiceEntry{Type: uint16(k), Version: uint16(k * 3), Flags: uint16(k * 7), Name: fmt.Sprintf("service %d", k)}
				} else {
					e = plc.ServiceEntry{Type: rapid.SampledFrom([]uint16{0x100, 0x101, 0x200}).Draw(t, "code"), Version: rapid.Uint16().Draw(t, "version"),
						Flags: rapid.Uint16().Draw(t, "flags"), Name: genName(16).Draw(t, "name")}
				}
				all = append(all, e)
				d := binary.LittleEndian.AppendUint16(nil, e.Version)
				d = binary.LittleEndian.AppendUint16(d, e.Flags)
				d = append(d, e.Name...)
				d = append(d, make([]byte, 20-len(d))...)
				if cut && k == n-1 {
					d, tail = d[:rapid.IntRange(0, len(d)-1).Draw(t, "at")], nil
				}
				items = append(items, cpfItem{e.Type, append(d, tail...)})
				want += fmt.Sprint(e.Version, e.Flags, []byte(e.Name), ";")
			}
			body, cmd = cpf(items), 0x04
			desc = fmt.Sprintf("%d services %s trailing %d", n, hx.Short(fmt.Sprintf("%+v", all), 300), len(tail))
			interesting = n > 0
			cut = cut && n > 0
			run = func() (string, error) {
				r, err := c.ListServices()
				s := ""
				for _, e := range r {
					s += fmt.Sprint(e.EncapProtocolVersion, uint16(e.Capabilities), []byte(e.Name), ";")
					if (e.Capabilities&gologix.ServiceCapabilityFlag_CipEncapsulation != 0) != (uint16(e.Capabilities)&0x20 != 0) ||
						(e.Capabilities&gologix.ServiceCapabilityFlag_SupportsClass1UDP != 0) != (uint16(e.Capabilities)&0x100 != 0) {
						s += "capability flags are wrong;"
					}
				}
				return s, err
			}
		}
		asked := 0
		p.Lock()
		p.Frame = func(_ int, got uint16, fr []byte) ([]byte, plc.Action) {
			if got == cmd {
				asked++
				fr = append(bytes.Clone(fr[:24]), body...)
				binary.LittleEndian.PutUint16(fr[2:], uint16(len(body)))
			}
			return fr, plc.Send
		}
		p.Unlock()
		var got string
		var err error
		bad := hx.Within(opLimit, func() { got, err = run() })
		p.Lock()
		p.Frame = nil
		p.Unlock()
		if bad != "" {
			t.Fatalf("%s: %s", desc, bad)
		}
		if cut {
			if err == nil {
				t.Fatalf("%s, cut short: taken for %s", desc, hx.Short(got, 600))
			}
			rec.Case(desc, interesting, "cut short")
			return
		}
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		if got != want {
			t.Fatalf("%s: got %s instead of %s", desc, hx.Short(got, 600), hx.Short(want, 600))
		}
		if asked != 1 {
			t.Fatalf("%s: asked %d times", desc, asked)
		}
		if e := p.TakeErrors(); len(e) > 0 {
			t.Fatalf("%s: the controller noted %v", desc, e)
		}
		kind := "services"
		if ident {
			kind = "identity"
		}
		rec.Case(desc, interesting, kind)
	})
}
