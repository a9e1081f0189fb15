package props

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/raw"
)

// listedIdentityOf is what a list identity reply holds of an identity: its item, for a server at ip.
func listedIdentityOf(a map[gologix.CIPAttribute]any, ip [4]byte) []byte {
	b := []byte{1, 0, 0, 2, 0xAF, 0x12}
	b = append(b, ip[:]...)
	b = append(b, make([]byte, 8)...)
	return append(b, identityAll(a)...) // the state follows
}

// c21Ask asks for the identity in one of many ways and returns what is wrong with the answer.
type c21Asker struct {
	t      *rapid.T
	c      *raw.Conn
	conn   *srvConn
	cli    *gologix.Client
	ip     [4]byte
	route  []byte
	attrs  map[gologix.CIPAttribute]any
	joined bool
}

// cip sends a request directly, wrapped or over the connection.
func (k *c21Asker) cip(how string, req []byte) (raw.Reply, error) {
	switch how {
	case "direct":
		return k.c.Unconnected(req)
	case "wrapped":
		return k.c.Unconnected(raw.Wrap(req, k.route))
	}
	k.conn.seq++
	return k.c.Connected(k.conn.ot, k.conn.to, k.conn.seq, req)
}

func c21Data(r raw.Reply, err error, svc byte, want []byte) string {
	if err != nil {
		return err.Error()
	}
	if r.Service != svc || r.Status != 0 || !bytes.Equal(r.Data, want) {
		return fmt.Sprintf("the answer is %v, should be %x", r, want)
	}
	return ""
}

func (k *c21Asker) ask() (what, problem string) {
	t := k.t
	how := rapid.SampledFrom([]string{"direct", "wrapped", "connected"}).Draw(t, "how")
	switch q := rapid.SampledFrom([]string{"all", "all", "single", "single", "single", "missing", "program", "list", "list", "services", "client list", "client single", "client single", "client all", "client services"}).Draw(t, "query"); q {
	case "all":
		r, err := k.cip(how, raw.Request(raw.GetAttrAll, raw.Logical(1, 1, -1, false), nil))
		return "all " + how, c21Data(r, err, raw.GetAttrAll, identityAll(k.attrs))
	case "single":
		n := rapid.IntRange(1, 7).Draw(t, "attr")
		if _, ok := k.attrs[99]; ok && rapid.IntRange(0, 3).Draw(t, "more") == 0 {
			n = rapid.SampledFrom([]int{8, 99, 100}).Draw(t, "which")
		}
		r, err := k.cip(how, raw.Request(raw.GetAttrSingle, raw.Logical(1, 1, n, false), nil))
		return fmt.Sprintf("attribute %d %s", n, how), c21Data(r, err, raw.GetAttrSingle, attrData(k.attrs[gologix.CIPAttribute(n)]))
	case "missing":
		r, err := k.cip(how, raw.Request(raw.GetAttrSingle, raw.Logical(1, 1, rapid.IntRange(101, 255).Draw(t, "attr"), false), nil))
		if err == nil && r.Status == 0 {
			return q, fmt.Sprintf("an attribute that is not configured gives %v", r)
		}
		if err != nil {
			return q, err.Error()
		}
		return q, ""
	case "program":
		name, _ := k.attrs[7].(string)
		r, err := k.cip(how, raw.Request(raw.GetAttrAll, raw.Logical(0x64, 1, -1, false), nil))
		return "program name " + how, c21Data(r, err, raw.GetAttrAll, shortString(name))
	case "list":
		f, err := k.c.Ask(raw.ListIdentity, nil)
		if err != nil {
			return q, err.Error()
		}
		items, err := raw.ParseItems(f.Body)
		if err != nil {
			return q, err.Error()
		}
		want := listedIdentityOf(k.attrs, k.ip)
		if f.Status != 0 || len(items) != 1 || items[0].ID != 0x0C || len(items[0].Data) != len(want)+1 || !bytes.HasPrefix(items[0].Data, want) {
			return q, fmt.Sprintf("the answer is %v, should have %x and the state", f, want)
		}
		return q, ""
	case "services":
		f, err := k.c.Ask(raw.ListServices, nil)
		if err != nil {
			return q, err.Error()
		}
		items, err := raw.ParseItems(f.Body)
		if err != nil {
			return q, err.Error()
		}
		if f.Status != 0 || len(items) != 1 || items[0].ID != 0x100 || len(items[0].Data) != 20 ||
			!bytes.HasPrefix(items[0].Data, []byte{1, 0, 0x20, 1}) || strings.TrimRight(string(items[0].Data[4:]), " \x00") != "Communications" {
			return q, fmt.Sprintf("the answer is %v", f)
		}
		return q, ""
	case "client list":
		id, err := k.cli.ListIdentity()
		if err != nil {
			return q, err.Error()
		}
		i16 := func(n int) uint16 { return uint16(k.attrs[gologix.CIPAttribute(n)].(int16)) }
		name := shortString(k.attrs[7].(string))[1:]
		if uint16(id.Vendor) != i16(1) || uint16(id.DeviceType) != i16(2) || id.ProductCode != i16(3) || id.Revision != i16(4) || id.Status != i16(5) ||
			id.SerialNumber != k.attrs[6].(uint32) || id.ProductName != string(name) || id.EncapProtocolVersion != 1 ||
			id.SocketAddress.Family != 2 || id.SocketAddress.Port != 44818 || id.SocketAddress.Address != 0x7F000001 {
			return q, fmt.Sprintf("the client decodes %+v of %v", *id, k.attrs)
		}
		return q, ""
	case "client services":
		s, err := k.cli.ListServices()
		if err != nil {
			return q, err.Error()
		}
		if len(s) != 1 || s[0].EncapProtocolVersion != 1 || s[0].Capabilities != gologix.ServiceCapabilityFlag_CipEncapsulation|gologix.ServiceCapabilityFlag_SupportsClass1UDP || strings.TrimRight(s[0].Name, " ") != "Communications" {
			return q, fmt.Sprintf("the client decodes %+v", s)
		}
		return q, ""
	case "client single":
		n := gologix.CIPAttribute(rapid.IntRange(1, 7).Draw(t, "attr"))
		if _, ok := k.attrs[99]; ok && rapid.IntRange(0, 3).Draw(t, "more") == 0 {
			n = rapid.SampledFrom([]gologix.CIPAttribute{8, 99, 100}).Draw(t, "which")
		}
		what = fmt.Sprintf("client attribute %d", n)
		item, err := k.cli.GetAttrSingle(gologix.CipObject_Identity, 1, n)
		if err != nil {
			return what, err.Error()
		}
		var got any
		switch k.attrs[n].(type) {
		case int16:
			var v int16
			err = item.DeSerialize(&v)
			got = v
		case uint32:
			var v uint32
			err = item.DeSerialize(&v)
			got = v
		default:
			var l byte
			l, err = item.Byte()
			v := make([]byte, l)
			if err == nil {
				err = item.DeSerialize(&v)
			}
			got = string(v)
			if s := k.attrs[n].(string); err == nil && got == string(shortString(s)[1:]) {
				got = s
			}
		}
		if err != nil || got != k.attrs[n] || len(item.Rest()) != 0 {
			return what, fmt.Sprintf("the client decodes %v (%v, %x left) of %v", got, err, item.Rest(), k.attrs[n])
		}
		return what, ""
	default:
		item, err := k.cli.GenericCIPMessage(gologix.CIPService_GetAttributeAll, []byte{0x20, 1, 0x24, 1}, nil)
		if err != nil {
			return q, err.Error()
		}
		if want := identityAll(k.attrs); !bytes.Equal(item.Rest(), want) {
			return q, fmt.Sprintf("the client gets %x, should be %x", item.Rest(), want)
		}
		return q, ""
	}
}

func TestC21(t *testing.T) {
	rec := hx.For("C21")
	rec.Rule("an identity that differs from the built-in one in every number, asked for in at least three ways")
	rec.Assume("product names are reported up to 255 characters, which is what fits")
	hx.Check(t, "C21", 15000, func(t *rapid.T) {
		srv, eps := startServer()
		gen := func() map[gologix.CIPAttribute]any {
			a := srvAttrs(t)
			if rapid.IntRange(0, 7).Draw(t, "longname") == 0 {
				a[7] = hx.GenString(t, "long", 255) + strings.Repeat("x", rapid.IntRange(0, 60).Draw(t, "more"))
			}
			return a
		}
		k := &c21Asker{t: t, attrs: gen()}
		setAttrs(srv, k.attrs)
		k.route = eps[rapid.IntRange(0, len(eps)-1).Draw(t, "path")].path
		k.ip = [4]byte{127, 0, 0, 1}
		to := tcpAddr
		if rapid.Bool().Draw(t, "other address") {
			k.ip = [4]byte{127, 0, byte(rapid.IntRange(0, 255).Draw(t, "ip")), byte(rapid.IntRange(2, 200).Draw(t, "ip2"))}
			to = fmt.Sprintf("%d.%d.%d.%d:44818", k.ip[0], k.ip[1], k.ip[2], k.ip[3])
		}
		var err error
		k.c, err = raw.Dial(to, "")
		if err != nil {
			t.Fatal(err)
		}
		defer k.c.Close()
		if rapid.Bool().Draw(t, "before registering") {
			f, err := k.c.Ask(raw.ListIdentity, nil)
			if err != nil {
				t.Fatalf("list identity without a session: %v", err)
			}
			if !bytes.Contains(f.Body, identityAll(k.attrs)) {
				t.Fatalf("list identity without a session of %v gives %v", k.attrs, f)
			}
		}
		if err := k.c.RegisterSession(); err != nil {
			t.Fatal(err)
		}
		if k.conn, err = rawOpen(k.c, genOpen(t, k.route, 5)); err != nil {
			t.Fatal(err)
		}
		k.cli = serverClient(k.route)
		k.cli.AutoConnect = false
		k.cli.KeepAliveAutoStart = false
		if err := k.cli.Connect(); err != nil {
			t.Fatal(err)
		}
		defer k.cli.Disconnect()
		var hist []string
		ways := map[string]bool{}
		differs := func() bool {
			for i, v := range map[gologix.CIPAttribute]int16{1: 0x1776, 2: 14, 3: 1, 4: 0x1412, 5: 0x3060} {
				if k.attrs[i] == any(v) {
					return false
				}
			}
			return true
		}
		nontrivial := differs()
		for i := rapid.IntRange(2, 14).Draw(t, "n"); i > 0; i-- {
			if rapid.IntRange(0, 6).Draw(t, "change") == 0 {
				if rapid.Bool().Draw(t, "all") {
					k.attrs = gen()
				} else {
					n := gologix.CIPAttribute(rapid.IntRange(1, 7).Draw(t, "which"))
					k.attrs = func() map[gologix.CIPAttribute]any {
						m := map[gologix.CIPAttribute]any{}
						for i, v := range k.attrs {
							m[i] = v
						}
						m[n] = gen()[n]
						return m
					}()
				}
				setAttrs(srv, k.attrs)
				nontrivial = nontrivial && differs()
				hist = append(hist, "the identity changes")
			}
			what, p := k.ask()
			hist = append(hist, what)
			ways[what] = true
			if p != "" {
				t.Fatalf("%s: %s\nidentity %v, after %s", what, p, k.attrs, strings.Join(hist, "; "))
			}
		}
		var cs []string
		for w := range ways {
			cs = append(cs, strings.TrimRight(w, " 0123456789"))
		}
		rec.Case(fmt.Sprint(k.attrs, hist), nontrivial && len(ways) >= 3, cs...)
	})
}
