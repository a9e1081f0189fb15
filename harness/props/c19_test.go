package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/raw"
)

// srvReq is a request to the server with what its reply has to be.
type srvReq struct {
	desc  string
	cip   []byte
	judge func(r raw.Reply) string // the problem with a reply
}

// srvModel knows what the requests of a sequence do.
type srvModel struct {
	t     *rapid.T
	store *memStore // behind the path of the requests
	local *memStore // behind the local path
	attrs map[gologix.CIPAttribute]any
	avoid bool // nothing that changes a tag
	small bool // reads of at most 4000 bytes
}

var le = binary.LittleEndian

func mustFail(r raw.Reply) string {
	if r.Status == 0 || r.Status == 6 {
		return fmt.Sprintf("success %v for what cannot be carried out", r)
	}
	return ""
}

func mustBe(data []byte) func(r raw.Reply) string {
	return func(r raw.Reply) string {
		if r.Status != 0 || len(r.Ext) != 0 {
			return fmt.Sprintf("refused with %v", r)
		}
		if !bytes.Equal(r.Data, data) {
			return fmt.Sprintf("data %x, should be %x", r.Data, data)
		}
		return ""
	}
}

// orFail allows a refusal.
func orFail(f func(r raw.Reply) string) func(r raw.Reply) string {
	return func(r raw.Reply) string {
		if r.Status != 0 && r.Status != 6 {
			return ""
		}
		return f(r)
	}
}

func (m *srvModel) names(s *memStore) []string {
	var n []string
	for k := range s.m {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}

// parseTag makes the address of a name with an optional index.
func parseTag(s string) raw.Tag {
	var tag raw.Tag
	for _, part := range strings.Split(s, ".") {
		g := raw.Seg{Name: part}
		if i := strings.IndexByte(part, '['); i > 0 {
			g.Name = part[:i]
			for _, x := range strings.Split(strings.Trim(part[i:], "[]"), ",") {
				n := 0
				fmt.Sscan(x, &n)
				g.Index = append(g.Index, n)
			}
		}
		tag = append(tag, g)
	}
	return tag
}

// place picks a tag or element, mostly one there is, and how many elements there are from it on.
func (m *srvModel) place() (string, reflect.Type, int) {
	t := m.t
	n := m.names(m.store)
	if _, ok := m.store.m["Big"]; ok && rapid.IntRange(0, 3).Draw(t, "large one") == 0 {
		n = []string{"Big"}
	}
	if len(n) == 0 || rapid.IntRange(0, 9).Draw(t, "nosuch") == 0 {
		return rapid.SampledFrom([]string{"NoSuch-", "NoSuch-[1]", "No.Such-", "-"}).Draw(t, "missing"), reflect.TypeOf(int32(0)), 1
	}
	name := rapid.SampledFrom(n).Draw(t, "tag")
	v := reflect.ValueOf(m.store.m[name])
	if v.Kind() != reflect.Slice {
		return name, v.Type(), 1
	}
	avail := v.Len()
	if rapid.Bool().Draw(t, "elem") {
		i := rapid.IntRange(0, v.Len()).Draw(t, "i") // possibly behind the end
		name += fmt.Sprintf("[%d]", i)
		avail -= i
	}
	return name, v.Type().Elem(), avail
}

func (m *srvModel) read(frag bool) srvReq {
	t := m.t
	name, et, avail := m.place()
	n := 1
	if avail > 1 && rapid.Bool().Draw(t, "many") {
		n = rapid.IntRange(0, avail).Draw(t, "n")
	}
	if frag && avail > 8000 && rapid.IntRange(0, 3).Draw(t, "whole") > 0 {
		n = avail
	}
	switch rapid.IntRange(0, 14).Draw(t, "odd") {
	case 0:
		n = rapid.SampledFrom([]int{0, avail + 1, 0x28, 0x91, 255, 256, 32767, 32768, 65535}).Draw(t, "oddn")
	}
	if max := 4000 / elemSize(et); m.small && n > max && n <= avail {
		n = max
	}
	wide := rapid.IntRange(0, 2).Draw(t, "wide")
	v, err := m.store.TagRead(name, int16(n))
	if n > 32767 {
		err = errStore
	}
	var img []byte
	if err == nil {
		img = srvData(v)
		if rv := reflect.ValueOf(v); !frag && rv.Kind() == reflect.Slice && len(img) > 65530 {
			err = errStore // no message can hold it
		}
	}
	if !frag {
		q := srvReq{desc: fmt.Sprintf("read %s %d", name, n), cip: raw.Read(parseTag(name), wide, n), judge: mustFail}
		if err == nil {
			q.judge = mustBe(append(srvType(et), img...))
			if n*elemSize(et) > 60000 {
				q.judge = orFail(q.judge)
			}
		}
		return q
	}
	off := 0
	if rapid.Bool().Draw(t, "later") {
		off = rapid.IntRange(0, len(img)+2).Draw(t, "off")
		if len(img) > 60000 && rapid.Bool().Draw(t, "end") { // what is left goes into a message
			off = len(img) - rapid.IntRange(0, 30000).Draw(t, "left")
		}
	}
	q := srvReq{desc: fmt.Sprintf("fragread %s %d from %d", name, n, off), cip: raw.ReadFrag(parseTag(name), wide, n, uint32(off)), judge: mustFail}
	if err == nil && off <= len(img) {
		rest := append(srvType(et), img[off:]...)
		q.judge = func(r raw.Reply) string {
			if r.Status == 6 && len(r.Data) > len(srvType(et)) && len(r.Data) < len(rest) && bytes.HasPrefix(rest, r.Data) {
				return ""
			}
			if len(rest) > 65530 { // no message can hold it
				return mustFail(r)
			}
			return mustBe(rest)(r)
		}
		if len(rest) > 60000 {
			q.judge = orFail(q.judge)
		}
		if off == len(img) || off > 0 && et.Kind() == reflect.String {
			q.judge = orFail(mustBe(rest))
		}
	}
	return q
}

func elemSize(et reflect.Type) int { return len(srvData(reflect.Zero(et).Interface())) }

func (m *srvModel) write() srvReq {
	t := m.t
	name, et, avail := m.place()
	n := 1
	if avail > 1 && rapid.Bool().Draw(t, "many") {
		n = rapid.IntRange(1, min(avail, 30)).Draw(t, "n")
	}
	if rapid.IntRange(0, 9).Draw(t, "othertype") == 0 {
		et = rapid.SampledFrom(srvElems).Draw(t, "et")
	}
	if rapid.IntRange(0, 14).Draw(t, "toomany") == 0 && avail < 40 && avail >= 0 {
		n = avail + 1
	}
	vals := srvSlice(t, et, n, "v")
	wide := rapid.IntRange(0, 2).Draw(t, "wide")
	typ, data, count := srvType(et), srvData(vals), n
	q := srvReq{judge: mustFail}
	switch rapid.IntRange(0, 19).Draw(t, "bad") {
	case 0: // too little data
		if et.Kind() == reflect.String {
			data = data[:rapid.IntRange(0, len(data)-88*1).Draw(t, "cut")]
		} else {
			data = data[:rapid.IntRange(0, len(data)-1).Draw(t, "cut")]
		}
		q.desc = "cut "
	case 1: // no elements
		count = 0
		q.desc = "empty "
	case 2:
		typ = rapid.SampledFrom([][]byte{{0xA0, 2, 0x34, 0x12}, {0xFF, 0}, {0x00, 0}, {0xA0, 0}}).Draw(t, "badtype")
		if typ[0] == 0xA0 && rapid.Bool().Draw(t, "strings") {
			// strings but for the handle of the structure
			typ = []byte{0xA0, 2, byte(rapid.IntRange(0, 0xCD).Draw(t, "handle")), 0x0F}
			data = srvData(srvSlice(t, reflect.TypeOf(""), n, "sv"))
		}
		q.desc = "badtype "
	default:
		if et.Kind() == reflect.String && n == 1 && rapid.Bool().Draw(t, "nopad") {
			data = data[:86]
		}
		if m.store.write(name, listed(vals)) == nil {
			q.judge = mustBe(nil)
		}
	}
	q.desc += fmt.Sprintf("write %s %d of %v", name, n, et)
	q.cip = raw.Write(parseTag(name), wide, typ, count, data)
	return q
}

// cut is a request that ends too early.
func (m *srvModel) cut() srvReq {
	t := m.t
	tag := raw.T("Abc")
	whole := rapid.SampledFrom([][]byte{
		raw.Read(tag, 0, 1), raw.Write(tag, 0, []byte{0xC4, 0}, 1, []byte{1, 2, 3, 4}), raw.Multi(raw.Read(tag, 0, 1)),
		raw.Request(raw.GetAttrSingle, raw.Logical(1, 1, 1, false), nil),
		raw.Request(raw.GetAttrAll, raw.Logical(1, 1, -1, false), nil),
	}).Draw(t, "whole")
	n := rapid.IntRange(1, len(whole)-1).Draw(t, "at")
	return srvReq{desc: fmt.Sprintf("cut %x", whole[:n]), cip: whole[:n], judge: mustFail}
}

// unsupported is a service the server does not have.
func (m *srvModel) unsupported() srvReq {
	t := m.t
	svc := rapid.SampledFrom([]byte{0x02, 0x03, 0x04, 0x05, 0x08, 0x0D, 0x18, 0x4B, 0x4F, 0x50, 0x51, 0x53, 0x56, 0x5A, 0x5C, 0x70, 0x7F}).Draw(t, "svc")
	path := raw.Logical(rapid.SampledFrom([]int{1, 2, 6, 0x6B, 0x6C, 0x8E, 0xB2, 0x300}).Draw(t, "class"), rapid.IntRange(0, 300).Draw(t, "inst"), -1, rapid.Bool().Draw(t, "wide"))
	data := rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "data")
	return srvReq{desc: fmt.Sprintf("service %#x", svc), cip: raw.Request(svc, path, data), judge: mustFail}
}

func shortString(s string) []byte {
	if len(s) > 255 {
		s = s[:255]
	}
	return append([]byte{byte(len(s))}, s...)
}

// attrData is an identity attribute on the wire.
func attrData(v any) []byte {
	if s, ok := v.(string); ok {
		return shortString(s)
	}
	return hx.EncodeAny(reflect.ValueOf(v))
}

// identityAll is the identity object's attributes in order.
func identityAll(a map[gologix.CIPAttribute]any) []byte {
	var b []byte
	for i := 1; i <= 7; i++ {
		b = append(b, attrData(a[gologix.CIPAttribute(i)])...)
	}
	return b
}

func (m *srvModel) attribute() srvReq {
	t := m.t
	wide := rapid.IntRange(0, 5).Draw(t, "wide") == 0
	switch rapid.IntRange(0, 4).Draw(t, "kind") {
	case 0, 1:
		a := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 7, 7, 8, 0, 99, 100, 300}).Draw(t, "attr")
		cl, in := 1, 1
		if rapid.IntRange(0, 4).Draw(t, "other") == 0 {
			cl, in = rapid.SampledFrom([]int{1, 2, 0xF4, 0x47}).Draw(t, "class"), rapid.SampledFrom([]int{0, 1, 2}).Draw(t, "inst")
		}
		q := srvReq{desc: fmt.Sprintf("attribute %d of %d/%d", a, cl, in), cip: raw.Request(raw.GetAttrSingle, raw.Logical(cl, in, a, wide), nil), judge: mustFail}
		if v, ok := m.attrs[gologix.CIPAttribute(a)]; ok && cl == 1 && in == 1 {
			q.judge = mustBe(attrData(v))
			if wide || a > 255 {
				q.judge = orFail(q.judge)
			}
		}
		return q
	case 2:
		q := srvReq{desc: "identity", cip: raw.Request(raw.GetAttrAll, raw.Logical(1, 1, -1, wide), nil), judge: mustBe(identityAll(m.attrs))}
		return q
	case 3:
		name, _ := m.attrs[7].(string)
		return srvReq{desc: "program name", cip: raw.Request(raw.GetAttrAll, raw.Logical(0x64, 1, -1, wide), nil), judge: mustBe(shortString(name))}
	}
	cl, in := rapid.SampledFrom([]int{1, 2, 0x64, 0xF4, 0x300}).Draw(t, "class"), rapid.SampledFrom([]int{0, 2, 7, 257, 300, 0x0F01}).Draw(t, "inst")
	return srvReq{desc: fmt.Sprintf("all of %d/%d", cl, in), cip: raw.Request(raw.GetAttrAll, raw.Logical(cl, in, -1, wide), nil), judge: mustFail}
}

// bridge reads or writes tags of the local path through class 0xC8, in the order of their names.
func (m *srvModel) bridge() srvReq {
	t := m.t
	names := m.names(m.local)
	in := rapid.IntRange(0, len(names)+1).Draw(t, "inst")
	attr := 1
	if rapid.IntRange(0, 7).Draw(t, "attr") == 0 {
		attr = rapid.SampledFrom([]int{0, 2, 9}).Draw(t, "attrno")
	}
	ok := in >= 1 && in <= len(names) && attr == 1
	path := raw.Logical(0xC8, in, attr, false)
	if m.avoid || rapid.Bool().Draw(t, "get") {
		q := srvReq{desc: fmt.Sprintf("get tag attribute %d/%d", in, attr), cip: raw.Request(raw.GetAttrSingle, path, nil), judge: mustFail}
		if ok {
			v, _ := m.local.read(names[in-1], 1)
			q.judge = mustBe(append(srvType(reflect.TypeOf(v)), srvData(v)...))
			if in > 255 {
				q.judge = orFail(q.judge)
			}
		}
		return q
	}
	et := rapid.SampledFrom(srvElems).Draw(t, "et")
	if ok && in <= 255 && rapid.IntRange(0, 4).Draw(t, "right") > 0 {
		et = reflect.TypeOf(m.local.m[names[in-1]])
		if et.Kind() == reflect.Slice {
			et = et.Elem()
		}
	}
	if in > 255 {
		in, ok = 255, attr == 1
		path = raw.Logical(0xC8, in, attr, false)
	}
	v := srvGen(t, et, "v")
	q := srvReq{desc: fmt.Sprintf("set tag attribute %d/%d to %T", in, attr, v), judge: mustFail}
	q.cip = raw.Request(raw.SetAttrSingle, path, append(append(srvType(et), 1, 0), srvData(v)...))
	if rapid.IntRange(0, 9).Draw(t, "otherclass") == 0 {
		cl := rapid.SampledFrom([]int{1, 1, 2, 0x64, 0x6B, 0xC7, 0xC9, 0xF4}).Draw(t, "class")
		q.cip = raw.Request(raw.SetAttrSingle, raw.Logical(cl, rapid.IntRange(0, 2).Draw(t, "its instance"), 1, false), []byte{0xC3, 0, 1, 0, 1, 0})
		q.desc = fmt.Sprintf("set attribute of class %#x", cl)
		return q
	}
	if ok && m.local.write(names[in-1], v) == nil {
		q.judge = mustBe(nil)
	}
	return q
}

// multi is a batch.
func (m *srvModel) multi() srvReq {
	t := m.t
	n := rapid.IntRange(1, 12).Draw(t, "batch")
	m.small = true
	defer func() { m.small = false }()
	var parts []srvReq
	var cips [][]byte
	for i := 0; i < n; i++ {
		var q srvReq
		switch rapid.IntRange(0, 9).Draw(t, "part") {
		case 0, 1, 2, 3:
			q = m.read(false)
		case 4:
			q = m.read(true)
		case 5, 6, 7:
			q = m.write()
		case 8:
			q = m.unsupported()
		default:
			q = m.cut()
			if q.cip[0] == raw.MultiService || q.cip[0] == raw.GetAttrAll || q.cip[0] == raw.GetAttrSingle {
				q.judge = mustFail
			}
		}
		parts = append(parts, q)
		cips = append(cips, q.cip)
	}
	descs := []string{}
	for _, p := range parts {
		descs = append(descs, p.desc)
	}
	return srvReq{desc: "batch(" + strings.Join(descs, ", ") + ")", cip: raw.Multi(cips...), judge: func(r raw.Reply) string {
		if r.Status != 0 && r.Status != 0x1E {
			return fmt.Sprintf("batch refused with %v", r)
		}
		rs, err := raw.ParseMulti(r.Data, n)
		if err != nil {
			return err.Error()
		}
		failed := false
		for i, x := range rs {
			if x.Service != parts[i].cip[0]&0x7F {
				return fmt.Sprintf("reply %d has service %#x, the request %#x", i, x.Service, parts[i].cip[0])
			}
			if p := parts[i].judge(x); p != "" {
				return fmt.Sprintf("part %d (%s): %s", i, parts[i].desc, p)
			}
			failed = failed || x.Status != 0 && x.Status != 6
		}
		if failed != (r.Status != 0) {
			return fmt.Sprintf("batch status %#x for replies %v", r.Status, rs)
		}
		return ""
	}}
}

// huge asks for more than a reply can hold.
func (m *srvModel) huge() srvReq {
	for _, n := range m.names(m.store) {
		v := reflect.ValueOf(m.store.m[n])
		if v.Kind() == reflect.Slice && v.Len() > 1000 {
			if rapid.Bool().Draw(m.t, "one") {
				return srvReq{desc: "read all of " + n, cip: raw.Read(parseTag(n), 0, v.Len()), judge: mustFail}
			}
			k := 40000 / elemSize(v.Type().Elem())
			one := raw.Read(parseTag(n), 0, k)
			return srvReq{desc: "batch too large of " + n, cip: raw.Multi(one, one), judge: func(r raw.Reply) string {
				if r.Status == 0 {
					return fmt.Sprintf("success for a batch that does not fit: %d bytes", len(r.Data))
				}
				return ""
			}}
		}
	}
	return m.read(false)
}

// srvStore fills a store.
func srvStore(t *rapid.T, big bool) *memStore {
	s := &memStore{m: map[string]any{}}
	for i := rapid.IntRange(1, 5).Draw(t, "tags"); i > 0; i-- {
		et := rapid.SampledFrom(srvElems).Draw(t, "type")
		name := hx.GenName(t, "name")
		if rapid.IntRange(0, 5).Draw(t, "member") == 0 {
			name += "." + hx.GenName(t, "mname")
		}
		if et.Kind() != reflect.Bool && rapid.Bool().Draw(t, "array") {
			s.m[name] = srvSlice(t, et, rapid.SampledFrom([]int{2, 3, 5, 8, 40, 300}).Draw(t, "len"), "v")
		} else {
			s.m[name] = srvGen(t, et, "v")
		}
	}
	if rapid.IntRange(0, 25).Draw(t, "many tags") == 0 {
		for i := 0; i < 300; i++ {
			s.m[fmt.Sprintf("many%03d", i)] = int16(i * 111)
		}
	}
	if big {
		s.m["Big"] = srvSlice(t, reflect.TypeOf(uint64(0)), 9000, "big")
	}
	return s
}

// srvAttrs draws the identity of the server.
func srvAttrs(t *rapid.T) map[gologix.CIPAttribute]any {
	w := func(l string) int16 { return int16(hx.GenBits(t, l)) }
	a := map[gologix.CIPAttribute]any{1: w("vendor"), 2: w("device"), 3: w("product"), 4: w("revision"), 5: w("status"), 6: uint32(hx.GenBits(t, "serial"))}
	a[7] = hx.GenString(t, "product", rapid.SampledFrom([]int{0, 8, 32, 200}).Draw(t, "maxname"))
	if rapid.Bool().Draw(t, "extra") {
		a[8] = w("state")
		a[99] = uint32(hx.GenBits(t, "x"))
		a[100] = hx.GenString(t, "text", 20)
	}
	return a
}

// srvConn is an open connection of a raw originator.
type srvConn struct {
	open   raw.Open
	ot, to uint32
	ep     *endpoint
	seq    uint16
	closed bool
}

// rawOpen opens a class 3 connection.
func rawOpen(c *raw.Conn, o raw.Open) (*srvConn, error) {
	r, err := c.Unconnected(o.Bytes())
	if err != nil {
		return nil, err
	}
	ot, to, err := o.Opened(r)
	return &srvConn{open: o, ot: ot, to: to}, err
}

func genOpen(t *rapid.T, route []byte, serial uint16) raw.Open {
	o := raw.Open{Large: rapid.Bool().Draw(t, "large"), Serial: serial, Vendor: uint16(rapid.Uint16().Draw(t, "vendor")), Orig: rapid.Uint32().Draw(t, "orig"),
		OTRPI: 2000000, TORPI: 2000000, OTSize: 500, TOSize: 500, Route: route, Point: raw.MessageRouter}
	o.TO = rapid.Uint32Range(1, 1<<32-1).Draw(t, "to")
	if rapid.Bool().Draw(t, "proposes") {
		o.OT = rapid.Uint32().Draw(t, "ot")
	}
	o.TORPI = uint32(rapid.IntRange(1, 10000000).Draw(t, "torpi"))
	o.OTRPI = uint32(rapid.IntRange(1, 10000000).Draw(t, "otrpi"))
	return o
}

// dialServer registers a session.
func dialServer(t *rapid.T, local string) *raw.Conn {
	c, err := raw.Dial(tcpAddr, local)
	if err != nil {
		t.Fatalf("the server does not accept connections: %v", err)
	}
	if err := c.RegisterSession(); err != nil {
		c.Close()
		t.Fatalf("register session: %v", err)
	}
	return c
}

func setAttrs(srv *gologix.Server, a map[gologix.CIPAttribute]any) {
	for k := range srv.Attributes {
		delete(srv.Attributes, k)
	}
	for k, v := range a {
		srv.Attributes[k] = v
	}
}

func TestC19(t *testing.T) {
	rec := hx.For("C19")
	rec.Rule("a sequence of at least 3 requests of at least two kinds on one TCP connection, with an unsatisfiable or unsupported one or a batch among them")
	rec.Assume("a request on a connection that is not open may be answered for connection 0",
		"the error of a wrapped request may carry its service or that of the unconnected send",
		"single attributes with wider than byte path segments may be refused",
		"messages whose items are not those of their command are not requests and may end the TCP connection")
	hx.Check(t, "C19", 6000, func(t *rapid.T) {
		srv, eps := startServer()
		local := srvStore(t, false)
		eps[0].set(local)
		attrs := srvAttrs(t)
		setAttrs(srv, attrs)
		which := rapid.IntRange(0, len(eps)-1).Draw(t, "path")
		store := local
		if which != 0 {
			store = srvStore(t, rapid.IntRange(0, 7).Draw(t, "big") == 0)
			eps[which].set(store)
		}
		_, big := store.m["Big"]
		route := eps[which].path
		m := &srvModel{t: t, store: store.clone(), attrs: attrs}
		m.local = m.store
		if which != 0 {
			m.local = local.clone()
		}
		c := dialServer(t, "")
		defer c.Close()
		var conns []*srvConn
		for i := rapid.IntRange(0, 2).Draw(t, "conns"); i > 0; i-- {
			o := genOpen(t, route, uint16(100+i))
			s, err := rawOpen(c, o)
			if err != nil {
				t.Fatal(err)
			}
			s.seq = rapid.Uint16().Draw(t, "seq")
			conns = append(conns, s)
		}
		type msg struct {
			desc    string
			frame   raw.Frame
			noReply bool
			check   func(f raw.Frame) string
		}
		var msgs []msg
		kinds := map[string]bool{}
		unconnected := func(q srvReq, services ...byte) msg {
			return msg{desc: q.desc, frame: raw.Frame{Cmd: raw.SendRR, Body: raw.RR(q.cip)}, check: func(f raw.Frame) string {
				if f.Status != 0 {
					return fmt.Sprintf("encapsulation status %d", f.Status)
				}
				b, err := raw.ParseRR(f.Body)
				if err != nil {
					return err.Error()
				}
				r, err := raw.ParseReply(b)
				if err != nil {
					return err.Error()
				}
				if r.Service != q.cip[0] && bytes.IndexByte(services, r.Service) < 0 {
					return fmt.Sprintf("reply %v to service %#x", r, q.cip[0])
				}
				return q.judge(r)
			}}
		}
		n := rapid.IntRange(1, 14).Draw(t, "n")
		for i := 0; i < n; i++ {
			kind := rapid.SampledFrom([]string{"connected", "connected", "connected", "connected", "wrapped", "wrapped", "attribute", "bridge", "encap", "noconn", "open", "close", "direct"}).Draw(t, "kind")
			var x msg
			switch kind {
			case "connected", "noconn":
				if len(conns) == 0 && kind == "connected" {
					continue
				}
				var s *srvConn
				if kind == "connected" {
					s = conns[rapid.IntRange(0, len(conns)-1).Draw(t, "conn")]
				} else {
					s = &srvConn{ot: rapid.Uint32().Draw(t, "noconn"), closed: true, seq: 7}
					for _, k := range conns {
						if k.ot == s.ot {
							s.ot ^= 0x5A5A5A5A
						}
					}
				}
				before := m.store.clone()
				beforeLocal := m.local
				var q srvReq
				switch rapid.IntRange(0, 9).Draw(t, "service") {
				case 0, 1:
					q = m.read(false)
				case 2:
					q = m.read(true)
				case 3, 4:
					q = m.write()
				case 5, 6:
					q = m.multi()
				case 7:
					q = m.attribute()
				case 8:
					q = m.unsupported()
				default:
					if big && rapid.Bool().Draw(t, "huge") {
						q = m.huge()
					} else {
						q = m.cut()
					}
				}
				if s.closed {
					q.desc = "not open: " + q.desc
					q.judge = mustFail
					if m.local == m.store {
						m.local = before
					} else {
						m.local = beforeLocal
					}
					m.store = before
				}
				s.seq++
				seq := s.seq
				x = msg{desc: fmt.Sprintf("connected %s", q.desc), frame: raw.Frame{Cmd: raw.SendUnit, Body: raw.Unit(s.ot, seq, q.cip)}, check: func(f raw.Frame) string {
					if f.Status != 0 {
						if s.closed && len(f.Body) == 0 {
							return ""
						}
						return fmt.Sprintf("encapsulation status %d", f.Status)
					}
					id, sq, b, err := raw.ParseUnit(f.Body)
					if err != nil {
						return err.Error()
					}
					if sq != seq {
						return fmt.Sprintf("sequence number %d, the request has %d", sq, seq)
					}
					if id != s.to && !s.closed {
						return fmt.Sprintf("for connection %#x, should be %#x", id, s.to)
					}
					if s.closed && id != 0 && id != s.to {
						return fmt.Sprintf("for connection %#x, which is another", id)
					}
					r, err := raw.ParseReply(b)
					if err != nil {
						return err.Error()
					}
					if r.Service != q.cip[0]&0x7F {
						return fmt.Sprintf("reply %v to service %#x", r, q.cip[0])
					}
					return q.judge(r)
				}}
			case "wrapped":
				var q srvReq
				wrong := rapid.IntRange(0, 7).Draw(t, "wrongroute") == 0
				save, saveLocal := m.store, m.local
				if wrong {
					m.store = save.clone()
					m.local = m.store
				}
				switch rapid.IntRange(0, 6).Draw(t, "service") {
				case 0, 1:
					q = m.read(false)
				case 2, 3:
					q = m.write()
				case 4:
					q = m.unsupported()
				case 5:
					q = m.attribute()
				default:
					if which == 0 && !wrong {
						q = m.bridge()
					} else {
						q = m.cut()
						if q.cip[0] == raw.MultiService {
							q.judge = mustFail
						}
					}
				}
				m.store, m.local = save, saveLocal
				r := route
				if wrong {
					r = rapid.SampledFrom([][]byte{{1, 9}, {}, {2, 0}, {1, 0, 2, 9}, {1, 3, 1, 0}}).Draw(t, "route")
					q.desc = fmt.Sprintf("%s to unknown route %v", q.desc, r)
					if q.cip[0] == raw.ReadTag || q.cip[0] == raw.WriteTag {
						q.judge = mustFail
					}
				}
				inner := q.cip[0]
				q.cip = raw.Wrap(q.cip, r)
				q.desc = "wrapped " + q.desc
				x = unconnected(q, inner)
				ck := x.check
				x.check = func(f raw.Frame) string {
					p := ck(f)
					if p == "" {
						b, _ := raw.ParseRR(f.Body)
						if r, _ := raw.ParseReply(b); r.Status == 0 && r.Service != inner {
							return fmt.Sprintf("success %v to service %#x", r, inner)
						}
					}
					return p
				}
			case "attribute":
				x = unconnected(m.attribute())
			case "bridge":
				x = unconnected(m.bridge())
			case "direct":
				q := m.unsupported()
				if rapid.IntRange(0, 2).Draw(t, "cutdirect") == 0 {
					q = m.cut()
				}
				x = unconnected(q)
			case "open":
				o := genOpen(t, route, uint16(200+i))
				o.OT = 0 // not one that another request of the sequence takes for not open
				if rapid.IntRange(0, 3).Draw(t, "badpath") == 0 {
					o.Route = rapid.SampledFrom([][]byte{{1, 9}, {2, 0}, {1, 0, 2, 9}, {1, 255}}).Draw(t, "badroute")
					x = unconnected(srvReq{desc: fmt.Sprintf("open to %v", o.Route), cip: o.Bytes(), judge: mustFail})
					break
				}
				x = unconnected(srvReq{desc: "open", cip: o.Bytes(), judge: func(r raw.Reply) string {
					_, _, err := o.Opened(r)
					if err != nil {
						return err.Error()
					}
					return ""
				}})
			case "close":
				if len(conns) > 0 && rapid.Bool().Draw(t, "known") {
					s := conns[rapid.IntRange(0, len(conns)-1).Draw(t, "which")]
					was := s.closed
					s = &srvConn{open: s.open}
					// later requests find it closed
					for k, y := range conns {
						if y.open.Serial == s.open.Serial {
							z := *y
							z.closed = true
							conns[k] = &z
						}
					}
					x = unconnected(srvReq{desc: "close", cip: s.open.CloseBytes(), judge: func(r raw.Reply) string {
						if was {
							return mustFail(r)
						}
						if r.Status != 0 {
							return fmt.Sprintf("refused with %v", r)
						}
						if err := s.open.Closed(r); err != nil {
							return err.Error()
						}
						return ""
					}})
				} else {
					o := genOpen(t, route, 999)
					x = unconnected(srvReq{desc: "close of nothing", cip: o.CloseBytes(), judge: mustFail})
				}
			case "encap":
				switch rapid.IntRange(0, 3).Draw(t, "encap") {
				case 0:
					x = msg{desc: "nop", frame: raw.Frame{Cmd: raw.NOP, Body: genBody(t, "nop")}, noReply: true}
				case 1, 2:
					cmd := rapid.SampledFrom([]uint16{raw.ListServices, raw.ListIdentity}).Draw(t, "list")
					x = msg{desc: fmt.Sprintf("command %#x", cmd), frame: raw.Frame{Cmd: cmd}, check: func(f raw.Frame) string {
						if f.Status != 0 {
							return fmt.Sprintf("encapsulation status %d", f.Status)
						}
						items, err := raw.ParseItems(f.Body)
						if err != nil {
							return err.Error()
						}
						if len(items) != 1 {
							return fmt.Sprintf("%d items", len(items))
						}
						return ""
					}}
				default:
					cmd := rapid.SampledFrom([]uint16{0x64, 0x01, 0x72, 0x73, 0x5F, 0xFFFF, 0x400}).Draw(t, "cmd")
					x = msg{desc: fmt.Sprintf("command %#x", cmd), frame: raw.Frame{Cmd: cmd, Body: genBody(t, "cmdbody")}, check: func(f raw.Frame) string {
						if f.Status == 0 {
							return "success for an unknown command"
						}
						return ""
					}}
				}
			}
			x.frame.Session, x.frame.Context = c.Session, rapid.Uint64().Draw(t, "context")
			msgs = append(msgs, x)
			kinds[kind] = true
		}
		if len(msgs) == 0 {
			return
		}
		msgs = append(msgs, msg{desc: "last", frame: raw.Frame{Cmd: raw.ListServices, Session: c.Session, Context: 0xABCDEF0123456789}, check: func(raw.Frame) string { return "" }})
		var descs []string
		for _, x := range msgs {
			descs = append(descs, x.desc)
		}
		hist := strings.Join(descs, "; ")
		var wire []byte
		for _, x := range msgs {
			wire = append(wire, x.frame.Bytes()...)
		}
		mode := rapid.SampledFrom([]string{"turns", "pipelined", "cut", "slow"}).Draw(t, "mode")
		var cuts []int
		if mode == "cut" || mode == "slow" {
			for i := rapid.IntRange(1, 6).Draw(t, "ncuts"); i > 0; i-- {
				cuts = append(cuts, rapid.IntRange(0, len(wire)).Draw(t, "at"))
			}
			sort.Ints(cuts)
		}
		receive := func(i int) {
			x := msgs[i]
			if x.noReply {
				return
			}
			f, err := c.Next()
			if err != nil {
				t.Fatalf("no reply to request %d (%s) of %s (%s): %v", i, x.desc, hist, mode, err)
			}
			if err := raw.Matches(x.frame, f); err != nil {
				t.Fatalf("request %d (%s) of %s (%s): %v", i, x.desc, hist, mode, err)
			}
			if p := x.check(f); p != "" {
				t.Fatalf("reply to request %d (%s) of %s (%s): %s\nrequest %x\nreply %v", i, x.desc, hist, mode, p, x.frame.Body, f)
			}
		}
		if mode == "turns" {
			for i, x := range msgs {
				if err := c.Put(x.frame); err != nil {
					t.Fatalf("request %d (%s) of %s: %v", i, x.desc, hist, err)
				}
				receive(i)
			}
		} else {
			at := 0
			for _, k := range append(cuts, len(wire)) {
				if _, err := c.Write(wire[at:k]); err != nil {
					t.Fatalf("sending %s: %v", hist, err)
				}
				at = k
				if mode == "slow" {
					time.Sleep(time.Millisecond)
				}
			}
			for i := range msgs {
				receive(i)
			}
		}
		if p := store.same(m.store); p != "" {
			t.Fatalf("after %s (%s): %s", hist, mode, p)
		}
		if p := local.same(m.local); p != "" {
			t.Fatalf("after %s (%s): %s", hist, mode, p)
		}
		if rapid.Bool().Draw(t, "unregister") {
			c.Put(raw.Frame{Cmd: raw.UnRegister, Session: c.Session})
			if f, err := c.Next(); err == nil {
				t.Fatalf("a message after the end of the session: %v", f)
			}
		}
		var cs []string
		for k := range kinds {
			cs = append(cs, k)
		}
		rec.Case(hist+mode, len(msgs) > 3 && len(kinds) > 1, append(cs, mode)...)
	})
}

// genBody is the body of a message whose content does not matter.
func genBody(t *rapid.T, l string) []byte {
	if rapid.IntRange(0, 3).Draw(t, l+" long") > 0 {
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, l)
	}
	n := rapid.OneOf(rapid.SampledFrom([]int{511, 512, 513, 4000, 16383, 16384, 16385, 32767, 32768, 65535}), rapid.IntRange(0, 65535)).Draw(t, l+" size")
	fill := rapid.SampledFrom([]byte{0, 0x65, 0x6F, 0xFF}).Draw(t, l+" fill")
	return bytes.Repeat([]byte{fill}, n)
}
