package props

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/raw"
)

// c33List is an endpoint with a list of tags of its own. The value of each tag is its place in the list.
type c33List struct {
	memStore
	list []gologix.ServerTagInfo
}

func (l *c33List) TagList() []gologix.ServerTagInfo { return l.list }

func (l *c33List) TagRead(tag string, qty int16) (any, error) {
	for i := range l.list {
		if l.list[i].Name == tag && qty == 1 {
			return int32(i), nil
		}
	}
	return nil, errStore
}

// c33Hidden is an endpoint that lists nothing.
type c33Hidden struct{ s *memStore }

func (h c33Hidden) TagRead(tag string, qty int16) (any, error) { return h.s.TagRead(tag, qty) }
func (h c33Hidden) TagWrite(tag string, v any) error           { return h.s.TagWrite(tag, v) }
func (h c33Hidden) IORead() ([]byte, error)                    { return nil, errStore }
func (h c33Hidden) IOWrite([]gologix.CIPItem) error            { return errStore }

var c33HiddenPath = []byte{1, 9}
var c33Once sync.Once

type c33Entry struct {
	id   uint32
	name string
	typ  uint16
}

// c33Attrs are the sizes of the attributes other than the name and the type.
var c33Attrs = map[uint16]int{3: 4, 5: 4, 6: 4, 8: 12, 10: 1}

// c33Parse takes a list apart.
func c33Parse(b []byte, attrs []uint16) (l []c33Entry, err error) {
	le := binary.LittleEndian
	take := func(n int) []byte {
		if n > len(b) {
			err = fmt.Errorf("the list ends within an entry (after %d entries): %x", len(l), b)
			return make([]byte, n)
		}
		x := b[:n]
		b = b[n:]
		return x
	}
	for len(b) > 0 {
		e := c33Entry{id: le.Uint32(take(4))}
		for _, a := range attrs {
			switch a {
			case 1:
				e.name = string(take(int(le.Uint16(take(2)))))
			case 2:
				e.typ = le.Uint16(take(2))
			default:
				take(c33Attrs[a])
			}
		}
		if err != nil {
			return nil, err
		}
		l = append(l, e)
	}
	return l, nil
}

type c33Ask struct {
	t    *rapid.T
	c    *raw.Conn
	conn *srvConn
	size int
	hist []string
}

// from asks for the list from an instance on, and again while there is more.
func (k *c33Ask) from(start uint32, attrs []uint16, width int) (l []c33Entry, replies int) {
	for {
		path := []byte{0x20, 0x6B}
		switch {
		case width == 4 || start > 0xFFFF:
			path = binary.LittleEndian.AppendUint32(append(path, 0x26, 0), start)
		case width == 2 || start > 0xFF:
			path = binary.LittleEndian.AppendUint16(append(path, 0x25, 0), uint16(start))
		default:
			path = append(path, 0x24, byte(start))
		}
		data := binary.LittleEndian.AppendUint16(nil, uint16(len(attrs)))
		for _, a := range attrs {
			data = binary.LittleEndian.AppendUint16(data, a)
		}
		k.conn.seq++
		r, err := k.c.Connected(k.conn.ot, k.conn.to, k.conn.seq, raw.Request(raw.SymbolList, path, data))
		if err != nil {
			k.t.Fatalf("listing from %d: %v", start, err)
		}
		if r.Service != raw.SymbolList || (r.Status != 0 && r.Status != 6) || len(r.Ext) != 0 {
			k.t.Fatalf("listing attributes %v from %d gives %v", attrs, start, r)
		}
		part, err := c33Parse(r.Data, attrs)
		if err != nil {
			k.t.Fatalf("listing attributes %v from %d: %v", attrs, start, err)
		}
		replies++
		if n := len(r.Data) + 6; n > k.size && len(part) > 1 {
			k.t.Fatalf("listing attributes %v from %d: a reply of %d bytes, the connection takes %d", attrs, start, n, k.size)
		}
		for _, e := range part {
			if e.id < start || e.id == 0 || (len(l) > 0 && e.id <= l[len(l)-1].id) {
				k.t.Fatalf("listing attributes %v from %d: entry %v after %v", attrs, start, e, l)
			}
			l = append(l, e)
		}
		if r.Status == 0 {
			return l, replies
		}
		if len(part) == 0 {
			k.t.Fatalf("listing attributes %v from %d gives nothing and says there is more", attrs, start)
		}
		start = l[len(l)-1].id + 1
	}
}

func TestC33(t *testing.T) {
	rec := hx.For("C33")
	rec.Rule("at least three tags, listed at least twice, by different attributes, from different instances or in several replies")
	rec.Assume("names are listed up to 255 characters", "the dimensions of arrays are not judged: endpoints do not tell them",
		"requests for attributes the server does not know may be refused")
	hx.Check(t, "C33", 1500, func(t *rapid.T) {
		srv, eps := startServer()
		hidden := c33Hidden{&memStore{m: map[string]any{"t": int32(1)}}}
		c33Once.Do(func() { srv.Router.Handle(c33HiddenPath, hidden) })
		route := eps[rapid.IntRange(0, len(eps)-1).Draw(t, "path")].path
		var ep *endpoint
		for _, e := range eps {
			if reflect.DeepEqual(e.path, route) {
				ep = e
			}
		}
		var want []gologix.ServerTagInfo
		var own *c33List
		var builtin *gologix.MapTagProvider
		kind := rapid.SampledFrom([]string{"own", "own", "builtin", "builtin", "store", "hidden"}).Draw(t, "kind")
		n := rapid.IntRange(0, 12).Draw(t, "tags")
		if rapid.IntRange(0, 3).Draw(t, "many") == 0 {
			n = rapid.IntRange(12, 400).Draw(t, "n")
		}
		huge := kind == "own" && rapid.IntRange(0, 300).Draw(t, "very many") == 0
		if huge {
			n = rapid.IntRange(2000, 70000).Draw(t, "n")
		}
		names := map[string]bool{}
		name := func(i int) string {
			var s string
			if n <= 40 {
				s = hx.GenName(t, "name")
				if rapid.IntRange(0, 9).Draw(t, "longname") == 0 {
					s += strings.Repeat("x", rapid.IntRange(1, 300).Draw(t, "more"))
				}
			} else {
				s = fmt.Sprintf("%c%d%s", 'a'+i*7%26, i, strings.Repeat("y", i*i%23))
			}
			for p := s; names[strings.ToLower(p)] || (len(s) > 255 && names[p[:255]]); s = p {
				p += "_"
			}
			names[strings.ToLower(s)] = true
			if len(s) > 255 {
				names[s[:255]] = true
			}
			return s
		}
		types := []gologix.CIPType{0xC1, 0xC2, 0xC3, 0xC4, 0xC5, 0xC6, 0xC7, 0xC8, 0xCA, 0xCB, 0xD1, 0xD3, 0xDA, 0xA0}
		store := &memStore{m: map[string]any{}}
		builtin = &gologix.MapTagProvider{}
		switch kind {
		case "own":
			own = &c33List{}
			for i := 0; i < n; i++ {
				typ := types[i*11%len(types)]
				if n <= 40 {
					typ = rapid.SampledFrom(types).Draw(t, "type")
				}
				own.list = append(own.list, gologix.ServerTagInfo{Name: name(i), Type: typ})
			}
			want = append(want, own.list...)
			ep.set(own)
		case "hidden":
			route = c33HiddenPath
		default:
			for i := 0; i < n; i++ {
				et := srvElems[rapid.IntRange(0, len(srvElems)-1).Draw(t, "et")]
				nm := name(i)
				v := reflect.New(et).Elem().Interface()
				if et.Kind() != reflect.Bool && rapid.IntRange(0, 3).Draw(t, "array") == 0 {
					v = reflect.MakeSlice(reflect.SliceOf(et), 3, 3).Interface()
				}
				typ := gologix.CIPType(srvType(et)[0])
				if et.Kind() == reflect.String {
					typ, _ = gologix.GoVarToCIPType("")
				}
				if kind == "store" {
					store.m[nm] = v
					ep.set(store)
				} else {
					if err := builtin.TagWrite(nm, v); err != nil {
						t.Fatalf("making tag %s: %v", nm, err)
					}
					nm = strings.ToLower(nm)
				}
				want = append(want, gologix.ServerTagInfo{Name: nm, Type: typ})
			}
			if kind == "store" {
				ep.set(store)
			} else {
				ep.set(builtin)
			}
		}
		before := append([]gologix.ServerTagInfo{}, want...)
		sort.Slice(want, func(i, j int) bool { return want[i].Name < want[j].Name })

		k := &c33Ask{t: t, c: dialServer(t, "")}
		defer k.c.Close()
		o := genOpen(t, route, 7)
		k.size = rapid.SampledFrom([]int{60, 100, 300, 500, 504, 511}).Draw(t, "size")
		if o.Large {
			k.size = rapid.SampledFrom([]int{100, 500, 512, 1000, 4000, 4002, 65000}).Draw(t, "size")
		}
		if huge {
			o.Large, k.size = true, 65000
		}
		o.TOSize = uint16(k.size)
		var err error
		if k.conn, err = rawOpen(k.c, o); err != nil {
			t.Fatal(err)
		}

		// the whole list.
		full, replies := k.from(rapid.SampledFrom([]uint32{0, 1}).Draw(t, "first"), []uint16{1, 2}, rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "width"))
		if len(full) != len(want) {
			t.Fatalf("%d tags are listed, there are %d: %v, %v", len(full), len(want), full, hx.Short(fmt.Sprint(want), 500))
		}
		got := append([]c33Entry{}, full...)
		sort.Slice(got, func(i, j int) bool { return got[i].name < got[j].name })
		for i, w := range want {
			if len(w.Name) > 255 {
				w.Name = w.Name[:255]
			}
			if got[i].name != w.Name || got[i].typ != uint16(w.Type) {
				t.Fatalf("%v is listed, the tag is %v", got[i], w)
			}
		}
		variants := 0
		if replies > 1 {
			variants = 2
		}
		for i := rapid.IntRange(1, 4).Draw(t, "listings"); i > 0; i-- {
			attrs := []uint16{1, 2}
			if rapid.Bool().Draw(t, "other attributes") {
				attrs = rapid.SampledFrom([][]uint16{{1}, {2}, {2, 1}, {1, 2, 8}, {1, 2, 3, 5, 6, 8}, {1, 2, 3, 5, 6, 8, 10}, {8, 1}, {}}).Draw(t, "attributes")
				variants++
			}
			start := uint32(0)
			if len(full) > 0 && rapid.Bool().Draw(t, "later") {
				start = full[rapid.IntRange(0, len(full)-1).Draw(t, "start")].id + uint32(rapid.IntRange(0, 1).Draw(t, "after"))
				variants++
			} else if rapid.IntRange(0, 5).Draw(t, "far") == 0 {
				start = rapid.SampledFrom([]uint32{1000, 65535, 65536, 1 << 24, 1<<32 - 1}).Draw(t, "start")
			}
			l, _ := k.from(start, attrs, rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "width"))
			var exp []c33Entry
			for _, e := range full {
				if e.id < start {
					continue
				}
				x := c33Entry{id: e.id}
				for _, a := range attrs {
					if a == 1 {
						x.name = e.name
					}
					if a == 2 {
						x.typ = e.typ
					}
				}
				exp = append(exp, x)
			}
			if !reflect.DeepEqual(l, exp) {
				t.Fatalf("listing attributes %v from %d gives %s, should be %s", attrs, start, hx.Short(fmt.Sprint(l), 600), hx.Short(fmt.Sprint(exp), 600))
			}
		}
		// the same numbers stand for the tags in the class that reads them by number.
		if own != nil && reflect.DeepEqual(route, []byte{1, 0}) && len(full) > 0 {
			e := full[rapid.IntRange(0, len(full)-1).Draw(t, "by number")]
			if e.id < 65536 && len(e.name) < 255 {
				r, err := k.c.Unconnected(raw.Request(raw.GetAttrSingle, raw.Logical(0xC8, int(e.id), 1, false), nil))
				if err != nil {
					t.Fatal(err)
				}
				place := -1
				for i := range own.list {
					if own.list[i].Name == e.name {
						place = i
					}
				}
				if w := append([]byte{0xC4, 0}, binary.LittleEndian.AppendUint32(nil, uint32(place))...); e.id < 256 && (r.Status != 0 || !reflect.DeepEqual(r.Data, w)) {
					t.Fatalf("instance %d is listed as %s, reading it gives %v, should be %x", e.id, e.name, r, w)
				}
				variants++
			}
		}
		// other objects have no tags.
		if rapid.IntRange(0, 3).Draw(t, "other class") == 0 {
			k.conn.seq++
			cl := rapid.SampledFrom([]int{1, 0x64, 0x68, 0x6C, 0xAC, 0x16B}).Draw(t, "class")
			r, err := k.c.Connected(k.conn.ot, k.conn.to, k.conn.seq, raw.Request(raw.SymbolList, raw.Logical(cl, 0, -1, false), []byte{2, 0, 1, 0, 2, 0}))
			if err != nil {
				t.Fatal(err)
			}
			if r.Status == 0 && len(r.Data) > 0 {
				t.Fatalf("class %#x lists %x", cl, r.Data)
			}
		}
		if own != nil && len(before) > 0 && !reflect.DeepEqual(own.list, before) {
			t.Fatalf("the endpoint's own list has changed: %s, was %s", hx.Short(fmt.Sprint(own.list), 500), hx.Short(fmt.Sprint(before), 500))
		}
		// the library's own client lists them too.
		byClient := n <= 1000 && rapid.IntRange(0, 2).Draw(t, "client") == 0
		if byClient {
			cli := serverClient(route)
			cli.KeepAliveAutoStart = false
			if err := cli.Connect(); err != nil {
				t.Fatal(err)
			}
			defer cli.Disconnect()
			if err := cli.ListAllTags(0); err != nil {
				t.Fatalf("ListAllTags: %v", err)
			}
			known := map[string]uint16{}
			for key, v := range cli.KnownTags {
				if key != strings.ToLower(v.Name) {
					t.Fatalf("the client has %v under %s", v.Name, key)
				}
				known[v.Name] = uint16(v.Info.Type)
			}
			exp := map[string]uint16{}
			for _, e := range full {
				if !strings.HasPrefix(e.name, "__") {
					exp[e.name] = e.typ & 0xFF
				}
			}
			if !reflect.DeepEqual(known, exp) {
				t.Fatalf("the client lists %v, should be %v", known, exp)
			}
		}
		cs := []string{kind}
		if replies > 1 {
			cs = append(cs, "several replies")
		}
		if byClient {
			cs = append(cs, "by the client")
		}
		rec.Case(fmt.Sprint(kind, hx.Short(fmt.Sprint(want), 300), k.size, replies, variants), len(want) >= 3 && variants > 0, cs...)
	})
}
