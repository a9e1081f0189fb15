package props

import (
	"bytes"
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// c09Logical is the byte form of a logical segment: type in the upper bits of
// the first byte, then 8 bits, or a pad byte and 16 or 32 bits.
func c09Logical(kind byte, n uint32) []byte {
	base := map[byte]byte{'c': 0x20, 'i': 0x24, 'e': 0x28, 'a': 0x30}[kind]
	switch {
	case n <= 0xFF:
		return []byte{base, byte(n)}
	case n <= 0xFFFF:
		return []byte{base | 1, 0, byte(n), byte(n >> 8)}
	}
	return []byte{base | 2, 0, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
}

func c09Num(t *rapid.T, label string, max uint32) uint32 {
	n := rapid.OneOf(
		rapid.SampledFrom([]uint32{0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 512, 32767, 32768, 65279, 65280, 65534, 65535, 65536, 65537, 65791, 1 << 20, 1<<24 - 1, 1 << 24, math.MaxInt32, 1 << 31, math.MaxUint32 - 1, math.MaxUint32}),
		rapid.Uint32Range(0, max),
		rapid.Uint32Range(0, 70000),
		rapid.Uint32Range(0, 300),
	).Draw(t, label)
	if n > max {
		n &= max
	}
	return n
}

func c09Symbol(t *rapid.T, label string) string {
	s := hx.GenName(t, label)
	if rapid.IntRange(0, 4).Draw(t, label+".program") == 0 {
		s = "Program:" + s
	}
	return s
}

func c09Sym(s string) []byte {
	b := append([]byte{0x91, byte(len(s))}, s...)
	if len(s)%2 == 1 {
		b = append(b, 0)
	}
	return b
}

func c09IP(t *rapid.T, label string) string {
	o := func(i int) int {
		return rapid.OneOf(rapid.SampledFrom([]int{0, 1, 9, 10, 99, 100, 255}), rapid.IntRange(0, 255)).Draw(t, fmt.Sprintf("%s%d", label, i))
	}
	a := fmt.Sprintf("%d.%d.%d.%d", o(0), o(1), o(2), o(3))
	switch rapid.IntRange(0, 9).Draw(t, label+" form") {
	case 0: // with the port it listens on
		return fmt.Sprintf("%s:%d", a, rapid.IntRange(1, 65535).Draw(t, label+" port"))
	case 1: // by name
		return rapid.StringMatching(`[a-z][a-z0-9-]{0,20}\.[a-z0-9-]{1,40}\.[a-z]{2,3}`).Draw(t, label+" name")
	}
	return a
}

// c09Route draws a route in text form and its bytes.
func c09Route(t *rapid.T, min int) (text string, want []byte, ip bool) {
	var parts []string
	n := rapid.IntRange(min, 5).Draw(t, "hops")
	for i := 0; i < n; i++ {
		port := rapid.IntRange(1, 14).Draw(t, "port")
		parts = append(parts, fmt.Sprint(port))
		if rapid.IntRange(0, 2).Draw(t, "ip") == 0 {
			a := c09IP(t, "addr")
			ip = true
			parts = append(parts, a)
			want = append(want, byte(port)|0x10, byte(len(a)))
			want = append(want, a...)
			if len(a)%2 == 1 {
				want = append(want, 0)
			}
			continue
		}
		link := rapid.IntRange(0, 255).Draw(t, "link")
		parts = append(parts, fmt.Sprint(link))
		want = append(want, byte(port), byte(link))
	}
	if rapid.IntRange(0, 5).Draw(t, "logical") == 0 {
		// raw bytes of logical segments
		parts = append(parts, "32", "2", "36", "1")
		want = append(want, 0x20, 2, 0x24, 1)
	}
	sep := rapid.SampledFrom([]string{",", ", ", " , ", ",  "}).Draw(t, "sep")
	text = strings.Join(parts, sep)
	switch rapid.IntRange(0, 3).Draw(t, "dress") {
	case 0:
		text = "[" + text + "]"
	case 1:
		text = " " + text + " "
	}
	return text, want, ip
}

func TestC09Segments(t *testing.T) {
	r := hx.For("C09")
	r.Rule("a single segment with a number above 255, of more than one byte, or a symbol of odd length")
	hx.Check(t, "C09", 30000, func(t *rapid.T) {
		kind := rapid.SampledFrom([]byte("cieaplx")).Draw(t, "kind")
		var n uint32
		var want []byte
		var got []byte
		var ln int
		var back func([]byte) (uint32, error)
		var ser any
		switch kind {
		case 'c':
			n = c09Num(t, "n", 0xFFFF)
			s := gologix.CIPClass(n)
			want, got, ln, ser = c09Logical('c', n), s.Bytes(), s.Len(), s
			back = func(b []byte) (uint32, error) {
				p := gologix.CIPClass(rapid.Uint16().Draw(t, "old"))
				err := p.Read(bytes.NewReader(b))
				return uint32(p), err
			}
		case 'i':
			n = c09Num(t, "n", math.MaxUint32)
			s := gologix.CIPInstance(n)
			want, got, ln, ser = c09Logical('i', n), s.Bytes(), s.Len(), s
			back = func(b []byte) (uint32, error) {
				p := gologix.CIPInstance(rapid.Uint32().Draw(t, "old"))
				err := p.Read(bytes.NewReader(b))
				return uint32(p), err
			}
		case 'a':
			n = c09Num(t, "n", 0xFFFF)
			s := gologix.CIPAttribute(n)
			want, got, ln, ser = c09Logical('a', n), s.Bytes(), s.Len(), s
			back = func(b []byte) (uint32, error) {
				p := gologix.CIPAttribute(rapid.Uint16().Draw(t, "old"))
				err := p.Read(bytes.NewReader(b))
				return uint32(p), err
			}
		case 'e':
			n = c09Num(t, "n", math.MaxUint32)
			s := gologix.CIPElement(n)
			want, got, ln, ser = c09Logical('e', n), s.Bytes(), s.Len(), s
		case 'p':
			n = uint32(rapid.IntRange(1, 14).Draw(t, "n"))
			s := gologix.CIPPort{PortNo: byte(n)}
			want, got, ln, ser = []byte{byte(n)}, s.Bytes(), s.Len(), s
		case 'x':
			n = uint32(rapid.IntRange(1, 14).Draw(t, "n"))
			l := byte(rapid.IntRange(1, 255).Draw(t, "ext"))
			s := gologix.CIPPort{PortNo: byte(n) | 0x10, ExtensionLen: l}
			want, got, ln, ser = []byte{byte(n) | 0x10, l}, s.Bytes(), s.Len(), s
		case 'l':
			n = uint32(rapid.Byte().Draw(t, "n"))
			s := gologix.CIPAddress(n)
			want, got, ln, ser = []byte{byte(n)}, s.Bytes(), s.Len(), s
		}
		r.Case(fmt.Sprintf("segment %c %d", kind, n), n > 255 || kind == 'x', "segment:"+string(kind))
		if !bytes.Equal(got, want) {
			t.Fatalf("segment %c(%d) is %x, want %x", kind, n, got, want)
		}
		if ln != len(want) {
			t.Fatalf("segment %c(%d) reports length %d but is %d bytes", kind, n, ln, len(want))
		}
		buf, err := gologix.Serialize(ser)
		if err != nil || !bytes.Equal(buf.Bytes(), want) {
			t.Fatalf("Serialize of segment %c(%d) is %v, %v, want %x", kind, n, buf, err, want)
		}
		if back == nil {
			return
		}
		for _, tail := range [][]byte{nil, {0x24, 0xFF, 1, 2}} {
			if v, err := back(append(append([]byte(nil), want...), tail...)); err != nil || v != n {
				t.Fatalf("decoding segment %x gives %d, %v, want %d", want, v, err, n)
			}
		}
		// larger forms of the same number are as valid
		if n <= 0xFF {
			wide := []byte{want[0] | 1, 0, byte(n), 0}
			if v, err := back(wide); err != nil || v != n {
				t.Fatalf("decoding segment %x gives %d, %v, want %d", wide, v, err, n)
			}
		}
		if cut := rapid.IntRange(0, len(want)-1).Draw(t, "cut"); cut < len(want) {
			if _, err := back(want[:cut]); err == nil {
				t.Fatalf("decoding segment %x cut to %d bytes is no error", want, cut)
			}
		}
		bad := append([]byte(nil), want...)
		bad[0] = byte(rapid.Byte().Filter(func(b byte) bool { return b>>2 != want[0]>>2 }).Draw(t, "bad"))
		if _, err := back(bad); err == nil {
			t.Fatalf("decoding %x as segment %c is no error", bad, kind)
		}
	})
}

func TestC09Builder(t *testing.T) {
	r := hx.For("C09")
	r.Rule("a built path of at least two segments")
	hx.Check(t, "C09", 25000, func(t *rapid.T) {
		n := rapid.IntRange(0, 8).Draw(t, "n")
		pb := gologix.NewPathBuilder()
		if rapid.Bool().Draw(t, "zero") {
			pb = &gologix.PathBuilder{}
		}
		var want []byte
		var desc []string
		var parts []any // the same path as single segments
		failed := false
		add := func(b []byte, d string, part any) {
			desc = append(desc, d)
			if !failed {
				want = append(want, b...)
				if part != nil {
					parts = append(parts, part)
				} else {
					parts = append(parts, append([]byte(nil), b...))
				}
			}
		}
		for i := 0; i < n; i++ {
			var q *gologix.PathBuilder
			switch rapid.IntRange(0, 9).Draw(t, "seg") {
			case 0:
				v := c09Num(t, "class", 0xFFFF)
				q = pb.Class(gologix.CIPClass(v))
				add(c09Logical('c', v), fmt.Sprintf("class %d", v), gologix.CIPClass(v))
			case 1:
				v := c09Num(t, "inst", math.MaxUint32)
				q = pb.Instance(gologix.CIPInstance(v))
				add(c09Logical('i', v), fmt.Sprintf("instance %d", v), gologix.CIPInstance(v))
			case 2:
				v := c09Num(t, "attr", 0xFFFF)
				q = pb.Attribute(gologix.CIPAttribute(v))
				add(c09Logical('a', v), fmt.Sprintf("attribute %d", v), gologix.CIPAttribute(v))
			case 3:
				v := c09Num(t, "elem", math.MaxUint32)
				q = pb.Element(gologix.CIPElement(v))
				add(c09Logical('e', v), fmt.Sprintf("element %d", v), gologix.CIPElement(v))
			case 4:
				s := c09Symbol(t, "sym")
				q = pb.Symbolic(s)
				add(c09Sym(s), "symbol "+s, nil)
			case 5:
				p, l := rapid.IntRange(1, 14).Draw(t, "port"), rapid.Byte().Draw(t, "link")
				if rapid.Bool().Draw(t, "slot") {
					q = pb.Port(byte(p)).Slot(l)
				} else {
					q = pb.Port(byte(p)).Address(gologix.CIPAddress(l))
				}
				add([]byte{byte(p)}, fmt.Sprintf("port %d", p), gologix.CIPPort{PortNo: byte(p)})
				add([]byte{l}, fmt.Sprintf("link %d", l), gologix.CIPAddress(l))
			case 6:
				text, b, _ := c09Route(t, 1)
				q = pb.Parse(text)
				add(b, "route "+text, nil)
			case 7:
				b := rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "raw")
				b = b[:len(b)/2*2]
				q = pb.Custom(b)
				add(b, fmt.Sprintf("raw %x", b), nil)
			default:
				if rapid.IntRange(0, 3).Draw(t, "fail") > 0 {
					q = pb
					break
				}
				bad := rapid.SampledFrom([]string{"parse:1,x", "parse:1.2.3.4", "parse:1,300", "sym:", "sym:" + strings.Repeat("q", 256), "parse:1,,2", "sym:tag[3]", "sym:tag[1,2]"}).Draw(t, "bad")
				if s, ok := strings.CutPrefix(bad, "sym:"); ok {
					q = pb.Symbolic(s)
				} else {
					q = pb.Parse(bad[6:])
				}
				desc = append(desc, "bad "+hx.Short(bad, 30))
				failed = true
			}
			if q != pb {
				t.Fatalf("a builder method returned another builder")
			}
		}
		d := strings.Join(desc, " / ")
		r.Case("built "+d, len(desc) >= 2, "builder")
		if (pb.Err != nil) != failed {
			t.Fatalf("path of %s: Err is %v", d, pb.Err)
		}
		got := pb.Bytes()
		if !bytes.Equal(got, want) {
			t.Fatalf("path of %s is %x, want %x", d, got, want)
		}
		if failed {
			return
		}
		if len(got)%2 != 0 {
			t.Fatalf("path of %s has %d bytes", d, len(got))
		}
		buf, err := gologix.Serialize(parts...)
		if err != nil || !bytes.Equal(buf.Bytes(), want) {
			t.Fatalf("Serialize of %s is %x, %v, want %x", d, buf.Bytes(), err, want)
		}
	})
}

func TestC09Text(t *testing.T) {
	r := hx.For("C09")
	r.Rule("a route of at least two hops, or with an address in text form, or an invalid text")
	hx.Check(t, "C09", 25000, func(t *rapid.T) {
		if rapid.IntRange(0, 3).Draw(t, "invalid") == 0 {
			c09Invalid(t, r)
			return
		}
		text, want, ip := c09Route(t, 0)
		if strings.Trim(text, " []") == "" {
			text = ""
		}
		r.Case("text "+text, ip || len(want) > 2, "text")
		var buf *bytes.Buffer
		var err error
		if p := hx.Within(opLimit, func() { buf, err = gologix.ParsePath(text) }); p != "" {
			t.Fatalf("ParsePath(%q): %s", text, p)
		}
		if err != nil || buf == nil {
			t.Fatalf("ParsePath(%q): %v", text, err)
		}
		if !bytes.Equal(buf.Bytes(), want) {
			t.Fatalf("ParsePath(%q) is %x, want %x", text, buf.Bytes(), want)
		}
		if len(want)%2 != 0 {
			t.Fatalf("the oracle made an odd path %x of %q", want, text)
		}
		if _, err := plc.ParsePath(buf.Bytes()); err != nil {
			t.Fatalf("ParsePath(%q) is %x, which does not decode: %v", text, buf.Bytes(), err)
		}
	})
}

// c09Invalid checks that texts that are no path are refused.
func c09Invalid(t *rapid.T, r *hx.Rec) {
	num := func(l string) string { return fmt.Sprint(rapid.IntRange(0, 255).Draw(t, l)) }
	port := func() string { return fmt.Sprint(rapid.IntRange(1, 14).Draw(t, "port")) }
	good := func() string { return port() + "," + num("link") }
	var text string
	switch rapid.IntRange(0, 8).Draw(t, "how") {
	case 0: // an address without a port
		text = c09IP(t, "a")
	case 1:
		text = c09IP(t, "a") + "," + good()
	case 2: // an address after an address
		text = port() + "," + c09IP(t, "a") + "," + c09IP(t, "b")
	case 3: // out of range
		n := rapid.OneOf(rapid.IntRange(256, 70000), rapid.IntRange(-70000, -1), rapid.SampledFrom([]int{256, 257, 511, 512, 65536, 1 << 32, math.MaxInt64, -1, -256})).Draw(t, "n")
		text = good() + "," + fmt.Sprint(n)
		if rapid.Bool().Draw(t, "first") {
			text = fmt.Sprint(n) + "," + num("link")
		}
	case 4: // nothing between commas
		text = rapid.SampledFrom([]string{",", "1,", ",0", "1,,0", "1,0,", "[,]", " , "}).Draw(t, "t")
	case 5: // not a number
		w := rapid.StringMatching(`[a-zA-Z_!@#/:;-]{1,6}`).Draw(t, "w")
		text = good() + "," + w
	case 6:
		text = num("n") + rapid.SampledFrom([]string{"x", "-", "/", ";1", ":2", "\x00", "\n", "é"}).Draw(t, "t") + ",1"
	case 7: // port number of an address that leaves no room for its mark
		text = fmt.Sprint(rapid.IntRange(16, 255).Draw(t, "bigport")) + "," + c09IP(t, "a")
	case 8:
		text = port() + ",1." + strings.Repeat("1", rapid.IntRange(254, 600).Draw(t, "long"))
	}
	if rapid.IntRange(0, 2).Draw(t, "prefix") == 0 {
		// still wrong after a good start, unless an address can now find its port
		if text != "" && !strings.Contains(text, ".") {
			text = good() + "," + good() + "," + text
		}
	}
	r.Case("invalid "+text, true, "invalid text")
	var buf *bytes.Buffer
	var err error
	if p := hx.Within(opLimit, func() { buf, err = gologix.ParsePath(text) }); p != "" {
		t.Fatalf("ParsePath(%q): %s", text, p)
	}
	if err == nil {
		t.Fatalf("ParsePath(%q) is no error but %x", text, buf.Bytes())
	}
}

// TestC09Wire looks at the connection path a client opens with a route.
func TestC09Wire(t *testing.T) {
	r := hx.For("C09")
	r.Rule("a connection opened over a route of at least two hops")
	hx.Check(t, "C09", 60, func(t *rapid.T) {
		text, want, ip := c09Route(t, 1)
		p := shared.Get()
		c := hx.NewClient(p)
		buf, err := gologix.ParsePath(text)
		if err != nil {
			t.Fatalf("ParsePath(%q): %v", text, err)
		}
		c.Controller.Path = buf
		r.Case("wire "+text, ip || len(want) > 2, "wire")
		if len(want) > 200 {
			return
		}
		var cerr error
		if s := hx.Within(opLimit, func() { cerr = c.Connect() }); s != "" {
			t.Fatalf("connect over %q: %s", text, s)
		}
		if cerr != nil {
			t.Fatalf("connect over %q: %v; controller noted %v", text, cerr, p.TakeErrors())
		}
		full, err := plc.ParsePath(append(append([]byte(nil), want...), 0x20, 2, 0x24, 1))
		if err != nil {
			t.Fatalf("oracle: %v", err)
		}
		p.Lock()
		got := p.Opens[0].Path
		p.Unlock()
		if fmt.Sprint(got) != fmt.Sprint(full) {
			t.Fatalf("route %q opened with path %v, want %v", text, got, full)
		}
		if e := p.TakeErrors(); len(e) > 0 {
			t.Fatalf("route %q: %v", text, e)
		}
		c.Disconnect()
	})
}
