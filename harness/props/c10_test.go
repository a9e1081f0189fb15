package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"reflect"
	"testing"
	"testing/iotest"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/lgxtypes"
	"pgregory.net/rapid"

	"verifharness/hx"
)

// The predefined structures, drawn from their documentation: a status word, then
// two values.
type lgxType struct {
	t    reflect.Type
	name string // type description
	id   uint16
	bits map[string]int // status bits in the first word
	ints []string       // members after it
}

var lgxTypes = []lgxType{
	{reflect.TypeOf(lgxtypes.TIMER{}), "TIMER,DINT,DINT,DINT", 0x0F83, map[string]int{"EN": 31, "TT": 30, "DN": 29, "FS": 28, "LS": 27, "OV": 26, "ER": 25}, []string{"PRE", "ACC"}},
	{reflect.TypeOf(lgxtypes.COUNTER{}), "COUNTER,DINT,DINT,DINT", 0x0F82, map[string]int{"CU": 31, "CD": 30, "DN": 29, "OV": 28, "UN": 27}, []string{"PRE", "ACC"}},
	{reflect.TypeOf(lgxtypes.CONTROL{}), "CONTROL,DINT,DINT,DINT", 0x0F81, map[string]int{"EN": 31, "EU": 30, "DN": 29, "EM": 28, "ER": 27, "UL": 26, "IN": 25, "FD": 24}, []string{"LEN", "POS"}},
}

func lgxImage(x lgxType) func(reflect.Value) []byte {
	return func(v reflect.Value) []byte {
		w := uint32(0)
		for n, b := range x.bits {
			if v.FieldByName(n).Bool() {
				w |= 1 << b
			}
		}
		b := binary.LittleEndian.AppendUint32(nil, w)
		for _, n := range x.ints {
			b = binary.LittleEndian.AppendUint32(b, uint32(v.FieldByName(n).Int()))
		}
		return b
	}
}

func init() {
	for _, x := range lgxTypes {
		hx.Images[x.t] = lgxImage(x)
	}
}

// Named structures for the type descriptions.
type (
	c11Leaf  struct{ A int8 }
	c11Pair  struct{ X, Y float32 }
	c11Flags struct {
		A, B, C, D, E, F, G, H, I bool
		N                         int16
		J                         bool
	}
	C11_Upper9 struct {
		S  [3]int8
		In c11Pair
		Q  [2]c11Leaf
	}
	c11Deep struct {
		Z int64
		U C11_Upper9
		B bool
		T lgxtypes.TIMER
		K [2]lgxtypes.COUNTER
	}
	c11AVeryLongNameOfAStructureWithFortyByt struct {
		A uint64
		B [4]uint16
	}
	// c11Known declares its own description and handle.
	c11Known struct{ A, B int32 }
	c11Text  struct {
		S lgxtypes.STRING
		N int32
	}
)

func (c11Known) TypeAbbr() (string, uint16) { return "SPECIAL,DINT,DINT", 0xABCD }

var c11Named = []reflect.Type{
	reflect.TypeOf(c11Leaf{}), reflect.TypeOf(c11Pair{}), reflect.TypeOf(c11Flags{}), reflect.TypeOf(C11_Upper9{}), reflect.TypeOf(c11Deep{}),
	reflect.TypeOf(c11AVeryLongNameOfAStructureWithFortyByt{}), reflect.TypeOf(c11Known{}), reflect.TypeOf(c11Text{}),
	reflect.TypeOf(lgxtypes.TIMER{}), reflect.TypeOf(lgxtypes.COUNTER{}), reflect.TypeOf(lgxtypes.CONTROL{}), reflect.TypeOf(lgxtypes.STRING{}),
}

func c11Predefined(t reflect.Type) (string, bool) {
	for _, x := range lgxTypes {
		if x.t == t {
			return x.name, true
		}
	}
	switch t {
	case reflect.TypeOf(lgxtypes.STRING{}):
		return "STRING,DINT,SINT[82]", true
	case reflect.TypeOf(c11Known{}):
		return "SPECIAL,DINT,DINT", true
	}
	return "", false
}

// pieces delivers data in pieces of given sizes and counts what was taken.
type pieces struct {
	b    []byte
	plan []int
	i    int
	n    int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.b) == 0 {
		return 0, io.EOF
	}
	k := len(b)
	if len(p.plan) > 0 {
		if q := p.plan[p.i%len(p.plan)]; q < k {
			k = q
		}
		p.i++
	}
	if k > len(p.b) {
		k = len(p.b)
	}
	copy(b, p.b[:k])
	p.b = p.b[k:]
	p.n += k
	return k, nil
}

// limitW fails after n bytes.
type limitW struct {
	n int
	b bytes.Buffer
}

func (w *limitW) Write(b []byte) (int, error) {
	if w.b.Len()+len(b) > w.n {
		k := w.n - w.b.Len()
		w.b.Write(b[:k])
		return k, io.ErrShortWrite
	}
	return w.b.Write(b)
}

func TestC10(t *testing.T) {
	r := hx.For("C10")
	r.Rule("a structure with padding, shared boolean bytes, a nested structure or an array")
	r.Assume("boolean members tagged nopack take a byte of their own")
	tight := hx.Finding("C10:nested-padding")
	hx.Check(t, "C10", 25000, func(t *rapid.T) {
		so := hx.StructOpts{Depth: rapid.IntRange(0, 3).Draw(t, "depth"), MaxFields: rapid.SampledFrom([]int{3, 8, 14}).Draw(t, "fields"), BoolArrays: true, NoPack: true, Arrays: true}
		if rapid.Bool().Draw(t, "loose") {
			so.Loose = true
			so.Extra = []reflect.Type{lgxTypes[0].t, lgxTypes[1].t, lgxTypes[2].t, reflect.TypeOf(lgxtypes.STRING{}), reflect.TypeOf(c11Flags{}), reflect.TypeOf(C11_Upper9{}), reflect.TypeOf(c11Deep{})}
		}
		st := hx.GenStruct(t, so, "st")
		v := reflect.New(st).Elem()
		hx.Fill(t, v, "v")
		want := hx.EncodeV(v)
		agrees := hx.PaddingAgrees(st)
		if !agrees && tight {
			want = hx.EncodeTight(v)
		}
		plain := 0
		for i := 0; i < st.NumField(); i++ {
			plain += int(st.Field(i).Type.Size())
		}
		cl := []string{"packing"}
		if !agrees {
			cl = append(cl, "nested padding")
		}
		r.Case(fmt.Sprintf("%v %x", st, want), plain != len(want) || so.Depth > 0, cl...)
		var buf bytes.Buffer
		var n int
		var err error
		if p := hx.Within(opLimit, func() { n, err = gologix.Pack(&buf, v.Interface()) }); p != "" {
			t.Fatalf("Pack(%v): %s", st, p)
		}
		if err != nil {
			t.Fatalf("Pack(%v): %v", st, err)
		}
		got := buf.Bytes()
		if n != len(got) {
			t.Fatalf("Pack(%v) reports %d bytes and writes %d", st, n, len(got))
		}
		full := append([]byte(nil), want...)
		for len(full)%hx.AlignOf(st) != 0 {
			full = append(full, 0)
		}
		if !bytes.Equal(got, want) && !bytes.Equal(got, full) {
			t.Fatalf("Pack(%v) of %+v is\n%x, the controller has\n%x", st, v, got, want)
		}
		// and back, delivered in pieces, with more data behind it
		back := func(src []byte, plan []int, eofWithData bool) {
			d := reflect.New(st)
			hx.Fill(t, d.Elem(), "old")
			pr := &pieces{b: src, plan: plan}
			var rd io.Reader = pr
			if eofWithData {
				rd = iotest.DataErrReader(pr)
			}
			var n int
			var err error
			if p := hx.Within(opLimit, func() { n, err = gologix.Unpack(rd, d.Interface()) }); p != "" {
				t.Fatalf("Unpack(%v): %s", st, p)
			}
			if err != nil {
				t.Fatalf("Unpack(%v) of %x in pieces of %v: %v", st, src, plan, err)
			}
			if !reflect.DeepEqual(d.Elem().Interface(), v.Interface()) {
				t.Fatalf("Unpack(%v) of %x in pieces of %v is\n%+v, packed was\n%+v", st, src, plan, d.Elem(), v)
			}
			if !eofWithData && n != pr.n {
				t.Fatalf("Unpack(%v) reports %d bytes and takes %d", st, n, pr.n)
			}
			if n > len(full) || n < len(want) {
				t.Fatalf("Unpack(%v) takes %d bytes, the structure has %d", st, n, len(want))
			}
		}
		plan := rapid.SliceOfN(rapid.IntRange(1, 9), 0, 4).Draw(t, "plan")
		back(want, plan, rapid.Bool().Draw(t, "eof"))
		back(append(append([]byte(nil), full...), rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(t, "tail")...), plan, false)
		back(got, nil, false)
		// cut short
		if len(want) > 0 {
			cut := rapid.IntRange(0, len(want)-1).Draw(t, "cut")
			d := reflect.New(st)
			var err error
			if p := hx.Within(opLimit, func() { _, err = gologix.Unpack(&pieces{b: want[:cut], plan: plan}, d.Interface()) }); p != "" {
				t.Fatalf("Unpack(%v) of %d bytes: %s", st, cut, p)
			}
			if err == nil {
				t.Fatalf("Unpack(%v) of %x, which is %d of %d bytes, is no error", st, want[:cut], cut, len(want))
			}
			if rapid.IntRange(0, 3).Draw(t, "w") == 0 {
				w := &limitW{n: cut}
				if p := hx.Within(opLimit, func() { _, err = gologix.Pack(w, v.Interface()) }); p != "" {
					t.Fatalf("Pack(%v) to a writer of %d bytes: %s", st, cut, p)
				}
				if err == nil {
					t.Fatalf("Pack(%v) of %d bytes to a writer of %d is no error", st, len(want), cut)
				}
			}
		}
		// a slice of them, each a multiple of its alignment long
		if rapid.IntRange(0, 2).Draw(t, "slice") == 0 && (agrees || tight) {
			m := rapid.IntRange(1, 4).Draw(t, "elems")
			sl := reflect.MakeSlice(reflect.SliceOf(st), m, m)
			var img []byte
			for i := 0; i < m; i++ {
				hx.Fill(t, sl.Index(i), "e")
				e := hx.EncodeV(sl.Index(i))
				if !agrees {
					e = hx.EncodeTight(sl.Index(i))
				}
				for len(e)%hx.AlignOf(st) != 0 {
					e = append(e, 0)
				}
				img = append(img, e...)
			}
			out := reflect.New(sl.Type())
			out.Elem().Set(reflect.MakeSlice(sl.Type(), m, m))
			var n int
			var err error
			pr := &pieces{b: img, plan: plan}
			if p := hx.Within(opLimit, func() { n, err = gologix.Unpack(pr, out.Interface()) }); p != "" {
				t.Fatalf("Unpack([]%v): %s", st, p)
			}
			if err != nil || n != pr.n || !reflect.DeepEqual(out.Elem().Interface(), sl.Interface()) {
				t.Fatalf("Unpack([%d]%v) of %x takes %d of %d, %v:\n%+v, want\n%+v", m, st, img, n, len(img), err, out.Elem(), sl)
			}
			r.Class("slice")
		}
	})
}

type c10Inner struct {
	D int32
	B int8
}
type c10Outer struct {
	In c10Inner
	X  int8
}

// TestC10NestedPadding states the one known deviation on its own.
func TestC10NestedPadding(t *testing.T) {
	hx.Probe(t, "C10", "nested-padding", func() string {
		v := c10Outer{In: c10Inner{D: 0x01020304, B: 5}, X: 6}
		var buf bytes.Buffer
		if _, err := gologix.Pack(&buf, v); err != nil {
			return err.Error()
		}
		want := []byte{4, 3, 2, 1, 5, 0, 0, 0, 6}
		if b := bytes.TrimRight(buf.Bytes(), "\x00"); !bytes.Equal(b, want) {
			return fmt.Sprintf("{{DINT SINT} SINT} packs to %x, a controller stores %x", buf.Bytes(), want)
		}
		return ""
	})
}

func TestC11(t *testing.T) {
	r := hx.For("C11")
	r.Rule("a type with a nested structure, an array or at least two booleans, or a predefined type")
	r.Assume("boolean arrays and members tagged nopack are not part of the generated types")
	hx.Check(t, "C11", 30000, func(t *rapid.T) {
		var st reflect.Type
		so := hx.StructOpts{Depth: rapid.IntRange(0, 3).Draw(t, "depth"), MaxFields: rapid.SampledFrom([]int{2, 8, 20}).Draw(t, "fields"), Arrays: true, Loose: true, Big: true, Extra: c11Named}
		if rapid.IntRange(0, 3).Draw(t, "named") == 0 {
			st = rapid.SampledFrom(c11Named).Draw(t, "type")
		} else {
			st = hx.GenStruct(t, so, "st")
		}
		v := reflect.New(st).Elem()
		hx.Fill(t, v, "v")
		want := hx.Describe(st, c11Predefined)
		handle := hx.CRC16([]byte(want))
		for _, x := range lgxTypes {
			if x.t == st {
				handle = x.id
			}
		}
		switch st {
		case reflect.TypeOf(lgxtypes.STRING{}):
			handle = 0x0FCE
		case reflect.TypeOf(c11Known{}):
			handle = 0xABCD
		}
		bools, nested := 0, false
		for i := 0; i < st.NumField(); i++ {
			switch st.Field(i).Type.Kind() {
			case reflect.Bool:
				bools++
			case reflect.Struct, reflect.Array:
				nested = true
			}
		}
		r.Case(want, bools >= 2 || nested || st.Name() != "")
		for _, x := range []reflect.Value{v, reflect.Zero(st)} {
			var s string
			var h uint16
			var err error
			if p := hx.Within(opLimit, func() { s, h, err = gologix.TypeEncode(x.Interface()) }); p != "" {
				t.Fatalf("TypeEncode(%v): %s", st, p)
			}
			if err != nil {
				t.Fatalf("TypeEncode(%v): %v", st, err)
			}
			if s != want {
				t.Fatalf("TypeEncode(%v) describes it as %q, want %q", st, s, want)
			}
			if h != handle {
				t.Fatalf("TypeEncode(%v) of %q has handle %#x, want %#x", st, s, h, handle)
			}
		}
	})
}

// TestC11Published compares with the example of the published rules.
func TestC11Published(t *testing.T) {
	type UDT3 struct {
		U3A int8
		U3B [4]int8
	}
	type UDT2 struct {
		U2A int32
		U2B [3]int8
		U2C UDT3
		U2D [2]UDT3
	}
	type UDT1 struct {
		U1A int8
		U1B [2]int8
		U1C UDT2
		U1D [4]UDT3
	}
	hx.Probe(t, "C11", "published-example", func() string {
		s, h, err := gologix.TypeEncode(UDT1{})
		want := "UDT1,SINT,SINT[2],UDT2,DINT,SINT[3],UDT3,SINT,SINT[4],UDT3,SINT,SINT[4][2],UDT3,SINT,SINT[4][4]"
		if d := hx.Describe(reflect.TypeOf(UDT1{}), c11Predefined); d != want || hx.CRC16([]byte(d)) != 0x5F58 {
			hx.Harness("the oracle is wrong about the published example: %q", d)
		}
		if err != nil || s != want || h != 0x5F58 {
			return fmt.Sprintf("published example is %q %#x %v", s, h, err)
		}
		return ""
	})
}

func TestC30(t *testing.T) {
	r := hx.For("C30")
	r.Rule("a predefined structure with at least one status bit set, or a string of at least one character")
	hx.Check(t, "C30", 15000, func(t *rapid.T) {
		if rapid.IntRange(0, 4).Draw(t, "string") == 0 {
			c30String(t, r)
			return
		}
		x := rapid.SampledFrom(lgxTypes).Draw(t, "type")
		v := reflect.New(x.t).Elem()
		hx.Fill(t, v, "v")
		word := rapid.Uint32().Draw(t, "word")
		set := 0
		if rapid.Bool().Draw(t, "one") {
			// exactly one bit, or all but one
			word = 1 << rapid.IntRange(0, 31).Draw(t, "bit")
			if rapid.Bool().Draw(t, "not") {
				word = ^word
			}
		}
		for n, b := range x.bits {
			v.FieldByName(n).SetBool(word>>b&1 != 0)
			if word>>b&1 != 0 {
				set++
			}
		}
		if v.NumField() != len(x.bits)+len(x.ints) {
			t.Fatalf("%v has %d members, expected %d", x.t, v.NumField(), len(x.bits)+len(x.ints))
		}
		want := lgxImage(x)(v)
		r.Case(fmt.Sprintf("%v %x", x.t, want), set > 0, x.t.Name())
		var buf bytes.Buffer
		n, err := gologix.Pack(&buf, v.Interface())
		if err != nil || n != 12 || !bytes.Equal(buf.Bytes(), want) {
			t.Fatalf("%v %+v packs to %x (%d, %v), want %x", x.t, v, buf.Bytes(), n, err, want)
		}
		// any image, other bits of the word are the controller's own
		img := binary.LittleEndian.AppendUint32(nil, word)
		img = append(img, want[4:]...)
		d := reflect.New(x.t)
		hx.Fill(t, d.Elem(), "old")
		plan := rapid.SliceOfN(rapid.IntRange(1, 5), 0, 3).Draw(t, "plan")
		pr := &pieces{b: append(append([]byte(nil), img...), 9, 9, 9), plan: plan}
		n, err = gologix.Unpack(pr, d.Interface())
		if err != nil || n != 12 || pr.n != 12 || d.Elem().Interface() != v.Interface() {
			t.Fatalf("%x unpacks to %+v (%d of %d, %v), want %+v", img, d.Elem(), n, pr.n, err, v)
		}
		cut := rapid.IntRange(0, 11).Draw(t, "cut")
		if _, err := gologix.Unpack(&pieces{b: img[:cut], plan: plan}, reflect.New(x.t).Interface()); err == nil {
			t.Fatalf("%v unpacks from %d bytes", x.t, cut)
		}
	})
}

func c30String(t *rapid.T, r *hx.Rec) {
	var v lgxtypes.STRING
	s := hx.GenString(t, "s", 82)
	v.Len = int32(len(s))
	for i := range s {
		v.Data[i] = int8(s[i])
	}
	// what follows the text is kept as it is
	for i := len(s); i < 82; i++ {
		if rapid.IntRange(0, 9).Draw(t, "rest") == 0 {
			v.Data[i] = int8(rapid.Int8().Draw(t, "c"))
		}
	}
	want := binary.LittleEndian.AppendUint32(nil, uint32(v.Len))
	for _, c := range v.Data {
		want = append(want, byte(c))
	}
	r.Case(fmt.Sprintf("STRING %x", want), len(s) > 0, "STRING")
	var buf bytes.Buffer
	n, err := gologix.Pack(&buf, v)
	got := buf.Bytes()
	if err != nil || n != len(got) || len(got) < 86 || len(got) > 88 || !bytes.Equal(got[:86], want) || (len(got) > 86 && !bytes.Equal(got[86:], make([]byte, len(got)-86))) {
		t.Fatalf("STRING %q packs to %x (%d, %v), want %x", s, got, n, err, want)
	}
	var d lgxtypes.STRING
	d.Len = math.MaxInt32
	n, err = gologix.Unpack(bytes.NewReader(append(want, 0, 0)), &d)
	if err != nil || n < 86 || n > 88 || d != v {
		t.Fatalf("%x unpacks to %+v (%d, %v), want %+v", want, d, n, err, v)
	}
}

// TestC30Wire reads and writes tags of the predefined types.
func TestC30Wire(t *testing.T) {
	r := hx.For("C30")
	hx.Check(t, "C30", 750, func(t *rapid.T) {
		p := shared.Get()
		c30wire(t, r, p)
	})
}
