package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

type c12Rec struct {
	A uint8
	B int16
	C [3]uint32
	D bool
	E float64
}

// c12Value is something an item can carry.
type c12Value struct {
	v    any
	b    []byte
	kind string
	get  bool // can be taken back as it was put
}

func c12Gen(t *rapid.T) c12Value {
	atomsOf := []any{false, uint8(0), int8(0), uint16(0), int16(0), uint32(0), int32(0), uint64(0), int64(0), float32(0), float64(0)}
	switch rapid.IntRange(0, 9).Draw(t, "what") {
	case 0: // structure
		v := reflect.New(reflect.TypeOf(c12Rec{})).Elem()
		hx.Fill(t, v, "rec")
		var b []byte
		x := v.Interface().(c12Rec)
		b = append(b, x.A)
		b = binary.LittleEndian.AppendUint16(b, uint16(x.B))
		for _, c := range x.C {
			b = binary.LittleEndian.AppendUint32(b, c)
		}
		d := byte(0)
		if x.D {
			d = 1
		}
		b = append(b, d)
		b = binary.LittleEndian.AppendUint64(b, math.Float64bits(x.E))
		return c12Value{x, b, "struct", true}
	case 1: // slice of atoms
		a := rapid.SampledFrom(atomsOf[1:]).Draw(t, "atom")
		n := rapid.IntRange(0, 9).Draw(t, "n")
		s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(a)), n, n)
		var b []byte
		for i := 0; i < n; i++ {
			hx.Fill(t, s.Index(i), "e")
			b = append(b, hx.EncodeAny(s.Index(i))...)
		}
		return c12Value{s.Interface(), b, "slice", true}
	case 2:
		s := hx.GenString(t, "s", 82)
		return c12Value{s, plc.EncodeString(s), "string", false}
	case 3:
		n := rapid.IntRange(0, 3).Draw(t, "n")
		var l []string
		var b []byte
		for i := 0; i < n; i++ {
			s := hx.GenString(t, "s", 82)
			l = append(l, s)
			b = append(b, plc.EncodeString(s)...)
		}
		return c12Value{l, b, "strings", false}
	case 4:
		n := c09Num(t, "n", math.MaxUint32)
		if rapid.Bool().Draw(t, "inst") {
			return c12Value{gologix.CIPInstance(n), c09Logical('i', n), "segment", false}
		}
		return c12Value{gologix.CIPElement(n), c09Logical('e', n), "segment", false}
	}
	a := rapid.SampledFrom(atomsOf).Draw(t, "atom")
	v := reflect.New(reflect.TypeOf(a)).Elem()
	hx.Fill(t, v, "v")
	return c12Value{v.Interface(), hx.EncodeAny(v), v.Kind().String(), true}
}

func TestC12(t *testing.T) {
	r := hx.For("C12")
	r.Rule("a history of at least three operations on an item of at least two values")
	r.Assume("strings of up to 82 characters")
	hx.Check(t, "C12", 30000, func(t *rapid.T) {
		item := gologix.CIPItem{}
		var model []byte
		pos := 0
		asMade := 0 // bytes it was made with; its length is recorded only once something is put in
		if rapid.IntRange(0, 3).Draw(t, "made with data") == 0 {
			model = rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "data")
			item.Data = bytes.Clone(model)
			asMade = len(model)
		}
		var hist []string
		say := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...any) {
			t.Fatalf("%s\nafter %v", fmt.Sprintf(f, a...), hist)
		}
		check := func() {
			if !bytes.Equal(item.Data, model) {
				fail("the item holds %x, put in was %x", item.Data, model)
			}
			if int(item.Header.Length) != len(model) && len(model) > asMade {
				fail("the item records a length of %d and holds %d bytes", item.Header.Length, len(model))
			}
			if item.Pos != pos {
				fail("the item is at %d, should be at %d", item.Pos, pos)
			}
			if !bytes.Equal(item.Rest(), model[pos:]) {
				fail("the rest is %x, should be %x", item.Rest(), model[pos:])
			}
			b, err := item.Bytes()
			want := append([]byte{byte(item.Header.ID), byte(item.Header.ID >> 8), byte(len(model)), byte(len(model) >> 8)}, model...)
			if len(model) == asMade {
				want = b // nothing was put in yet
			}
			if err != nil || !bytes.Equal(b, want) {
				fail("the item is sent as %x, %v, should be %x", b, err, want)
			}
		}
		if rapid.Bool().Draw(t, "id") {
			item.Header.ID = gologix.CIPItemID(rapid.Uint16().Draw(t, "itemid"))
		}
		n := rapid.IntRange(1, 14).Draw(t, "ops")
		puts := 0
		var replay []c12Value // values in order, from the start
		if asMade > 0 {
			replay = append(replay, c12Value{bytes.Clone(model), bytes.Clone(model), "raw", true})
		}
		le := binary.LittleEndian
		for i := 0; i < n; i++ {
			switch op := rapid.IntRange(0, 12).Draw(t, "op"); {
			case op <= 3:
				m := rapid.IntRange(1, 3).Draw(t, "m")
				var vs []any
				for k := 0; k < m; k++ {
					v := c12Gen(t)
					vs = append(vs, v.v)
					model = append(model, v.b...)
					replay = append(replay, v)
					puts++
				}
				say("put %v", vs)
				if err := item.Serialize(vs...); err != nil {
					fail("Serialize: %v", err)
				}
			case op == 4:
				b := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "raw")
				say("write %x", b)
				k, err := item.Write(b)
				if err != nil || k != len(b) {
					fail("Write of %d bytes: %d, %v", len(b), k, err)
				}
				model = append(model, b...)
				replay = append(replay, c12Value{append([]byte{}, b...), b, "raw", true})
			case op == 5:
				say("reset")
				item.Reset()
				pos = 0
			case op == 6:
				k := rapid.IntRange(0, 20).Draw(t, "k")
				say("read %d", k)
				b := make([]byte, k)
				got, err := item.Read(b)
				want := min(k, len(model)-pos)
				if got != want || (err == nil) != (want > 0 || k == 0 && pos < len(model)) && k > 0 {
					fail("Read of %d bytes with %d left: %d, %v", k, len(model)-pos, got, err)
				}
				if !bytes.Equal(b[:got], model[pos:pos+got]) {
					fail("Read gives %x, should be %x", b[:got], model[pos:pos+got])
				}
				pos += got
			case op == 7: // reread everything from the start as it was put
				item.Reset()
				pos = 0
				say("reread")
				for _, v := range replay {
					if !v.get || len(v.b) == 0 {
						item.Pos += len(v.b)
						pos += len(v.b)
						continue
					}
					rv := reflect.ValueOf(v.v)
					d := reflect.New(rv.Type())
					if rv.Kind() == reflect.Slice {
						d.Elem().Set(reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len()))
					}
					if err := item.DeSerialize(d.Interface()); err != nil {
						fail("DeSerialize of a %T at %d: %v", v.v, pos, err)
					}
					if !reflect.DeepEqual(d.Elem().Interface(), v.v) {
						fail("DeSerialize of a %T at %d gives %v, put in was %v", v.v, pos, d.Elem(), v.v)
					}
					pos += len(v.b)
					check()
				}
			default:
				kind := rapid.SampledFrom([]string{"Byte", "Uint16", "Int16", "Uint32", "Int32", "Uint64", "Int64", "Float32", "Float64", "struct", "slice", "bool", "big", "long"}).Draw(t, "kind")
				say("take %s", kind)
				var got, want any
				var err error
				rest := append(append([]byte(nil), model[pos:]...), make([]byte, 140)...)
				size := 0
				if e := hx.Within(opLimit, func() {
					switch kind {
					case "Byte":
						got, err = item.Byte()
						want, size = rest[0], 1
					case "Uint16":
						got, err = item.Uint16()
						want, size = le.Uint16(rest), 2
					case "Int16":
						got, err = item.Int16()
						want, size = int16(le.Uint16(rest)), 2
					case "Uint32":
						got, err = item.Uint32()
						want, size = le.Uint32(rest), 4
					case "Int32":
						got, err = item.Int32()
						want, size = int32(le.Uint32(rest)), 4
					case "Uint64":
						got, err = item.Uint64()
						want, size = le.Uint64(rest), 8
					case "Int64":
						got, err = item.Int64()
						want, size = int64(le.Uint64(rest)), 8
					case "Float32":
						var f float32
						f, err = item.Float32()
						got, want, size = math.Float32bits(f), le.Uint32(rest), 4
					case "Float64":
						var f float64
						f, err = item.Float64()
						got, want, size = math.Float64bits(f), le.Uint64(rest), 8
					case "bool":
						var b bool
						err = item.DeSerialize(&b)
						got, want, size = b, rest[0] != 0, 1
					case "struct":
						var x struct {
							A uint32
							B [2]uint16
							C uint8
						}
						err = item.DeSerialize(&x)
						got, size = fmt.Sprint(x.A, x.B, x.C), 9
						want = fmt.Sprint(le.Uint32(rest), [2]uint16{le.Uint16(rest[4:]), le.Uint16(rest[6:])}, rest[8])
					case "big":
						var x struct {
							A [3]uint64
							B [40]uint16
							C uint32
							D [9]uint8
						}
						for k := range x.D {
							x.D[k] = 0x55
						}
						err = item.DeSerialize(&x)
						size = 24 + 80 + 4 + 9
						got, want = fmt.Sprint(x.A[0], x.B[39], x.D[8]), fmt.Sprint(le.Uint64(rest), le.Uint16(rest[102:]), rest[116])
					case "long":
						x := make([]uint32, rapid.SampledFrom([]int{16, 17, 20, 24, 33}).Draw(t, "len"))
						err = item.DeSerialize(&x)
						size = 4 * len(x)
						got, want = fmt.Sprint(x[0], x[len(x)-1]), fmt.Sprint(le.Uint32(rest), le.Uint32(rest[size-4:]))
					case "slice":
						x := make([]uint16, rapid.IntRange(1, 5).Draw(t, "len"))
						err = item.DeSerialize(&x)
						w := make([]uint16, len(x))
						for i := range w {
							w[i] = le.Uint16(rest[2*i:])
						}
						got, want, size = fmt.Sprint(x), fmt.Sprint(w), 2*len(x)
					}
				}); e != "" {
					fail("%s at %d of %d: %s", kind, pos, len(model), e)
				}
				if size > len(model)-pos {
					r.Class("past the end")
					if err == nil {
						fail("%s with %d bytes left is no error but %v", kind, len(model)-pos, got)
					}
					break
				}
				if err != nil || got != want {
					fail("%s at %d gives %v, %v, should be %v", kind, pos, got, err, want)
				}
				pos += size
			}
			check()
		}
		r.Case(fmt.Sprint(hist), len(hist) >= 3 && puts >= 2, "item")
	})
}

// TestC12Full fills an item up to what its length can record.
func TestC12Full(t *testing.T) {
	r := hx.For("C12")
	r.Rule("an item filled up to the limit of its length")
	hx.Check(t, "C12", 40, func(t *rapid.T) {
		item := gologix.CIPItem{}
		total := 0
		refused := false
		for i := 0; i < 12; i++ {
			n := rapid.OneOf(rapid.IntRange(0, 20000), rapid.SampledFrom([]int{1, 65535 - total, 65536 - total})).Draw(t, "n")
			if n < 0 {
				n = 1
			}
			err := item.Serialize(make([]byte, n))
			if err != nil {
				refused = true
				if total+n <= 65535 {
					t.Fatalf("%d bytes do not fit an item with %d: %v", n, total, err)
				}
			} else {
				total += n
			}
			if len(item.Data) != int(item.Header.Length) {
				t.Fatalf("an item records a length of %d and holds %d bytes", item.Header.Length, len(item.Data))
			}
			if len(item.Data) != total {
				t.Fatalf("an item holds %d bytes, %d were accepted", len(item.Data), total)
			}
		}
		r.Case(fmt.Sprint("full ", total), refused, "full item")
	})
}
