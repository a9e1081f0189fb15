package hx

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"

	"pgregory.net/rapid"

	"verifharness/plc"
)

// Independent model of the controller's structure layout for Go structures:
// every member naturally aligned, a structure aligned like its widest member,
// runs of booleans (and boolean arrays) sharing bytes least significant bit
// first, nested structures and array elements filling whole multiples of their
// alignment.

// AlignOf is the alignment of a member of type t.
func AlignOf(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Bool, reflect.Int8, reflect.Uint8:
		return 1
	case reflect.Int16, reflect.Uint16:
		return 2
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		return 4
	case reflect.Int64, reflect.Uint64, reflect.Float64:
		return 8
	case reflect.Array:
		return AlignOf(t.Elem())
	case reflect.Struct:
		a := 1
		for i := 0; i < t.NumField(); i++ {
			if x := AlignOf(t.Field(i).Type); x > a {
				a = x
			}
		}
		return a
	}
	panic("AlignOf " + t.String())
}

// TagAlign is what the size of a whole tag (or of a nested structure in a real
// controller) is a multiple of.
func TagAlign(t reflect.Type) int {
	if a := AlignOf(t); a > 4 {
		return a
	}
	return 4
}

type layer struct {
	b   []byte
	bit int
	pad bool // pad nested structures
}

func (l *layer) putBit(v bool) {
	if l.bit == 0 {
		l.b = append(l.b, 0)
	}
	if v {
		l.b[len(l.b)-1] |= 1 << l.bit
	}
	l.bit = (l.bit + 1) % 8
}

func padTo(b []byte, a int) []byte {
	for len(b)%a != 0 {
		b = append(b, 0)
	}
	return b
}

func encodeAtom(v reflect.Value) []byte {
	le := binary.LittleEndian
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}
		}
		return []byte{0}
	case reflect.Int8:
		return []byte{byte(v.Int())}
	case reflect.Uint8:
		return []byte{byte(v.Uint())}
	case reflect.Int16:
		return le.AppendUint16(nil, uint16(v.Int()))
	case reflect.Uint16:
		return le.AppendUint16(nil, uint16(v.Uint()))
	case reflect.Int32:
		return le.AppendUint32(nil, uint32(v.Int()))
	case reflect.Uint32:
		return le.AppendUint32(nil, uint32(v.Uint()))
	case reflect.Int64:
		return le.AppendUint64(nil, uint64(v.Int()))
	case reflect.Uint64:
		return le.AppendUint64(nil, v.Uint())
	case reflect.Float32:
		return le.AppendUint32(nil, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return le.AppendUint64(nil, math.Float64bits(v.Float()))
	}
	panic("encodeAtom " + v.Type().String())
}

func (l *layer) member(v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Struct:
		b := encodeStruct(v, l.pad)
		if l.pad {
			b = padTo(b, AlignOf(v.Type()))
		}
		return b
	case reflect.Array:
		var b []byte
		for i := 0; i < v.Len(); i++ {
			e := l.member(v.Index(i))
			if v.Index(i).Kind() == reflect.Struct {
				e = padTo(e, AlignOf(v.Index(i).Type()))
			}
			b = append(b, e...)
		}
		return b
	}
	return encodeAtom(v)
}

// Images are the structures with an image of their own.
var Images = map[reflect.Type]func(reflect.Value) []byte{}

func encodeStruct(v reflect.Value, pad bool) []byte {
	if f := Images[v.Type()]; f != nil {
		return f(v)
	}
	l := layer{pad: pad}
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := v.Field(i)
		if t.Field(i).Tag.Get("pack") != "nopack" {
			if f.Kind() == reflect.Bool {
				l.putBit(f.Bool())
				continue
			}
			if f.Kind() == reflect.Array && f.Type().Elem().Kind() == reflect.Bool {
				for k := 0; k < f.Len(); k++ {
					l.putBit(f.Index(k).Bool())
				}
				continue
			}
		}
		l.bit = 0
		l.b = padTo(l.b, AlignOf(f.Type()))
		l.b = append(l.b, l.member(f)...)
	}
	return l.b
}

// EncodeTight is EncodeV without padding at the end of nested structures.
func EncodeTight(v reflect.Value) []byte { return encodeStruct(v, false) }

// Encode is the image of a structure without padding after its last member.
func Encode(v any) []byte { return encodeStruct(reflect.ValueOf(v), true) }

// EncodeV is Encode for reflected values.
func EncodeV(v reflect.Value) []byte { return encodeStruct(v, true) }

// PaddingAgrees tells whether it makes no difference for t that the library
// leaves out the padding at the end of nested structures.
func PaddingAgrees(t reflect.Type) bool {
	z := reflect.Zero(t)
	return len(encodeStruct(z, true)) == len(encodeStruct(z, false)) && offsetsAgree(t)
}

func offsetsAgree(t reflect.Type) bool {
	if Images[t] != nil {
		return true
	}
	// offsets of the members under both readings
	a, b := layer{pad: true}, layer{pad: false}
	z := reflect.Zero(t)
	for i := 0; i < t.NumField(); i++ {
		f := z.Field(i)
		if t.Field(i).Tag.Get("pack") != "nopack" && (f.Kind() == reflect.Bool || f.Kind() == reflect.Array && f.Type().Elem().Kind() == reflect.Bool) {
			n := 1
			if f.Kind() == reflect.Array {
				n = f.Len()
			}
			if a.bit == 0 && len(a.b) != len(b.b) {
				return false
			}
			for k := 0; k < n; k++ {
				a.putBit(false)
				b.putBit(false)
			}
			continue
		}
		a.bit, b.bit = 0, 0
		a.b = padTo(a.b, AlignOf(f.Type()))
		b.b = padTo(b.b, AlignOf(f.Type()))
		if len(a.b) != len(b.b) {
			return false
		}
		a.b = append(a.b, a.member(f)...)
		b.b = append(b.b, b.member(f)...)
		ft := f.Type()
		if ft.Kind() == reflect.Array {
			ft = ft.Elem()
		}
		if ft.Kind() == reflect.Struct && !offsetsAgree(ft) {
			return false
		}
	}
	return len(a.b) == len(b.b)
}

// CRC16 is the checksum controllers use for structure handles (CRC-16/ARC).
func CRC16(b []byte) uint16 {
	crc := uint16(0)
	for _, c := range b {
		crc ^= uint16(c)
		for i := 0; i < 8; i++ {
			if crc&1 != 0 {
				crc = crc>>1 ^ 0xA001
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

// TypeName is the Logix name of an elementary Go type.
func TypeName(k reflect.Kind) string {
	switch k {
	case reflect.Bool:
		return "BOOL" // only for arrays, which no check lets a handle depend on
	case reflect.Int8, reflect.Uint8:
		return "SINT"
	case reflect.Int16:
		return "INT"
	case reflect.Int32:
		return "DINT"
	case reflect.Int64:
		return "LINT"
	case reflect.Uint16:
		return "UINT"
	case reflect.Uint32:
		return "UDINT"
	case reflect.Uint64:
		return "ULINT"
	case reflect.Float32:
		return "REAL"
	case reflect.Float64:
		return "LREAL"
	}
	panic("TypeName " + k.String())
}

// Describe is the type description the handle is computed from, names maps
// predefined types to their own description.
func Describe(t reflect.Type, predefined func(reflect.Type) (string, bool)) string {
	if predefined != nil {
		if s, ok := predefined(t); ok {
			return s
		}
	}
	s := t.Name()
	bits := 0
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i).Type
		if f.Kind() == reflect.Bool {
			if bits == 0 {
				s += ",SINT"
			}
			bits = (bits + 1) % 8
			continue
		}
		bits = 0
		switch f.Kind() {
		case reflect.Struct:
			s += "," + Describe(f, predefined)
		case reflect.Array:
			if f.Elem().Kind() == reflect.Struct {
				s += fmt.Sprintf(",%s[%d]", Describe(f.Elem(), predefined), f.Len())
			} else {
				s += fmt.Sprintf(",%s[%d]", TypeName(f.Elem().Kind()), f.Len())
			}
		default:
			s += "," + TypeName(f.Kind())
		}
	}
	return s
}

// Handle is the 16 bit structure handle of a Go structure type.
func Handle(t reflect.Type) uint16 { return CRC16([]byte(Describe(t, nil))) }

// --- generators

var atomTypes = []reflect.Type{
	reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
}

// StructOpts narrows generated structure types.
type StructOpts struct {
	Depth      int
	MaxFields  int
	BoolArrays bool
	NoPack     bool
	Arrays     bool
	PadTo4     bool           // total size a multiple of the alignment and of 4
	Nested4    bool           // nested structures aligned to 4, a multiple of that long
	Loose      bool           // nested structures of any size
	Big        bool           // arrays of 255 and more elements
	Extra      []reflect.Type // further nested structures
}

// GenStruct draws a structure type with exported fields F0, F1, ...
func GenStruct(t *rapid.T, o StructOpts, label string) reflect.Type {
	if o.MaxFields == 0 {
		o.MaxFields = 8
	}
	n := rapid.IntRange(1, o.MaxFields).Draw(t, label+".n")
	var fs []reflect.StructField
	add := func(ft reflect.Type, tag reflect.StructTag) {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: ft, Tag: tag})
	}
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, 15).Draw(t, label+".kind")
		switch {
		case k <= 4:
			add(reflect.TypeOf(false), "")
			if rapid.IntRange(0, 5).Draw(t, label+".run") == 0 {
				m := rapid.IntRange(1, 17).Draw(t, label+".runlen")
				for j := 0; j < m; j++ {
					add(reflect.TypeOf(false), "")
				}
			}
		case k == 5 && o.NoPack:
			add(reflect.TypeOf(false), `pack:"nopack"`)
		case k == 6 && o.BoolArrays:
			add(reflect.ArrayOf(rapid.SampledFrom([]int{1, 3, 7, 8, 9, 16, 31, 32, 33}).Draw(t, label+".ba"), reflect.TypeOf(false)), "")
		case k <= 8 && o.Depth > 0:
			so := o
			so.Depth--
			so.MaxFields = 4
			so.PadTo4 = false
			st := GenStruct(t, so, label+".s")
			if o.Loose {
				if len(o.Extra) > 0 && rapid.IntRange(0, 2).Draw(t, label+".x") == 0 {
					st = rapid.SampledFrom(o.Extra).Draw(t, label+".xt")
				}
			} else if o.Nested4 {
				if AlignOf(st) < 4 {
					st = appendField(st, reflect.TypeOf(int32(0)))
				}
				st = SelfPadded4(st)
			} else {
				st = SelfPadded(st)
			}
			if o.Arrays && rapid.Bool().Draw(t, label+".sarr") {
				n := rapid.IntRange(1, 4).Draw(t, label+".sn")
				if n == 4 && st.NumField() <= 4 && rapid.IntRange(0, 3).Draw(t, label+".sn+") == 0 {
					n = rapid.SampledFrom([]int{12, 18}).Draw(t, label+".sn++")
				}
				add(reflect.ArrayOf(n, st), "")
			} else {
				add(st, "")
			}
		case k <= 11 && o.Arrays:
			at := rapid.SampledFrom(atomTypes).Draw(t, label+".at")
			n := rapid.IntRange(1, 9).Draw(t, label+".an")
			if o.Big && n == 9 && rapid.IntRange(0, 2).Draw(t, label+".an+") == 0 {
				n = rapid.SampledFrom([]int{10, 99, 100, 255, 256, 257, 300}).Draw(t, label+".ann")
			}
			add(reflect.ArrayOf(n, at), "")
		default:
			add(rapid.SampledFrom(atomTypes).Draw(t, label+".t"), "")
		}
	}
	st := reflect.StructOf(fs)
	if o.PadTo4 {
		st = SelfPadded4(st)
	}
	return st
}

// SelfPadded appends members until the size is a multiple of the alignment.
func SelfPadded(st reflect.Type) reflect.Type { return selfPad(st, AlignOf(st)) }

// SelfPadded4 is SelfPadded with at least 4.
func SelfPadded4(st reflect.Type) reflect.Type {
	a := AlignOf(st)
	if a < 4 {
		a = 4
	}
	return selfPad(st, a)
}

func selfPad(st reflect.Type, a int) reflect.Type {
	for {
		if len(EncodeV(reflect.Zero(st)))%a == 0 {
			return st
		}
		st = appendField(st, reflect.TypeOf(int8(0)))
	}
}

func appendField(st, ft reflect.Type) reflect.Type {
	var fs []reflect.StructField
	for i := 0; i < st.NumField(); i++ {
		f := st.Field(i)
		fs = append(fs, reflect.StructField{Name: f.Name, Type: f.Type, Tag: f.Tag})
	}
	fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: ft})
	return reflect.StructOf(fs)
}

var edgeInts = []uint64{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff,
	0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0x0102030405060708, 0xa5a5a5a5a5a5a5a5}

// GenBits draws 64 bits biased to boundaries.
func GenBits(t *rapid.T, label string) uint64 {
	if rapid.IntRange(0, 2).Draw(t, label+".e") == 0 {
		return rapid.SampledFrom(edgeInts).Draw(t, label)
	}
	return rapid.Uint64().Draw(t, label)
}

// Fill gives v random contents. NaNs are avoided so values compare with ==.
func Fill(t *rapid.T, v reflect.Value, label string) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, label))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(GenBits(t, label))
		switch v.Kind() {
		case reflect.Int8:
			x = int64(int8(x))
		case reflect.Int16:
			x = int64(int16(x))
		case reflect.Int32:
			x = int64(int32(x))
		}
		v.SetInt(x)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := GenBits(t, label)
		switch v.Kind() {
		case reflect.Uint8:
			x &= 0xff
		case reflect.Uint16:
			x &= 0xffff
		case reflect.Uint32:
			x &= 0xffffffff
		}
		v.SetUint(x)
	case reflect.Float32:
		f := math.Float32frombits(uint32(GenBits(t, label)))
		if f != f {
			f = 1.5
		}
		v.SetFloat(float64(f))
	case reflect.Float64:
		f := math.Float64frombits(GenBits(t, label))
		if f != f {
			f = 1.5
		}
		v.SetFloat(f)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				Fill(t, v.Field(i), label+"."+v.Type().Field(i).Name)
			}
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			Fill(t, v.Index(i), label)
		}
	case reflect.String:
		v.SetString(GenString(t, label, 82))
	default:
		panic("Fill " + v.Type().String())
	}
}

// GenString draws text of up to max bytes, favouring the ends of the range.
func GenString(t *rapid.T, label string, max int) string {
	n := rapid.IntRange(0, max).Draw(t, label+".len")
	switch rapid.IntRange(0, 9).Draw(t, label+".k") {
	case 0:
		n = max
	case 1:
		if max > 0 {
			n = max - 1
		}
	case 2:
		n = 0
	}
	b := make([]byte, n)
	seed := rapid.Uint32().Draw(t, label)
	for i := range b {
		seed = seed*1664525 + 1013904223
		b[i] = 32 + byte(seed>>16)%95
	}
	// any byte is text to a controller
	switch k := rapid.IntRange(0, 11).Draw(t, label+".odd"); {
	case n == 0:
	case k == 0:
		b[n-1] = 0
	case k == 1:
		b[int(seed>>8)%n], b[n-1] = 0, 0
	case k == 2:
		b[int(seed>>8)%n] = byte(seed >> 24)
	case k == 3:
		b[0] = 0
	}
	return string(b)
}

// TemplateOf is the controller's template for a Go structure.
func TemplateOf(st reflect.Type, name string, id uint16) *plc.Template {
	z := reflect.Zero(st)
	return &plc.Template{ID: id, Name: name, Handle: Handle(st), Size: len(padTo(EncodeV(z), TagAlign(st))), Members: membersOf(st, id)}
}

func membersOf(st reflect.Type, id uint16) []plc.Member {
	l := layer{pad: true}
	var ms []plc.Member
	z := reflect.Zero(st)
	for i := 0; i < st.NumField(); i++ {
		f := st.Field(i)
		ft := f.Type
		m := plc.Member{Name: f.Name}
		if ft.Kind() == reflect.Bool && f.Tag.Get("pack") != "nopack" {
			bit := l.bit
			l.putBit(false)
			m.Type, m.Offset, m.Bit = plc.BOOL, len(l.b)-1, bit
			ms = append(ms, m)
			continue
		}
		if ft.Kind() == reflect.Array && ft.Elem().Kind() == reflect.Bool && f.Tag.Get("pack") != "nopack" {
			for k := 0; k < ft.Len(); k++ {
				l.putBit(false)
			}
			continue // not addressable by name in the model
		}
		l.bit = 0
		l.b = padTo(l.b, AlignOf(ft))
		m.Offset = len(l.b)
		et := ft
		if ft.Kind() == reflect.Array {
			m.Count = ft.Len()
			et = ft.Elem()
		}
		if et.Kind() == reflect.Struct {
			m.Type = plc.STRUCT
			m.Tmpl = TemplateOf(et, fmt.Sprintf("T%d_%d", id, i), id+uint16(i)+1)
		} else {
			m.Type = CIPTypeOf(et.Kind())
		}
		l.b = append(l.b, l.member(z.Field(i))...)
		ms = append(ms, m)
	}
	return ms
}

// CIPTypeOf is the CIP type the library associates with a Go type.
func CIPTypeOf(k reflect.Kind) byte {
	switch k {
	case reflect.Bool:
		return plc.BOOL
	case reflect.Int8:
		return plc.SINT
	case reflect.Uint8:
		return plc.BYTE
	case reflect.Int16:
		return plc.INT
	case reflect.Uint16:
		return plc.UINT
	case reflect.Int32:
		return plc.DINT
	case reflect.Uint32:
		return plc.UDINT
	case reflect.Int64:
		return plc.LINT
	case reflect.Uint64:
		return plc.LWORD
	case reflect.Float32:
		return plc.REAL
	case reflect.Float64:
		return plc.LREAL
	}
	panic("CIPTypeOf " + k.String())
}
