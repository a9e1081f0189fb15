package hx

import (
	"fmt"
	"net"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/plc"
)

// World is a controller with generated tags.
type World struct {
	P    *plc.PLC
	Vars []Var
}

// Var is a place in controller memory and the way a user names it.
type Var struct {
	Path  string
	Type  reflect.Type // Go type of one element
	CIP   byte
	Tag   *plc.Tag
	Off   int // byte offset in the tag
	Bit   int // packed boolean member: bit in that byte, otherwise -1
	Avail int // elements from here on
	ESize int
	Class string
	Bools bool // boolean array stored as 32 bit words
	Words int
}

// Image is the memory of the first n elements.
func (w *World) Image(v Var, n int) []byte {
	b := w.P.Get(v.Tag)[v.Off : v.Off+n*v.ESize]
	if v.Bit >= 0 {
		return []byte{b[0] >> uint(v.Bit) & 1}
	}
	return b
}

// EncodeAny is the controller's image of a Go value (scalar, string, structure
// or a slice of them).
func EncodeAny(v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Interface:
		return EncodeAny(v.Elem())
	case reflect.String:
		return plc.EncodeString(v.String())
	case reflect.Struct:
		return padTo(EncodeV(v), TagAlign(v.Type()))
	case reflect.Slice, reflect.Array:
		var b []byte
		for i := 0; i < v.Len(); i++ {
			b = append(b, EncodeAny(v.Index(i))...)
		}
		return b
	}
	return encodeAtom(v)
}

// PackBools is the image of a boolean array.
func PackBools(bs []bool) []byte {
	b := make([]byte, len(bs)/8)
	for i, x := range bs {
		if x {
			b[i/8] |= 1 << (i % 8)
		}
	}
	return b
}

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"

// GenName draws a tag name.
func GenName(t *rapid.T, label string) string {
	n := rapid.IntRange(1, 12).Draw(t, label+".len")
	if rapid.IntRange(0, 11).Draw(t, label+".long") == 0 {
		n = rapid.SampledFrom([]int{39, 40}).Draw(t, label+".n")
	}
	b := make([]byte, n)
	for i := range b {
		max := len(nameChars) - 1
		if i == 0 {
			max = 52
		}
		b[i] = nameChars[rapid.IntRange(0, max).Draw(t, label)]
	}
	return string(b)
}

// RandCase changes the letter case of a path.
func RandCase(t *rapid.T, s string, label string) string {
	switch rapid.IntRange(0, 4).Draw(t, label) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

// WorldOpts narrows GenWorld.
type WorldOpts struct {
	MinTags, MaxTags int
	Structs          bool
	Strings          bool
	Bools            bool
	Programs         bool
	BigIndex         bool
	MaxElems         int
	AltTypes         bool // USINT, WORD, DWORD as well
	StructOpts       StructOpts
	NoMembers        bool
	NoArrays         bool
}

var stringT = reflect.TypeOf("")

var scalarChoices = []struct {
	cip byte
	t   reflect.Type
	alt bool
}{
	{plc.BOOL, reflect.TypeOf(false), false},
	{plc.SINT, reflect.TypeOf(int8(0)), false},
	{plc.BYTE, reflect.TypeOf(uint8(0)), false},
	{plc.INT, reflect.TypeOf(int16(0)), false},
	{plc.UINT, reflect.TypeOf(uint16(0)), false},
	{plc.DINT, reflect.TypeOf(int32(0)), false},
	{plc.UDINT, reflect.TypeOf(uint32(0)), false},
	{plc.LINT, reflect.TypeOf(int64(0)), false},
	{plc.LWORD, reflect.TypeOf(uint64(0)), false},
	{plc.REAL, reflect.TypeOf(float32(0)), false},
	{plc.LREAL, reflect.TypeOf(float64(0)), false},
	{plc.USINT, reflect.TypeOf(uint8(0)), true},
	{plc.WORD, reflect.TypeOf(uint16(0)), true},
	{plc.DWORD, reflect.TypeOf(uint32(0)), true},
	{plc.ULINT, reflect.TypeOf(uint64(0)), true},
}

// GenWorld fills p with tags.
func GenWorld(t *rapid.T, p *plc.PLC, o WorldOpts) *World {
	if o.MaxElems == 0 {
		o.MaxElems = 40
	}
	p.ClearTags()
	w := &World{P: p}
	var programs []string
	if o.Programs && rapid.Bool().Draw(t, "programs") {
		for i := 0; i < rapid.IntRange(1, 2).Draw(t, "nprog"); i++ {
			n := GenName(t, "prog")
			dup := false
			for _, q := range programs {
				dup = dup || strings.EqualFold(q, n)
			}
			if !dup {
				programs = append(programs, n)
				p.Programs = append(p.Programs, plc.Program{Name: n, ID: uint32(0x40 + i*0x333)})
			}
		}
	}
	used := map[string]bool{}
	n := rapid.IntRange(o.MinTags, o.MaxTags).Draw(t, "ntags")
	for i := 0; i < n; i++ {
		prog := ""
		if len(programs) > 0 && rapid.IntRange(0, 2).Draw(t, "inprog") == 0 {
			prog = rapid.SampledFrom(programs).Draw(t, "prog")
		}
		name := GenName(t, "name")
		for used[strings.ToLower(prog+"/"+name)] {
			name += fmt.Sprintf("x%d", i)
		}
		used[strings.ToLower(prog+"/"+name)] = true
		w.genTag(t, o, prog, name, i)
	}
	return w
}

func (w *World) genTag(t *rapid.T, o WorldOpts, prog, name string, i int) {
	p := w.P
	base := name
	if prog != "" {
		base = "Program:" + prog + "." + name
	}
	kind := rapid.IntRange(0, 9).Draw(t, "kind")
	tag := &plc.Tag{Name: name, Program: prog, Instance: uint32(1 + i*97)}
	var et reflect.Type
	class := "scalar"
	switch {
	case kind <= 1 && o.Strings:
		et, tag.Type, tag.Tmpl, class = stringT, plc.STRUCT, plc.StringTemplate, "string"
	case kind <= 3 && o.Structs:
		so := o.StructOpts
		so.Nested4 = true
		et = GenStruct(t, so, "st")
		tag.Type, tag.Tmpl, class = plc.STRUCT, TemplateOf(et, fmt.Sprintf("UDT_%d", i), uint16(0x100+i*16)), "struct"
	case kind == 4 && o.Bools:
		words := rapid.SampledFrom([]int{1, 1, 2, 2, 3, 3, 5, 5, 70}).Draw(t, "words")
		tag.Type, tag.Dims = plc.DWORD, []int{words}
		p.AddTag(tag)
		b := make([]byte, 4*words)
		for k := range b {
			if k < 20 {
				b[k] = byte(rapid.IntRange(0, 255).Draw(t, "bits"))
			} else {
				b[k] = b[k-20]*5 + byte(k)
			}
		}
		p.Set(tag, 0, b)
		w.Vars = append(w.Vars, Var{Path: base, Type: reflect.TypeOf(false), CIP: plc.DWORD, Tag: tag, Bit: -1, Avail: words, ESize: 4, Class: "bools", Bools: true, Words: words})
		return
	default:
		c := rapid.SampledFrom(scalarChoices).Draw(t, "atom")
		if c.alt && !o.AltTypes {
			c = scalarChoices[5]
		}
		et, tag.Type = c.t, c.cip
	}
	if !o.NoArrays && tag.Type != plc.BOOL {
		switch rapid.IntRange(0, 5).Draw(t, "dims") {
		case 0, 1:
			max := o.MaxElems
			if et == stringT && max > 6 {
				max = 6
			}
			d := rapid.IntRange(1, max).Draw(t, "d0")
			if o.BigIndex && tag.Type == plc.SINT && rapid.Bool().Draw(t, "huge") {
				d = 65600
			} else if o.BigIndex && tag.Type != plc.STRUCT && rapid.IntRange(0, 3).Draw(t, "big") == 0 {
				d = rapid.SampledFrom([]int{255, 256, 257, 300, 600}).Draw(t, "d0b")
			}
			tag.Dims = []int{d}
		case 2:
			tag.Dims = []int{rapid.IntRange(1, 5).Draw(t, "d0"), rapid.IntRange(1, 5).Draw(t, "d1")}
			if rapid.Bool().Draw(t, "3d") {
				tag.Dims = append(tag.Dims, rapid.IntRange(1, 4).Draw(t, "d2"))
			}
		}
	}
	p.AddTag(tag)
	cnt := tag.Count()
	// contents
	es := tag.ElemSize()
	fill := cnt
	if fill > 40 {
		fill = 40
	}
	mem := make([]byte, cnt*es)
	for k := 0; k < fill; k++ {
		v := reflect.New(et).Elem()
		Fill(t, v, "v")
		copy(mem[k*es:], EncodeAny(v))
	}
	for k := fill; k < cnt; k++ {
		copy(mem[k*es:], mem[(k%fill)*es:(k%fill+1)*es])
		if et.Kind() != reflect.Bool && et.Kind() != reflect.String && et.Kind() != reflect.Struct && et.Kind() != reflect.Float32 && et.Kind() != reflect.Float64 {
			mem[k*es] ^= byte(k)
			if es > 1 {
				mem[k*es+1] ^= byte(k >> 8)
			}
		}
	}
	p.Set(tag, 0, mem)
	if len(tag.Dims) > 0 {
		class += "[]"
	}
	v := Var{Path: base, Type: et, CIP: tag.Type, Tag: tag, Bit: -1, Avail: cnt, ESize: es, Class: class}
	if len(tag.Dims) == 0 || et.Kind() != reflect.Struct || true {
		w.Vars = append(w.Vars, v)
	}
	elem := v
	if len(tag.Dims) > 0 {
		for k := 0; k < 2; k++ {
			idx := make([]string, len(tag.Dims))
			flat := 0
			for d, sz := range tag.Dims {
				x := rapid.IntRange(0, sz-1).Draw(t, "idx")
				if sz > 250 {
					c := []int{}
					for _, y := range []int{254, 255, 256, 257, 65534, 65535, 65536, 65537, sz - 1} {
						if y < sz {
							c = append(c, y)
						}
					}
					if len(c) > 0 && rapid.Bool().Draw(t, "edge") {
						x = rapid.SampledFrom(c).Draw(t, "idxe")
					}
				}
				idx[d] = fmt.Sprint(x)
				flat = flat*sz + x
			}
			e := v
			e.Path = base + "[" + strings.Join(idx, ",") + "]"
			e.Off = flat * es
			e.Avail = cnt - flat
			e.Class = class + "elem"
			w.Vars = append(w.Vars, e)
			elem = e
		}
	}
	if et.Kind() == reflect.Struct && !o.NoMembers {
		w.members(t, elem, tag.Tmpl, et, 2)
	}
}

// members adds places inside one structure.
func (w *World) members(t *rapid.T, at Var, tm *plc.Template, st reflect.Type, depth int) {
	for k := 0; k < 3 && len(tm.Members) > 0; k++ {
		m := tm.Members[rapid.IntRange(0, len(tm.Members)-1).Draw(t, "member")]
		f, _ := st.FieldByName(m.Name)
		v := Var{Path: at.Path + "." + m.Name, Type: f.Type, CIP: m.Type, Tag: at.Tag, Off: at.Off + m.Offset, Bit: -1, Avail: 1, ESize: m.ElemSize(), Class: "member"}
		if m.Type == plc.BOOL && m.Tmpl == nil && f.Type.Kind() == reflect.Bool && f.Tag.Get("pack") != "nopack" {
			v.Bit = m.Bit
			v.Class = "boolmember"
		}
		if f.Type.Kind() == reflect.Array {
			v.Type = f.Type.Elem()
			v.Avail = m.Count
			v.Class = "memberarray"
			if m.Type == plc.BOOL {
				continue
			}
			w.Vars = append(w.Vars, v)
			x := rapid.IntRange(0, m.Count-1).Draw(t, "mi")
			v.Path += fmt.Sprintf("[%d]", x)
			v.Off += x * v.ESize
			v.Avail -= x
		}
		w.Vars = append(w.Vars, v)
		if v.Type.Kind() == reflect.Struct && depth > 0 {
			w.members(t, v, m.Tmpl, v.Type, depth-1)
		}
	}
}

// --- clients

// SharedPLC is a started model controller, reused between cases.
type SharedPLC struct {
	once sync.Once
	p    *plc.PLC
}

// Get returns the controller with default behaviour.
func (s *SharedPLC) Get() *plc.PLC {
	s.once.Do(func() {
		s.p = plc.New()
		if err := s.p.Start(); err != nil {
			Harness("cannot start model controller: %v", err)
		}
	})
	s.p.Reset()
	return s.p
}

// Harness stops the process with a message the runner takes for an error of
// the check itself.
func Harness(format string, a ...any) {
	fmt.Printf("HARNESS-ERROR: "+format+"\n", a...)
	exit()
}

// NewClient makes an unconnected client for p.
func NewClient(p *plc.PLC) *gologix.Client {
	c := gologix.NewClient("127.0.0.1")
	c.Controller.Port = p.Port()
	c.SocketTimeout = 10 * time.Second
	return c
}

var _ = net.ErrClosed

// Connected makes a connected client; failing to connect fails the case.
func Connected(t *rapid.T, p *plc.PLC, mod func(*gologix.Client)) *gologix.Client {
	c := NewClient(p)
	if mod != nil {
		mod(c)
	}
	if err := c.Connect(); err != nil {
		t.Fatalf("connect to a willing controller failed: %v; controller noted %v", err, p.TakeErrors())
	}
	return c
}
