package props

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/lgxtypes"

	"verifharness/hx"
	"verifharness/plc"
)

// The operations of the client over one fixed controller. The checks about
// refusals, corrupt replies, connection loss and concurrency draw from this table.

type fxInner struct {
	N int32
	Q int16
	P int16
}
type fxU struct {
	A int32
	F float32
	S int16
	T int16
	Z int64
	I fxInner
	K [3]int32
}

type fix struct {
	p    *plc.PLC
	tags map[string]*plc.Tag
	x    uint64
}

// next is a deterministic stream of numbers.
func (f *fix) next() uint64 {
	f.x += 0x9E3779B97F4A7C15
	z := f.x
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func (f *fix) fxU() fxU {
	return fxU{A: int32(f.next()), F: float32(int32(f.next())>>8) / 4, S: int16(f.next()), T: int16(f.next()), Z: int64(f.next()),
		I: fxInner{int32(f.next()), int16(f.next()), int16(f.next())}, K: [3]int32{int32(f.next()), int32(f.next()), int32(f.next())}}
}

func (f *fix) text() string {
	n := int(f.next()%60) + 1
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('!' + f.next()%90)
	}
	return string(b)
}

func (f *fix) add(name, prog string, typ byte, tmpl *plc.Template, dims ...int) *plc.Tag {
	t := &plc.Tag{Name: name, Program: prog, Type: typ, Tmpl: tmpl, Dims: dims, Instance: uint32(3 + len(f.tags)*41)}
	f.p.AddTag(t)
	k := name
	if prog != "" {
		k = "Program:" + prog + "." + name
	}
	f.tags[k] = t
	b := make([]byte, t.Count()*t.ElemSize())
	switch typ {
	case plc.REAL:
		for i := 0; i+4 <= len(b); i += 4 {
			binary.LittleEndian.PutUint32(b[i:], math.Float32bits(float32(int32(f.next())>>8)/4))
		}
	case plc.LREAL:
		for i := 0; i+8 <= len(b); i += 8 {
			binary.LittleEndian.PutUint64(b[i:], math.Float64bits(float64(int64(f.next())>>20)/4))
		}
	case plc.BOOL:
		b[0] = byte(f.next() & 1)
	case plc.STRUCT:
		for i := 0; i < t.Count(); i++ {
			if tmpl == plc.StringTemplate {
				copy(b[i*t.ElemSize():], plc.EncodeString(f.text()))
			} else {
				copy(b[i*t.ElemSize():], hx.EncodeAny(reflect.ValueOf(f.fxU())))
			}
		}
	default:
		for i := range b {
			b[i] = byte(f.next())
		}
	}
	f.p.Set(t, 0, b)
	return t
}

// newFix fills p with the fixed tags, their values derive from seed.
func newFix(p *plc.PLC, seed uint64) *fix {
	p.ClearTags()
	f := &fix{p: p, tags: map[string]*plc.Tag{}, x: seed}
	u := hx.TemplateOf(reflect.TypeOf(fxU{}), "fxU", 0x210)
	p.Programs = append(p.Programs, plc.Program{Name: "Mix", ID: 0x71}, plc.Program{Name: "Fill", ID: 0x9c2})
	f.add("D", "", plc.DINT, nil)
	f.add("I", "", plc.INT, nil)
	f.add("R", "", plc.REAL, nil)
	f.add("L", "", plc.LREAL, nil)
	f.add("B", "", plc.BOOL, nil)
	f.add("S", "", plc.STRUCT, plc.StringTemplate)
	f.add("SA", "", plc.STRUCT, plc.StringTemplate, 3)
	f.add("A", "", plc.DINT, nil, 300)
	f.add("Big", "", plc.DINT, nil, 3000)
	f.add("W", "", plc.DWORD, nil, 2)
	f.add("U", "", plc.STRUCT, u)
	f.add("UA", "", plc.STRUCT, u, 4)
	f.add("M", "", plc.DINT, nil, 2, 3)
	f.add("X", "Mix", plc.DINT, nil)
	f.add("Y", "Mix", plc.LINT, nil, 5)
	f.add("X", "Fill", plc.REAL, nil)
	// places that are written
	f.add("wD", "", plc.DINT, nil)
	f.add("wA", "", plc.INT, nil, 40)
	f.add("wS", "", plc.STRUCT, plc.StringTemplate)
	f.add("wU", "", plc.STRUCT, u)
	f.add("wR", "Mix", plc.REAL, nil)
	return f
}

func (f *fix) mem(tag string) []byte { return f.p.Get(f.tags[tag]) }

// val is elements from..from+n of a tag as Go values.
func (f *fix) val(tag string, from, n int) []any {
	t := f.tags[tag]
	m := f.p.Get(t)
	es := t.ElemSize()
	out := make([]any, n)
	for i := range out {
		b := m[(from+i)*es : (from+i+1)*es]
		le := binary.LittleEndian
		switch t.Type {
		case plc.DINT:
			out[i] = int32(le.Uint32(b))
		case plc.DWORD:
			out[i] = le.Uint32(b)
		case plc.INT:
			out[i] = int16(le.Uint16(b))
		case plc.LINT:
			out[i] = int64(le.Uint64(b))
		case plc.REAL:
			out[i] = math.Float32frombits(le.Uint32(b))
		case plc.LREAL:
			out[i] = math.Float64frombits(le.Uint64(b))
		case plc.BOOL:
			out[i] = b[0] != 0
		case plc.STRUCT:
			if t.Tmpl == plc.StringTemplate {
				out[i] = plc.DecodeString(b)
			} else {
				out[i] = decodeFxU(b)
			}
		}
	}
	return out
}

func decodeFxU(b []byte) (u fxU) {
	le := binary.LittleEndian
	u.A = int32(le.Uint32(b))
	u.F = math.Float32frombits(le.Uint32(b[4:]))
	u.S, u.T = int16(le.Uint16(b[8:])), int16(le.Uint16(b[10:]))
	u.Z = int64(le.Uint64(b[16:]))
	u.I = fxInner{int32(le.Uint32(b[24:])), int16(le.Uint16(b[28:])), int16(le.Uint16(b[30:]))}
	for i := range u.K {
		u.K[i] = int32(le.Uint32(b[32+4*i:]))
	}
	return u
}

func (f *fix) bools() []bool {
	out := make([]bool, 64)
	for i, b := range f.mem("W") {
		for k := 0; k < 8; k++ {
			out[8*i+k] = b>>k&1 != 0
		}
	}
	return out
}

// wval is what the n-th write of this fixture stores in a tag.
func (f *fix) wval(tag string, salt uint64) any {
	g := &fix{x: salt*0x1234567 + uint64(len(tag)) + uint64(tag[1])<<8}
	switch tag {
	case "wD":
		return int32(g.next())
	case "wA":
		x := make([]int16, 40)
		for i := range x {
			x[i] = int16(g.next())
		}
		return x
	case "wS":
		return g.text()
	case "wU":
		return g.fxU()
	case "wR":
		return float32(int32(g.next())>>8) / 4
	}
	panic(tag)
}

func wtag(tag string) string {
	if tag == "wR" {
		return "Program:Mix.wR"
	}
	return tag
}

// op is one operation a user can carry out.
type op struct {
	name string
	run  func(f *fix, c *gologix.Client, salt uint64) (any, error)
	want func(f *fix) any // the right result
	wr   []string         // tags written
	raw  bool             // does not use the CIP connection (encapsulation service)
	list bool             // a listing
}

func one(x any, err error) (any, error) { return x, err }

func rd[T any](name, tag string, want func(f *fix) any) op {
	return op{name: name, run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
		var x T
		err := c.Read(tag, &x)
		return x, err
	}, want: want}
}

func rdN[T any](name, tag string, n int, want func(f *fix) any) op {
	return op{name: name, run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
		x := make([]T, n)
		err := c.Read(tag, x)
		return x, err
	}, want: want}
}

func first(tag string) func(*fix) any { return func(f *fix) any { return f.val(tag, 0, 1)[0] } }
func elems(tag string, from, n int) func(*fix) any {
	return func(f *fix) any { return f.val(tag, from, n) }
}

func itemBytes(it *gologix.CIPItem, err error) (any, error) {
	if err != nil {
		return nil, err
	}
	if it == nil {
		return nil, fmt.Errorf("VIOLATED: neither an item nor an error")
	}
	return append([]byte{}, it.Rest()...), nil
}

type fxMulti struct {
	D  int32   `gologix:"D"`
	R  float32 `gologix:"R"`
	S  string  `gologix:"S"`
	A3 int32   `gologix:"A[3]"`
	UF float32 `gologix:"U.F"`
	X  int32   `gologix:"Program:Mix.X"`
}
type fxMultiW struct {
	D int32   `gologix:"wD"`
	R float32 `gologix:"Program:Mix.wR"`
	S string  `gologix:"wS"`
}

func (f *fix) multi() fxMulti {
	u := f.val("U", 0, 1)[0].(fxU)
	return fxMulti{f.val("D", 0, 1)[0].(int32), f.val("R", 0, 1)[0].(float32), f.val("S", 0, 1)[0].(string), f.val("A", 3, 1)[0].(int32), u.F, f.val("Program:Mix.X", 0, 1)[0].(int32)}
}

func (f *fix) mapWant() any {
	u := f.val("U", 0, 1)[0].(fxU)
	return map[string]any{"D": f.val("D", 0, 1)[0], "I": f.val("I", 0, 1)[0], "L": f.val("L", 0, 1)[0], "A[7]": f.val("A", 7, 5),
		"S": f.val("S", 0, 1)[0], "U.A": u.A, "Program:Fill.X": f.val("Program:Fill.X", 0, 1)[0], "M[1,1]": f.val("M", 4, 1)[0]}
}

// show makes results comparable: it does not depend on the type of an array's elements.
func show(x any) string {
	if m, ok := x.(map[string]any); ok {
		k := make([]string, 0, len(m))
		for n, v := range m {
			k = append(k, fmt.Sprintf("%s=%T:%v", n, scal(v), v))
		}
		sort.Strings(k)
		return strings.Join(k, "\n")
	}
	return fmt.Sprintf("%v", x)
}

func scal(v any) any {
	if rv := reflect.ValueOf(v); rv.IsValid() && rv.Kind() == reflect.Slice {
		return nil
	}
	return v
}

func knownTags(c *gologix.Client) any {
	var l []string
	for k, t := range c.KnownTags {
		if strings.HasPrefix(strings.ToLower(k), "program:") && !strings.Contains(k, ".") {
			continue // the program itself, listed when programs are found by name
		}
		s := fmt.Sprintf("%s %s %#x %v", k, t.Name, uint16(t.Info.Type), t.Array_Order)
		if t.UDT != nil {
			s += " " + t.UDT.Name
			for _, m := range t.UDT.Members {
				s += fmt.Sprintf(" %s/%x/%d/%d", m.Name, m.Info.Type, m.Info.Offset, m.Info.Info)
			}
		}
		l = append(l, s)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (f *fix) tagsWant() any {
	var l []string
	for k, t := range f.tags {
		name := t.Name
		if t.Program != "" {
			name = "program:" + t.Program + "." + t.Name
		}
		dims := append([]int{}, t.Dims...)
		s := fmt.Sprintf("%s %s %#x %v", strings.ToLower(k), name, t.SymbolType()&0xff, dims)
		if t.Tmpl != nil {
			s += " " + f.udtText(t.Tmpl)
		}
		l = append(l, s)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (f *fix) udtText(tm *plc.Template) string {
	s := tm.Name
	for _, m := range tm.Members {
		typ, info := uint16(m.Type), 0
		if m.Type == plc.STRUCT {
			typ = 0x8000 | m.Tmpl.ID
		} else if m.Type == plc.BOOL && m.Count == 0 {
			info = m.Bit
		}
		if m.Count > 0 {
			typ |= 0x2000
			info = m.Count
		}
		s += fmt.Sprintf(" %s/%x/%d/%d", m.Name, typ, m.Offset, info)
	}
	return s
}

func udtShown(d gologix.UDTDescriptor) string {
	s := d.Name
	for _, m := range d.Members {
		s += fmt.Sprintf(" %s/%x/%d/%d", m.Name, m.Info.Type, m.Info.Offset, m.Info.Info)
	}
	return s
}

var opTable = func() []op {
	ops := []op{
		rd[int32]("Read DINT", "D", first("D")),
		rd[int16]("Read INT", "i", first("I")),
		rd[float32]("Read REAL", "R", first("R")),
		rd[float64]("Read LREAL", "L", first("L")),
		rd[bool]("Read BOOL", "B", first("B")),
		rd[string]("Read STRING", "S", first("S")),
		rd[int32]("Read program tag", "Program:Mix.X", first("Program:Mix.X")),
		rd[int32]("Read element", "M[1,2]", func(f *fix) any { return f.val("M", 5, 1)[0] }),
		rd[fxU]("Read UDT", "U", first("U")),
		rd[int16]("Read member", "U.I.Q", func(f *fix) any { return f.val("U", 0, 1)[0].(fxU).I.Q }),
		rd[any]("Read any", "D", first("D")),
		rdN[int32]("Read array", "A[20]", 60, elems("A", 20, 60)),
		rdN[int32]("Read big array", "Big", 3000, elems("Big", 0, 3000)),
		rdN[int64]("Read program array", "Program:Mix.Y[1]", 3, elems("Program:Mix.Y", 1, 3)),
		rdN[string]("Read strings", "SA", 3, elems("SA", 0, 3)),
		rdN[fxU]("Read UDTs", "UA[1]", 2, elems("UA", 1, 2)),
		rdN[bool]("Read bools", "W", 64, func(f *fix) any { return f.bools() }),
		{name: "Read_single", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			return c.Read_single("D", gologix.CIPTypeDINT, 1)
		}, want: first("D")},
		{name: "Read_single array", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			return c.Read_single("Big", gologix.CIPTypeDINT, 1500)
		}, want: elems("Big", 0, 1500)},
		{name: "ReadPacked", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			return gologix.ReadPacked[fxU](c, "U")
		}, want: first("U")},
		{name: "Read lgxtypes.STRING", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			var x lgxtypes.STRING
			err := c.Read("S", &x)
			if err != nil {
				return nil, err
			}
			if x.Len < 0 || int(x.Len) > len(x.Data) {
				return fmt.Sprintf("length %d", x.Len), nil
			}
			b := make([]byte, x.Len)
			for i := range b {
				b[i] = byte(x.Data[i])
			}
			return string(b), nil
		}, want: first("S")},
		{name: "ReadMap", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			m := map[string]any{"D": int32(0), "I": int16(0), "L": float64(0), "A[7]": make([]int32, 5), "S": "", "U.A": int32(0), "Program:Fill.X": float32(0), "M[1,1]": int32(0)}
			err := c.ReadMap(m)
			return m, err
		}, want: func(f *fix) any { return f.mapWant() }},
		{name: "ReadMulti", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			var x fxMulti
			err := c.ReadMulti(&x)
			return x, err
		}, want: func(f *fix) any { return f.multi() }},
		{name: "ReadList", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			v, err := c.ReadList([]string{"D", "A[2]", "S", "U.F", "R", "Program:Mix.X"}, []any{int32(0), int32(0), "", float32(0), float32(0), int32(0)}, []int{1, 6, 1, 1, 1, 1})
			return v, err
		}, want: func(f *fix) any {
			return []any{f.val("D", 0, 1)[0], f.val("A", 2, 6), f.val("S", 0, 1)[0], f.val("U", 0, 1)[0].(fxU).F, f.val("R", 0, 1)[0], f.val("Program:Mix.X", 0, 1)[0]}
		}},
		{name: "ReadList many", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			var n []string
			var t []any
			var e []int
			for i := 0; i < 290; i++ {
				n, t, e = append(n, fmt.Sprintf("A[%d]", i)), append(t, int32(0)), append(e, 1)
			}
			v, err := c.ReadList(n, t, e)
			return v, err
		}, want: elems("A", 0, 290)},
		{name: "ReadTagGroup", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			g := gologix.NewTagGroup(gologix.TagDef{Name: "D", Type: gologix.CIPTypeDINT}, gologix.TagDef{Name: "A[{0}]", Type: gologix.CIPTypeDINT, Elements: 4}, gologix.TagDef{Name: "S", Type: gologix.CIPTypeSTRING})
			r, err := c.ReadTagGroup(g, 11)
			if err != nil {
				return nil, err
			}
			m := map[string]any{}
			for _, n := range []string{"D", "A[11]", "S"} {
				if m[n], err = r.Value(n); err != nil {
					return nil, fmt.Errorf("VIOLATED: %v", err)
				}
			}
			return m, nil
		}, want: func(f *fix) any {
			return map[string]any{"D": f.val("D", 0, 1)[0], "A[11]": f.val("A", 11, 4), "S": f.val("S", 0, 1)[0]}
		}},

		{name: "GetAttrSingle", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			return itemBytes(c.GetAttrSingle(gologix.CipObject_Identity, 1, 7))
		}, want: func(f *fix) any {
			n := f.p.Identity.Name
			return append([]byte{byte(len(n))}, n...)
		}},
		{name: "GetAttrList", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			return itemBytes(c.GetAttrList(gologix.CipObject_Identity, 1, 1, 6, 3))
		}, want: func(f *fix) any {
			i := f.p.Identity
			le := binary.LittleEndian
			b := []byte{1, 0, 0, 0}
			b = le.AppendUint16(b, i.Vendor)
			b = append(b, 6, 0, 0, 0)
			b = le.AppendUint32(b, i.Serial)
			b = append(b, 3, 0, 0, 0)
			return le.AppendUint16(b, i.ProductCode)
		}},
		{name: "GetControllerPropList", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			x, err := c.GetControllerPropList()
			return fmt.Sprint(x.Attr1, x.Attr2, x.Attr3, x.Attr4, x.Attr5), err
		}, want: func(f *fix) any { return fmt.Sprint(1, 2, 0x03020103, 0x03020104, 0x0302010A) }},
		{name: "GenericCIPMessage", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			return itemBytes(c.GenericCIPMessage(gologix.CIPService_GetAttributeSingle, []byte{0x20, 1, 0x24, 1, 0x30, 6}, nil))
		}, want: func(f *fix) any { return binary.LittleEndian.AppendUint32(nil, f.p.Identity.Serial) }},

		{name: "ListAllPrograms", list: true, run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			c.KnownPrograms = nil
			err := c.ListAllPrograms()
			m := map[string]any{}
			for k, v := range c.KnownPrograms {
				m[k] = fmt.Sprint(v.Name, v.ID)
			}
			return m, err
		}, want: func(f *fix) any {
			m := map[string]any{}
			for _, q := range f.p.Programs {
				m[q.Name] = fmt.Sprint(q.Name, q.ID)
			}
			return m
		}},
		{name: "ListAllTags", list: true, run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			c.KnownTags = map[string]gologix.KnownTag{}
			c.KnownTypes = map[string]gologix.UDTDescriptor{}
			c.KnownTypesByID = map[uint32]gologix.UDTDescriptor{}
			err := c.ListAllTags(0)
			return knownTags(c), err
		}, want: func(f *fix) any { return f.tagsWant() }},
		{name: "ListSubTags", list: true, run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			l, err := c.ListSubTags(&gologix.KnownProgram{Name: "Mix", ID: 0x71}, 0)
			var n []string
			for _, t := range l {
				n = append(n, fmt.Sprintf("%s %v %v", t.Name, t.Info.Type, t.Array_Order))
			}
			sort.Strings(n)
			return n, err
		}, want: func(f *fix) any {
			n := []string{}
			for _, t := range f.tags {
				if t.Program == "Mix" {
					n = append(n, fmt.Sprintf("program:Mix.%s %v %v", t.Name, gologix.CIPType(t.SymbolType()&0xff), append([]int{}, t.Dims...)))
				}
			}
			sort.Strings(n)
			return n
		}},
		{name: "ListMembers", list: true, run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			c.KnownTypesByID = map[uint32]gologix.UDTDescriptor{}
			d, err := c.ListMembers(0x210)
			return udtShown(d), err
		}, want: func(f *fix) any { return f.udtText(f.tags["U"].Tmpl) }},
		{name: "GetTemplateInstanceAttr", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			d, err := c.GetTemplateInstanceAttr(0x210)
			return fmt.Sprint(d.SizeWords, d.SizeBytes, d.MemberCount, d.Handle), err
		}, want: func(f *fix) any {
			t := f.tags["U"].Tmpl
			return fmt.Sprint(t.DefWords(), t.Size, len(t.Members), t.Handle)
		}},
		{name: "ListIdentity", raw: true, run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			r, err := c.ListIdentity()
			if err != nil {
				return nil, err
			}
			return fmt.Sprint(uint16(r.Vendor), uint16(r.DeviceType), r.ProductCode, r.Revision, r.Status, r.SerialNumber, r.ProductName, r.State), nil
		}, want: func(f *fix) any {
			i := f.p.Identity
			return fmt.Sprint(i.Vendor, i.DeviceType, i.ProductCode, uint16(i.Major)|uint16(i.Minor)<<8, i.Status, i.Serial, i.Name, i.State)
		}},
		{name: "ListServices", raw: true, run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			r, err := c.ListServices()
			s := ""
			for _, x := range r {
				s += fmt.Sprintf("%d %d %s;", x.EncapProtocolVersion, uint16(x.Capabilities), x.Name)
			}
			return s, err
		}, want: func(f *fix) any {
			s := ""
			for _, x := range f.p.Services {
				s += fmt.Sprintf("%d %d %s;", x.Version, x.Flags, x.Name)
			}
			return s
		}},
		{name: "data table", run: func(f *fix, c *gologix.Client, _ uint64) (any, error) {
			b, err := c.NewDataTableBuffer()
			if err != nil {
				return nil, err
			}
			for _, s := range []struct {
				n string
				t gologix.CIPType
			}{{"D", gologix.CIPTypeDINT}, {"L", gologix.CIPTypeLREAL}, {"U.S", gologix.CIPTypeINT}} {
				if err := b.AddTag(s.n, s.t); err != nil {
					return nil, err
				}
			}
			if err := b.RemoveTag("L"); err != nil {
				return nil, err
			}
			v, err := b.ReadAll()
			if err != nil {
				return nil, err
			}
			if err := b.Close(); err != nil {
				return nil, err
			}
			m := map[string]any{}
			for k, x := range v {
				m[k] = x
			}
			return m, nil
		}, want: func(f *fix) any {
			return map[string]any{"D": f.val("D", 0, 1)[0], "U.S": f.val("U", 0, 1)[0].(fxU).S}
		}},

		{name: "Write DINT", wr: []string{"wD"}},
		{name: "Write array", wr: []string{"wA"}},
		{name: "Write STRING", wr: []string{"wS"}},
		{name: "Write UDT", wr: []string{"wU"}},
		{name: "Write program tag", wr: []string{"wR"}},
		{name: "WriteMap", wr: []string{"wD", "wS", "wR"}, run: func(f *fix, c *gologix.Client, salt uint64) (any, error) {
			return nil, c.WriteMap(map[string]any{"wD": f.wval("wD", salt), "wS": f.wval("wS", salt), "Program:Mix.wR": f.wval("wR", salt)})
		}},
		{name: "WriteMulti", wr: []string{"wD", "wS", "wR"}, run: func(f *fix, c *gologix.Client, salt uint64) (any, error) {
			return nil, c.WriteMulti(fxMultiW{f.wval("wD", salt).(int32), f.wval("wR", salt).(float32), f.wval("wS", salt).(string)})
		}},
	}
	for i := range ops {
		o := &ops[i]
		if o.run == nil {
			tag := o.wr[0]
			o.run = func(f *fix, c *gologix.Client, salt uint64) (any, error) {
				return nil, c.Write(wtag(tag), f.wval(tag, salt))
			}
		}
	}
	return ops
}()

// looseTags compares listings in which the structure of a tag may be unknown.
func looseTags(got, want string) bool {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	if len(g) != len(w) {
		return false
	}
	for i := range g {
		if g[i] != w[i] && !(strings.HasSuffix(g[i], "]") && strings.HasPrefix(w[i], g[i]+" ")) {
			return false
		}
	}
	return true
}

// right says whether a result of o, which reported success, is right.
func (o op) right(f *fix, got any, salt uint64) string { return o.rightL(f, got, salt, false) }

// rightL is right where the structure of a listed tag may be missing.
func (o op) rightL(f *fix, got any, salt uint64, loose bool) string {
	if o.want != nil {
		if g, w := show(got), show(o.want(f)); g != w && !(loose && o.name == "ListAllTags" && looseTags(g, w)) {
			return fmt.Sprintf("%s gave %s, the controller holds %s", o.name, hx.Short(g, 600), hx.Short(w, 600))
		}
	}
	for _, tag := range o.wr {
		img := hx.EncodeAny(reflect.ValueOf(f.wval(tag, salt)))
		m := f.mem(wtag(tag))
		if len(img) < len(m) && tag == "wS" {
			img = append(img, make([]byte, len(m)-len(img))...)
		}
		if tag == "wS" {
			if plc.DecodeString(m) != f.wval(tag, salt) {
				return fmt.Sprintf("%s: %s holds %q instead of %q", o.name, tag, plc.DecodeString(m), f.wval(tag, salt))
			}
			continue
		}
		if string(m) != string(img) {
			return fmt.Sprintf("%s: %s holds %x instead of %x", o.name, tag, m, img)
		}
	}
	return ""
}

// do runs an operation; bad is non-empty when it panics or does not return.
func (o op) do(f *fix, c *gologix.Client, salt uint64) (got any, err error, bad string) {
	bad = hx.Within(opLimit, func() { got, err = o.run(f, c, salt) })
	if err != nil && strings.HasPrefix(err.Error(), "VIOLATED") {
		bad = err.Error()
	}
	return
}
