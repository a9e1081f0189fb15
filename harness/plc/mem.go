// Package plc is an independent model of a Logix controller: an EtherNet/IP and
// CIP peer with tag memory. It shares no code with the library under test.
package plc

import (
	"encoding/binary"
	"fmt"
	"strings"
)

// CIP elementary type codes.
const (
	BOOL   = 0xC1
	SINT   = 0xC2
	INT    = 0xC3
	DINT   = 0xC4
	LINT   = 0xC5
	USINT  = 0xC6
	UINT   = 0xC7
	UDINT  = 0xC8
	ULINT  = 0xC9
	REAL   = 0xCA
	LREAL  = 0xCB
	BYTE   = 0xD1
	WORD   = 0xD2
	DWORD  = 0xD3
	LWORD  = 0xD4
	STRUCT = 0xA0
)

const StringHandle = 0x0FCE

func AtomSize(t byte) int {
	switch t {
	case BOOL, SINT, USINT, BYTE:
		return 1
	case INT, UINT, WORD:
		return 2
	case DINT, UDINT, REAL, DWORD:
		return 4
	case LINT, ULINT, LREAL, LWORD:
		return 8
	}
	panic(fmt.Sprintf("no such atom %x", t))
}

// Template is a structure type as the controller knows it.
type Template struct {
	ID       uint16 // 12-bit template instance
	Handle   uint16
	Name     string
	NameTail string // what follows the name in the definition, up to the NUL
	Size     int    // bytes in memory
	Members  []Member
}

type Member struct {
	Name   string
	Type   byte // atom, or STRUCT
	Tmpl   *Template
	Count  int // 0: not an array
	Offset int
	Bit    int // for BOOL members packed into a host byte: 0..7, otherwise 0
	Hidden bool
}

func (m *Member) ElemSize() int {
	if m.Type == STRUCT {
		return m.Tmpl.Size
	}
	return AtomSize(m.Type)
}

// Tag is one named piece of controller memory.
type Tag struct {
	Name     string
	Type     byte
	Tmpl     *Template
	Dims     []int // row major; nil for scalars
	Data     []byte
	Instance uint32
	Program  string // "" = controller scope
	System   bool
	RawType  uint16 // symbol type word when it is none of the above
	ReadOnly bool
}

func (t *Tag) ElemSize() int {
	if t.Type == STRUCT {
		return t.Tmpl.Size
	}
	return AtomSize(t.Type)
}

func (t *Tag) Count() int {
	n := 1
	for _, d := range t.Dims {
		n *= d
	}
	return n
}

var StringTemplate = &Template{
	ID: 0xFCE, Handle: StringHandle, Name: "STRING", Size: 88,
	Members: []Member{
		{Name: "LEN", Type: DINT, Offset: 0},
		{Name: "DATA", Type: SINT, Count: 82, Offset: 4},
	},
}

func EncodeString(s string) []byte {
	b := make([]byte, 88)
	binary.LittleEndian.PutUint32(b, uint32(len(s)))
	copy(b[4:86], s)
	return b
}

// DecodeString gives the value of a 88 byte STRING image.
func DecodeString(b []byte) string {
	n := binary.LittleEndian.Uint32(b)
	if n > 82 {
		return fmt.Sprintf("<bad LEN %d>", n)
	}
	return string(b[4 : 4+n])
}

// Seg is one decoded path segment.
type Seg struct {
	Kind byte // 's' symbol, 'e' element, 'c' class, 'i' instance, 'a' attribute, 'p' port, 'n' connection point
	Name string
	Num  uint32
	Link []byte
}

func (s Seg) String() string {
	if s.Kind == 's' {
		return "." + s.Name
	}
	return fmt.Sprintf("%c(%d)", s.Kind, s.Num)
}

// ParsePath decodes a padded EPATH.
func ParsePath(b []byte) ([]Seg, error) {
	var out []Seg
	if len(b)%2 != 0 {
		return nil, fmt.Errorf("odd path length %d", len(b))
	}
	need := func(n int) error {
		if len(b) < n {
			return fmt.Errorf("path ends inside a segment")
		}
		return nil
	}
	for len(b) > 0 {
		c := b[0]
		switch {
		case c == 0x91:
			if err := need(2); err != nil {
				return nil, err
			}
			n := int(b[1])
			tot := 2 + n + n%2
			if err := need(tot); err != nil {
				return nil, err
			}
			if n == 0 {
				return nil, fmt.Errorf("empty symbol")
			}
			if n%2 == 1 && b[2+n] != 0 {
				return nil, fmt.Errorf("symbol pad byte is %#x", b[2+n])
			}
			out = append(out, Seg{Kind: 's', Name: string(b[2 : 2+n])})
			b = b[tot:]
		case c>>5 == 1: // logical
			var kind byte
			switch (c >> 2) & 7 {
			case 0:
				kind = 'c'
			case 1:
				kind = 'i'
			case 2:
				kind = 'e'
			case 3:
				kind = 'n'
			case 4:
				kind = 'a'
			default:
				return nil, fmt.Errorf("unsupported logical segment %#x", c)
			}
			switch c & 3 {
			case 0:
				if err := need(2); err != nil {
					return nil, err
				}
				out = append(out, Seg{Kind: kind, Num: uint32(b[1])})
				b = b[2:]
			case 1:
				if err := need(4); err != nil {
					return nil, err
				}
				if b[1] != 0 {
					return nil, fmt.Errorf("logical segment pad byte %#x", b[1])
				}
				out = append(out, Seg{Kind: kind, Num: uint32(binary.LittleEndian.Uint16(b[2:]))})
				b = b[4:]
			case 2:
				if err := need(6); err != nil {
					return nil, err
				}
				if b[1] != 0 {
					return nil, fmt.Errorf("logical segment pad byte %#x", b[1])
				}
				out = append(out, Seg{Kind: kind, Num: binary.LittleEndian.Uint32(b[2:])})
				b = b[6:]
			default:
				return nil, fmt.Errorf("reserved logical format %#x", c)
			}
		case c>>5 == 0: // port
			port := uint32(c & 0xF)
			ext := c&0x10 != 0
			p := 1
			ll := 1
			if ext {
				if err := need(2); err != nil {
					return nil, err
				}
				ll = int(b[1])
				p = 2
			}
			if port == 15 {
				if err := need(p + 2); err != nil {
					return nil, err
				}
				port = uint32(binary.LittleEndian.Uint16(b[p:]))
				p += 2
			}
			if err := need(p + ll); err != nil {
				return nil, err
			}
			link := append([]byte(nil), b[p:p+ll]...)
			p += ll
			if p%2 == 1 {
				if err := need(p + 1); err != nil {
					return nil, err
				}
				p++
			}
			out = append(out, Seg{Kind: 'p', Num: port, Link: link})
			b = b[p:]
		default:
			return nil, fmt.Errorf("unsupported segment %#x", c)
		}
	}
	return out, nil
}

// SegsString renders a path canonically, lower case.
func SegsString(segs []Seg) string {
	var sb strings.Builder
	for i := 0; i < len(segs); i++ {
		s := segs[i]
		switch s.Kind {
		case 's':
			if sb.Len() > 0 {
				sb.WriteByte('.')
			}
			sb.WriteString(strings.ToLower(s.Name))
		case 'e':
			sb.WriteByte('[')
			fmt.Fprintf(&sb, "%d", s.Num)
			for i+1 < len(segs) && segs[i+1].Kind == 'e' {
				i++
				fmt.Fprintf(&sb, ",%d", segs[i].Num)
			}
			sb.WriteByte(']')
		case 'c':
			fmt.Fprintf(&sb, "{class %#x}", s.Num)
		case 'i':
			fmt.Fprintf(&sb, "{inst %d}", s.Num)
		case 'a':
			fmt.Fprintf(&sb, "{attr %d}", s.Num)
		default:
			fmt.Fprintf(&sb, "{%c %d %x}", s.Kind, s.Num, s.Link)
		}
	}
	return sb.String()
}

// CanonText renders the text of a tag name the way SegsString renders its path.
func CanonText(path string) string {
	return strings.ToLower(strings.ReplaceAll(path, " ", ""))
}

// ref is a resolved location in memory.
type ref struct {
	tag    *Tag
	typ    byte
	tmpl   *Template
	off    int // byte offset in tag.Data
	bit    int // bit in that byte for packed BOOL members, -1 otherwise
	remain int // elements from here to the end of the array, 1 for scalars
	esize  int
}

func (p *PLC) lookup(program, name string) *Tag {
	return p.tags[strings.ToLower(program)+"/"+strings.ToLower(name)]
}

// resolve finds the memory a path denotes. Returns a CIP status on failure.
func (p *PLC) resolve(segs []Seg) (ref, byte) {
	program := ""
	if len(segs) > 0 && segs[0].Kind == 's' && strings.HasPrefix(strings.ToLower(segs[0].Name), "program:") {
		program = segs[0].Name[8:]
		if !p.hasProgram(program) {
			return ref{}, 0x05
		}
		segs = segs[1:]
	} else if len(segs) >= 2 && segs[0].Kind == 'c' && segs[0].Num == 0x68 && segs[1].Kind == 'i' {
		pr := p.programByID(segs[1].Num)
		if pr == nil {
			return ref{}, 0x05
		}
		program = pr.Name
		segs = segs[2:]
	}
	var t *Tag
	switch {
	case len(segs) >= 1 && segs[0].Kind == 's':
		t = p.lookup(program, segs[0].Name)
		segs = segs[1:]
	case len(segs) >= 2 && segs[0].Kind == 'c' && segs[0].Num == 0x6B && segs[1].Kind == 'i':
		for _, c := range p.order {
			if c.Instance == segs[1].Num && strings.EqualFold(c.Program, program) {
				t = c
			}
		}
		segs = segs[2:]
	default:
		return ref{}, 0x04
	}
	if t == nil {
		return ref{}, 0x05
	}
	r := ref{tag: t, typ: t.Type, tmpl: t.Tmpl, bit: -1, esize: t.ElemSize(), remain: t.Count()}
	dims := t.Dims
	for {
		// optional indexes
		if len(segs) > 0 && segs[0].Kind == 'e' {
			if len(dims) == 0 {
				return ref{}, 0x05
			}
			flat := 0
			for _, d := range dims {
				if len(segs) == 0 || segs[0].Kind != 'e' {
					return ref{}, 0x05
				}
				if segs[0].Num >= uint32(d) {
					return ref{}, 0x05
				}
				flat = flat*d + int(segs[0].Num)
				segs = segs[1:]
			}
			r.off += flat * r.esize
			r.remain -= flat
			dims = nil
			if len(segs) > 0 && segs[0].Kind == 'e' {
				return ref{}, 0x05
			}
		}
		if len(segs) == 0 {
			return r, 0
		}
		if segs[0].Kind != 's' || r.typ != STRUCT {
			return ref{}, 0x05
		}
		if len(dims) > 0 {
			return ref{}, 0x05
		}
		var m *Member
		for i := range r.tmpl.Members {
			if strings.EqualFold(r.tmpl.Members[i].Name, segs[0].Name) && !r.tmpl.Members[i].Hidden {
				m = &r.tmpl.Members[i]
			}
		}
		if m == nil {
			return ref{}, 0x05
		}
		segs = segs[1:]
		r.off += m.Offset
		r.typ, r.tmpl = m.Type, m.Tmpl
		r.esize = m.ElemSize()
		r.remain = 1
		dims = nil
		if m.Count > 0 {
			r.remain = m.Count
			dims = []int{m.Count}
		}
		if m.Type == BOOL {
			r.bit = m.Bit
		}
	}
}

// Place is what a request path denotes.
type Place struct {
	Tag    *Tag
	Off    int
	Bit    int // packed boolean member, otherwise -1
	Remain int
}

// Resolve finds what a path denotes, if it denotes a place in tag memory.
func (p *PLC) Resolve(segs []Seg) (Place, bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	r, st := p.resolve(segs)
	if st != 0 {
		return Place{}, false
	}
	return Place{r.tag, r.off, r.bit, r.remain}, true
}
