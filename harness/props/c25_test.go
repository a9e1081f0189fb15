package props

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

var memberAtoms = []byte{plc.BOOL, plc.SINT, plc.INT, plc.DINT, plc.LINT, plc.USINT, plc.UINT, plc.UDINT, plc.LWORD, plc.REAL, plc.LREAL, plc.BYTE, plc.WORD, plc.DWORD}

// typeIDs hands out type numbers, 12 bits each, many of which differ in one bit only.
type typeIDs struct {
	last uint16
	used map[uint16]bool
}

func newTypeIDs(first uint16) *typeIDs {
	return &typeIDs{first, map[uint16]bool{plc.StringTemplate.ID: true}}
}

func (x *typeIDs) take(t *rapid.T) uint16 {
	id := x.last
	if len(x.used) > 1 {
		if bit := rapid.IntRange(-12, 11).Draw(t, "other bit"); bit >= 0 {
			id ^= 1 << bit
		} else {
			id += uint16(rapid.IntRange(1, 60).Draw(t, "gap"))
		}
	}
	for ; id < 1 || id > 0xFEF || x.used[id]; id++ {
		if id > 0xFEF {
			id = 0
		}
	}
	x.last, x.used[id] = id, true
	return id
}

// genTemplates draws a structure and the structures in it.
func genTemplate(t *rapid.T, next *typeIDs, depth int, done *[]*plc.Template) *plc.Template {
	tm := &plc.Template{ID: next.take(t), Handle: rapid.Uint16().Draw(t, "handle"), Size: int(rapid.Uint32().Draw(t, "size"))}
	tm.Name = hx.GenName(t, "type")
	tm.NameTail = rapid.SampledFrom([]string{"", ";", ";n", ";nGEBECAAA", ";1234;x", ";n\x01\x02"}).Draw(t, "tail")
	n := rapid.SampledFrom([]int{1, 1, 2, 3, 5, 9, 40, 120, 0}).Draw(t, "members")
	if depth > 0 {
		n = min(n, 20/depth)
	}
	if depth == 0 && rapid.IntRange(0, 250).Draw(t, "huge") == 0 {
		n = 3200 // more than 64 kB
	}
	for i := 0; i < n; i++ {
		m := plc.Member{}
		if i < 12 {
			m.Name = rapid.SampledFrom([]string{"", "", "", "ZZZZZZZZZZ", "__"}).Draw(t, "hidden") + hx.GenName(t, "member")
			m.Offset = int(rapid.OneOf(rapid.Uint32Range(0, 300), rapid.Uint32()).Draw(t, "offset"))
			m.Type = rapid.SampledFrom(memberAtoms).Draw(t, "atom")
			if m.Type == plc.BOOL {
				m.Bit = rapid.IntRange(0, 31).Draw(t, "bit")
			} else if rapid.IntRange(0, 3).Draw(t, "array") == 0 {
				m.Count = int(rapid.Uint16Range(1, 65535).Draw(t, "count"))
			}
			if depth < 3 && rapid.IntRange(0, 6).Draw(t, "nested") == 0 && len(*done) < 12 {
				m.Type, m.Bit = plc.STRUCT, 0
				if len(*done) > 0 && rapid.Bool().Draw(t, "again") {
					m.Tmpl = (*done)[rapid.IntRange(0, len(*done)-1).Draw(t, "which")]
				} else {
					m.Tmpl = genTemplate(t, next, depth+1, done)
				}
			}
		} else {
			m = plc.Member{Name: fmt.Sprintf("m%d_%s", i, tm.Name), Offset: i * 4, Type: memberAtoms[i%len(memberAtoms)]}
		}
		tm.Members = append(tm.Members, m)
	}
	*done = append(*done, tm)
	return tm
}

// typeText and typeShown describe a type the same way from either side.
func typeText(tm *plc.Template, refused map[uint16]bool) string {
	var s strings.Builder
	fmt.Fprintf(&s, "%d %q %d %d %d %d {", tm.ID, tm.Name, tm.DefWords(), uint32(tm.Size), len(tm.Members), tm.Handle)
	for _, m := range tm.Members {
		typ, info := uint16(m.Type), 0
		if m.Type == plc.STRUCT {
			typ = 0x8000 | m.Tmpl.ID
		} else if m.Type == plc.BOOL && m.Count == 0 {
			info = m.Bit
		}
		if m.Count > 0 {
			typ |= 0x2000
			info = m.Count
		}
		fmt.Fprintf(&s, " %q %#x %d %d", m.Name, typ, uint32(m.Offset), info)
		if m.Tmpl != nil && !refused[m.Tmpl.ID] {
			s.WriteString(" " + typeText(m.Tmpl, refused))
		}
		s.WriteString(";")
	}
	return s.String() + "}"
}

func typeShown(d gologix.UDTDescriptor) string {
	var s strings.Builder
	fmt.Fprintf(&s, "%d %q %d %d %d %d {", d.Instance_ID, d.Name, d.Info.SizeWords, d.Info.SizeBytes, d.Info.MemberCount, d.Info.Handle)
	for _, m := range d.Members {
		fmt.Fprintf(&s, " %q %#x %d %d", m.Name, m.Info.Type, m.Info.Offset, m.Info.Info)
		if m.UDT != nil {
			s.WriteString(" " + typeShown(*m.UDT))
		}
		s.WriteString(";")
	}
	return s.String() + "}"
}

// TestC25: a type is reported as the controller defines it.
func TestC25(t *testing.T) {
	rec := hx.For("C25")
	rec.Rule("a generated type with at least one member, read in full in one or several replies, twice; or one that is refused, recursive or inconsistent")
	rec.Assume("a refused template of a nested member may leave that member without its type or fail the whole",
		"inconsistent means an announced size that cannot hold the announced members, a definition that ends early, or a structure that contains itself")
	hx.Check(t, "C25", 4000, func(t *rapid.T) {
		p := shared.Get()
		p.Reset()
		next := newTypeIDs(rapid.OneOf(rapid.Uint16Range(1, 0x300), rapid.Uint16Range(1, 0xFEF)).Draw(t, "first id"))
		var all []*plc.Template
		top := genTemplate(t, next, 0, &all)
		plan := rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 2, 7, 8, 9, 16, 100, 479}), 0, 8).Draw(t, "plan")
		trouble := rapid.SampledFrom([]string{"", "", "", "", "", "refuse attributes", "refuse definition", "refuse a part", "attribute", "recursive", "small", "short"}).Draw(t, "trouble")
		victim := all[rapid.IntRange(0, len(all)-1).Draw(t, "victim")]
		status := rapid.SampledFrom([]byte{1, 4, 5, 8, 0x0F}).Draw(t, "status")
		desc := fmt.Sprintf("%s plan %v trouble %q with %d", hx.Short(typeText(top, nil), 400), plan, trouble, victim.ID)
		if trouble == "recursive" {
			if len(victim.Members) == 0 {
				trouble = ""
			} else {
				k := rapid.IntRange(0, min(len(victim.Members), 12)-1).Draw(t, "at")
				victim.Members[k].Type, victim.Members[k].Tmpl, victim.Members[k].Bit = plc.STRUCT, top, 0
			}
		}
		if (trouble == "small" || trouble == "short") && (len(victim.Members) < 2 || len(victim.Members) > 1000) {
			trouble = ""
		}
		c := hx.NewClient(p)
		c.ConnectionSize = rapid.SampledFrom([]uint16{4000, 511}).Draw(t, "size")
		if err := c.Connect(); err != nil {
			hx.Harness("connect: %v", err)
		}
		defer c.Disconnect()
		p.Lock()
		p.Templates = []*plc.Template{top}
		calls := 0
		p.TemplatePlan = func(off, n int) int {
			k := n
			if calls < len(plan) && plan[calls] > 0 {
				k = plan[calls]
			}
			calls++
			return k
		}
		hit := false
		parts := 0
		p.Intercept = func(r *plc.Req) *plc.Reply {
			if len(r.Path) != 2 || r.Path[0].Num != 0x6C || r.Path[1].Num != uint32(victim.ID) {
				return nil
			}
			var rep *plc.Reply
			switch trouble {
			case "refuse attributes":
				if r.Service == 0x03 {
					rep = &plc.Reply{Status: status}
				}
			case "refuse definition":
				if r.Service == 0x4C {
					rep = &plc.Reply{Status: status}
				}
			case "refuse a part":
				if r.Service == 0x4C {
					if parts++; parts >= 2 {
						rep = &plc.Reply{Status: status}
					}
				}
			case "attribute":
				if r.Service == 0x03 {
					// the size of the definition is not available
					rep = &plc.Reply{Data: []byte{4, 0, 4, 0, status, 0, 0, 0, 0, 0, 5, 0, 0, 0, 4, 0, 0, 0, 2, 0, 0, 0, 1, 0, 1, 0, 0, 0, 9, 9}}
				}
			case "small":
				if r.Service == 0x03 {
					w := byte(len(victim.Members) * 8 / 4) // without the 23 bytes that do not count
					rep = &plc.Reply{Data: []byte{4, 0, 4, 0, 0, 0, w, byte(len(victim.Members) * 2 >> 8), 0, 0, 5, 0, 0, 0, 4, 0, 0, 0, 2, 0, 0, 0, byte(len(victim.Members)), byte(len(victim.Members) >> 8), 1, 0, 0, 0, 9, 9}}
				}
			case "short":
				if r.Service == 0x4C {
					rep = &plc.Reply{Data: make([]byte, len(victim.Members)*8-1)}
				}
			}
			hit = hit || rep != nil
			return rep
		}
		p.Unlock()
		list := func() (gologix.UDTDescriptor, error) {
			var d gologix.UDTDescriptor
			var err error
			if bad := hx.Within(opLimit, func() { d, err = c.ListMembers(uint32(top.ID)) }); bad != "" {
				t.Fatalf("%s: %s", desc, bad)
			}
			return d, err
		}
		got, err := list()
		p.Lock()
		p.Intercept = nil
		p.Unlock()
		if e := p.TakeErrors(); len(e) > 0 {
			t.Fatalf("%s: the controller noted %v", desc, e)
		}
		switch {
		case trouble == "recursive":
			if err == nil {
				t.Fatalf("%s: a structure that contains itself was reported as %s", desc, hx.Short(typeShown(got), 400))
			}
			rec.Case(desc, true, trouble)
			return
		case hit && victim == top:
			if err == nil {
				t.Fatalf("%s: reported as %s", desc, hx.Short(typeShown(got), 400))
			}
			rec.Case(desc, true, trouble)
			return
		case hit && (trouble == "small" || trouble == "short"):
			if err == nil {
				t.Fatalf("%s: reported as %s", desc, hx.Short(typeShown(got), 400))
			}
			rec.Case(desc, true, trouble+" nested")
			return
		case hit:
			if err == nil && typeShown(got) != typeText(top, map[uint16]bool{victim.ID: true}) {
				t.Fatalf("%s: reported as %s", desc, hx.Short(typeShown(got), 400))
			}
			rec.Case(desc, true, trouble+" nested")
			return
		}
		if err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		if g, w := typeShown(got), typeText(top, nil); g != w {
			t.Fatalf("%s:\n got  %s\n want %s", desc, differ(g, w), differ(w, g))
		}
		// the same again, from what is known and afresh
		again, err := list()
		if err != nil || !reflect.DeepEqual(again, got) {
			t.Fatalf("%s: the second answer was %s, %v", desc, hx.Short(typeShown(again), 400), err)
		}
		for k := range all {
			c.KnownTypesByID = map[uint32]gologix.UDTDescriptor{}
			if k > 2 {
				break
			}
			var d gologix.UDTDescriptor
			if bad := hx.Within(opLimit, func() { d, err = c.ListMembers(uint32(all[k].ID)) }); bad != "" {
				t.Fatalf("%s: %s", desc, bad)
			}
			if err != nil || typeShown(d) != typeText(all[k], nil) {
				t.Fatalf("%s: type %d afresh is %s, %v", desc, all[k].ID, hx.Short(typeShown(d), 400), err)
			}
		}
		info, err := c.GetTemplateInstanceAttr(uint32(top.ID))
		if err != nil || info.SizeWords != top.DefWords() || info.SizeBytes != uint32(top.Size) || int(info.MemberCount) != len(top.Members) || info.Handle != top.Handle {
			t.Fatalf("%s: the attributes are %+v, %v", desc, info, err)
		}
		// a type the controller does not have
		if _, err := c.ListMembers(0xFFE); err == nil {
			t.Fatalf("%s: a type that does not exist was reported", desc)
		} else if e := new(gologix.CIPStatusError); !errors.As(err, e) || e.Status != 5 {
			t.Fatalf("%s: a type that does not exist: %v", desc, err)
		}
		rec.Case(desc, len(top.Members) > 0, fmt.Sprintf("types %d", min(len(all), 5)), fmt.Sprintf("parts %d", min(calls, 6)))
	})
}

// differ is the part of a from shortly before it differs from b.
func differ(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return strings.TrimSpace("..." + hx.Short(a[max(0, i-80):], 300))
}
