package props

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// genListed adds between lo and hi tags to p.
func genListed(t *rapid.T, p *plc.PLC, n int, progs []string, templates []*plc.Template, used map[string]bool, inst map[string]uint32) {
	for i := 0; i < n; i++ {
		tag := &plc.Tag{}
		if len(progs) > 0 && rapid.IntRange(0, 2).Draw(t, "in program") == 0 {
			tag.Program = progs[rapid.IntRange(0, len(progs)-1).Draw(t, "program")]
		}
		switch rapid.IntRange(0, 19).Draw(t, "kind of name") {
		case 0:
			tag.Name = "__" + hx.GenName(t, "name")
		case 1:
			tag.Name = "Local:" + hx.GenName(t, "name")
		case 2:
			tag.Name = "Program" + hx.GenName(t, "name")
		default:
			tag.Name = hx.GenName(t, "name")
		}
		for k := 0; used[strings.ToLower(tag.Program+"/"+tag.Name)]; k++ {
			tag.Name = fmt.Sprintf("%.30s_%d", tag.Name, k)
		}
		used[strings.ToLower(tag.Program+"/"+tag.Name)] = true
		scope := strings.ToLower(tag.Program)
		inst[scope] += uint32(rapid.SampledFrom([]int{1, 1, 1, 1, 2, 50, 255, 300, 7000}).Draw(t, "gap"))
		tag.Instance = inst[scope]
		switch rapid.IntRange(0, 5).Draw(t, "type") {
		case 0:
			tag.Type, tag.Tmpl = plc.STRUCT, plc.StringTemplate
		case 1:
			if len(templates) > 0 {
				tag.Type, tag.Tmpl = plc.STRUCT, templates[rapid.IntRange(0, len(templates)-1).Draw(t, "template")]
				break
			}
			fallthrough
		default:
			tag.Type = rapid.SampledFrom(memberAtoms).Draw(t, "atom")
		}
		if tag.Type != plc.BOOL {
			for k := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(t, "dims"); k > 0; k-- {
				tag.Dims = append(tag.Dims, rapid.IntRange(1, 7).Draw(t, "dim"))
			}
			if len(tag.Dims) > 0 && tag.Type != plc.STRUCT && rapid.IntRange(0, 7).Draw(t, "big") == 0 {
				for k := range tag.Dims {
					tag.Dims[k] = 1
				}
				tag.Dims[rapid.IntRange(0, len(tag.Dims)-1).Draw(t, "which")] = rapid.SampledFrom([]int{255, 256, 257, 65535, 65536, 65537, 70000}).Draw(t, "big dim")
			}
		}
		tag.System = strings.HasPrefix(tag.Name, "__") && rapid.Bool().Draw(t, "system")
		p.AddTag(tag)
		b := make([]byte, len(tag.Data))
		s := rapid.Byte().Draw(t, "data")
		for k := range b {
			b[k] = byte(k)*29 + s
		}
		if tag.Tmpl == plc.StringTemplate {
			b = bytes.Repeat(plc.EncodeString(fmt.Sprintf("text %d", s)), tag.Count())
		} else if tag.Type == plc.REAL || tag.Type == plc.LREAL {
			for k := range b {
				b[k] &= 0x3F // no NaN
			}
		}
		p.Set(tag, 0, b)
	}
}

// must says whether a tag has to be listed, may whether it may be.
func listedTag(tag *plc.Tag) (must, may bool) {
	if strings.HasPrefix(tag.Name, "__") {
		return false, false
	}
	if strings.Contains(tag.Name, ":") {
		return false, true
	}
	return true, true
}

func listKey(tag *plc.Tag) (key, name string) {
	name = tag.Name
	if tag.Program != "" {
		name = "program:" + tag.Program + "." + tag.Name
	}
	return strings.ToLower(name), name
}

// tagText describes a tag as the controller and as the client know it.
func tagText(tag *plc.Tag, p *plc.PLC, direct, ignoreProgram bool) string {
	_, name := listKey(tag)
	s := fmt.Sprintf("%s #%d %#x %v", name, tag.Instance, tag.SymbolType(), tag.Dims)
	if tag.Program != "" && !ignoreProgram {
		s += " in " + tag.Program
		for _, q := range p.Programs {
			if q.Name == tag.Program && direct {
				s += fmt.Sprint(" ", q.ID)
			}
		}
	}
	if tag.Program == "" && tag.Tmpl != nil && !tag.System {
		s += " " + typeText(tag.Tmpl, nil)
	}
	return s
}

func knownText(k gologix.KnownTag, direct bool) string {
	dims := append([]int{}, k.Array_Order...)
	s := fmt.Sprintf("%s #%d %#x %v", k.Name, k.Instance, uint16(k.Info.Type)|uint16(k.Info.TypeInfo)<<8, dims)
	if k.Parent != nil {
		s += " in " + k.Parent.Name
		if direct {
			s += fmt.Sprint(" ", uint32(k.Parent.ID))
		}
	}
	if k.UDT != nil {
		s += " " + typeShown(*k.UDT)
	}
	word := uint16(k.Info.Type) | uint16(k.Info.TypeInfo)<<8
	if k.Info.Atomic() != (word&0x9000 == 0) {
		s += fmt.Sprint(" says it is atomic: ", k.Info.Atomic())
	}
	id := uint16(0)
	if word&0x9000 == 0x8000 {
		id = word & 0xFFF
	}
	if k.Info.Template_ID() != id {
		s += fmt.Sprintf(" says it is of type %#x", k.Info.Template_ID())
	}
	if word&0x9000 == 0 && !k.Info.PreDefined() {
		s += " says it is of no predefined type"
	}
	for i, d := range []uint32{k.Info.Dimension1, k.Info.Dimension2, k.Info.Dimension3} {
		if i < len(dims) && d != uint32(dims[i]) || i >= len(dims) && d != 0 {
			s += " with other dimensions in the type"
		}
	}
	return s
}

var goTypes = map[byte]reflect.Type{
	plc.BOOL: reflect.TypeOf(false), plc.SINT: reflect.TypeOf(int8(0)), plc.INT: reflect.TypeOf(int16(0)), plc.DINT: reflect.TypeOf(int32(0)), plc.LINT: reflect.TypeOf(int64(0)),
	plc.UINT: reflect.TypeOf(uint16(0)), plc.UDINT: reflect.TypeOf(uint32(0)), plc.LWORD: reflect.TypeOf(uint64(0)), plc.REAL: reflect.TypeOf(float32(0)), plc.LREAL: reflect.TypeOf(float64(0)),
	plc.BYTE: reflect.TypeOf(uint8(0)),
}

// TestC24: what is listed is what the controller has.
func TestC24(t *testing.T) {
	rec := hx.For("C24")
	rec.Rule("a controller with at least one listable tag, listed in full and compared; the classes tell how many replies it took, whether programs were found directly, and what was changed between listings")
	rec.Assume("tags whose name begins with __ are not user visible; tags of modules (with a colon) may be left out",
		"where programs cannot be listed directly an entry for the program itself may be among the tags")
	hx.Check(t, "C24", 3000, func(t *rapid.T) {
		p := shared.Get()
		p.Reset()
		direct := rapid.IntRange(0, 3).Draw(t, "direct") != 0
		p.Lock()
		p.DirectPrograms = direct
		p.Unlock()
		used := map[string]bool{}
		inst := map[string]uint32{}
		var progs []string
		progID := uint32(0)
		addProg := func() {
			n := hx.GenName(t, "program")
			for used["p:"+strings.ToLower(n)] {
				n = fmt.Sprintf("%.30s_%d", n, len(progs))
			}
			used["p:"+strings.ToLower(n)] = true
			progs = append(progs, n)
			progID += uint32(rapid.SampledFrom([]int{1, 1, 3, 250, 300, 1200}).Draw(t, "program gap"))
			p.Lock()
			p.Programs = append(p.Programs, plc.Program{Name: n, ID: progID})
			p.Unlock()
		}
		for i := rapid.SampledFrom([]int{0, 0, 1, 2, 5, 40}).Draw(t, "programs"); i > 0; i-- {
			addProg()
		}
		next := newTypeIDs(rapid.SampledFrom([]uint16{0x110, 0x110, 0x1, 0x7E0, 0xC00}).Draw(t, "first type"))
		var templates []*plc.Template
		for i := rapid.IntRange(0, 3).Draw(t, "types"); i > 0; i-- {
			var all []*plc.Template
			tm := genTemplate(t, next, 2, &all)
			tm.Size = rapid.IntRange(1, 40).Draw(t, "size")
			templates = append(templates, tm)
		}
		genListed(t, p, rapid.SampledFrom([]int{0, 1, 2, 3, 8, 20, 60, 160}).Draw(t, "tags"), progs, templates, used, inst)
		plan := rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 2, 3, 10}), 0, 12).Draw(t, "plan")
		replies := 0
		p.Lock()
		p.ListPlan = func(n int) int {
			k := n
			if replies < len(plan) && plan[replies] > 0 {
				k = plan[replies]
			}
			replies++
			return k
		}
		p.Unlock()
		c := hx.NewClient(p)
		c.ConnectionSize = rapid.SampledFrom([]uint16{4000, 511, 511}).Draw(t, "connection size")
		if err := c.Connect(); err != nil {
			hx.Harness("connect: %v", err)
		}
		defer c.Disconnect()
		history := ""
		fail := func(format string, a ...any) {
			t.Fatalf("%s\n  %d programs (direct %v) plan %v size %d %s", fmt.Sprintf(format, a...), len(progs), direct, plan, c.ConnectionSize, history)
		}
		do := func(what string, f func() error) {
			var err error
			if bad := hx.Within(opLimit, func() { err = f() }); bad != "" {
				fail("%s: %s", what, bad)
			}
			if err != nil {
				fail("%s: %v", what, err)
			}
			if e := p.TakeErrors(); len(e) > 0 {
				fail("%s: the controller noted %v", what, e)
			}
		}
		progsRight := func() {
			var want, got []string
			for _, q := range p.Programs {
				if direct {
					want = append(want, fmt.Sprintf("%s %d", q.Name, q.ID))
				} else {
					want = append(want, q.Name)
				}
			}
			for _, q := range c.KnownPrograms {
				if direct {
					got = append(got, fmt.Sprintf("%s %d", q.Name, uint32(q.ID)))
				} else {
					got = append(got, q.Name)
				}
			}
			sort.Strings(want)
			sort.Strings(got)
			if fmt.Sprint(want) != fmt.Sprint(got) {
				fail("the programs are %v, listed are %v", want, got)
			}
		}
		tagsRight := func(scope func(*plc.Tag) bool) int {
			left := map[string]bool{}
			for k := range c.KnownTags {
				left[k] = true
			}
			n := 0
			for _, tag := range p.Tags() {
				must, may := listedTag(tag)
				if !scope(tag) {
					must, may = false, false
				}
				key, _ := listKey(tag)
				k, ok := c.KnownTags[key]
				delete(left, key)
				if ok && !may || !ok && must {
					fail("tag %s: listed is %v", key, ok)
				}
				if ok {
					n++
					if w, g := tagText(tag, p, direct, false), knownText(k, direct); w != g {
						fail("tag %s is\n   %s\n  listed as\n   %s", key, hx.Short(w, 600), hx.Short(g, 600))
					}
				}
			}
			for k := range left {
				if !direct && strings.HasPrefix(k, "program:") && !strings.Contains(k, ".") {
					known := false
					for _, q := range progs {
						known = known || strings.EqualFold(k, "program:"+q)
					}
					if known {
						continue
					}
				}
				fail("tag %s is listed but does not exist", k)
			}
			return n
		}
		// reading what was listed
		read := func() {
			tags := p.Tags()
			for i := 0; i < 6 && len(tags) > 0; i++ {
				tag := tags[rapid.IntRange(0, len(tags)-1).Draw(t, "read")]
				if must, _ := listedTag(tag); !must {
					continue
				}
				_, name := listKey(tag)
				gt := goTypes[tag.Type]
				if tag.Tmpl == plc.StringTemplate && tag.Count() < 5 {
					gt = reflect.TypeOf("") // more of them need a read in pieces, which is refused
				}
				if gt == nil || tag.Count() > 65535 {
					continue
				}
				n := 1
				switch len(tag.Dims) {
				case 0:
				case 1:
					n = tag.Count()
				default:
					continue
				}
				name = hx.RandCase(t, name, "case")
				var dst reflect.Value
				if n > 1 {
					dst = reflect.New(reflect.SliceOf(gt))
					dst.Elem().Set(reflect.MakeSlice(reflect.SliceOf(gt), n, n))
				} else {
					dst = reflect.New(gt)
				}
				do("reading "+name, func() error {
					if n > 1 {
						return c.Read(name, dst.Elem().Interface())
					}
					return c.Read(name, dst.Interface())
				})
				got := hx.EncodeAny(dst.Elem())
				want := p.Get(tag)
				if tag.Type == plc.BOOL {
					got, want = []byte{got[0] & 1}, []byte{want[0] & 1}
					if p.Get(tag)[0] != 0 {
						want[0] = 1
					}
				}
				if !bytes.Equal(got, want) {
					fail("reading %s (%s) gave %x instead of %x", name, tagText(tag, p, direct, false), got, want)
				}
			}
		}
		// the types known are those of the controller's tags
		typesRight := func() {
			want := map[string]map[string]bool{}
			for _, tag := range p.Tags() {
				if _, may := listedTag(tag); tag.Tmpl != nil && !tag.System && may {
					if want[tag.Tmpl.Name] == nil {
						want[tag.Tmpl.Name] = map[string]bool{}
					}
					want[tag.Tmpl.Name][typeText(tag.Tmpl, nil)] = true
				}
			}
			for name, u := range c.KnownTypes {
				if got := typeShown(u); !want[name][got] {
					fail("the type %s is known as\n   %s\n  but no tag has it", name, hx.Short(got, 600))
				}
			}
			for _, tag := range p.Tags() {
				if must, _ := listedTag(tag); must && tag.Program == "" && tag.Tmpl != nil && !tag.System {
					if _, ok := c.KnownTypes[tag.Tmpl.Name]; !ok {
						fail("the type %s of %s is not known", tag.Tmpl.Name, tag.Name)
					}
				}
			}
		}
		everything := func(*plc.Tag) bool { return true }
		// part of the list first
		switch rapid.IntRange(0, 3).Draw(t, "first") {
		case 0:
			from := uint32(rapid.IntRange(2, 400).Draw(t, "from"))
			do("listing from an instance", func() error { return c.ListAllTags(from) })
			if direct {
				tagsRight(func(tag *plc.Tag) bool { return tag.Program == "" && tag.Instance >= from })
			}
			history += fmt.Sprintf("listed from %d;", from)
		case 1:
			if !direct {
				break
			}
			do("listing programs", c.ListAllPrograms)
			progsRight()
			if len(progs) > 0 {
				q := p.Programs[rapid.IntRange(0, len(p.Programs)-1).Draw(t, "sub")]
				kp := &gologix.KnownProgram{Name: q.Name}
				if rapid.Bool().Draw(t, "by id") {
					kp.ID = gologix.CIPInstance(q.ID)
				}
				from := uint32(0)
				if rapid.IntRange(0, 2).Draw(t, "sub from") == 0 {
					from = uint32(rapid.IntRange(1, 300).Draw(t, "from"))
				}
				var l []gologix.KnownTag
				do("listing a program", func() (err error) { l, err = c.ListSubTags(kp, from); return })
				in := func(tag *plc.Tag) bool { return tag.Program == q.Name && tag.Instance >= from }
				var want, got []string
				for _, tag := range p.Tags() {
					if must, may := listedTag(tag); in(tag) && (must || may) {
						s := tagText(tag, p, false, true)
						if must {
							want = append(want, s)
						}
					}
				}
				for _, k := range l {
					if strings.Contains(strings.TrimPrefix(k.Name, "program:"), ":") {
						continue
					}
					par := k.Parent
					k.Parent, k.UDT = nil, nil
					if par == nil || par.Name != q.Name {
						fail("%s has the parent %v", k.Name, par)
					}
					got = append(got, knownText(k, direct))
				}
				sort.Strings(want)
				sort.Strings(got)
				if fmt.Sprint(want) != fmt.Sprint(got) {
					fail("the tags of %s from %d are %v, listed are %v", q.Name, from, want, got)
				}
			}
			history += "listed programs;"
		}
		do("listing all", func() error { return c.ListAllTags(uint32(rapid.IntRange(0, 1).Draw(t, "start"))) })
		n := tagsRight(everything)
		typesRight()
		progsRight()
		read()
		classes := []string{fmt.Sprintf("replies %d", min(replies, 20)/4*4), fmt.Sprintf("direct %v", direct)}
		// the controller changes
		if rapid.Bool().Draw(t, "change") {
			kind := rapid.SampledFrom([]string{"add", "remove", "types", "programs", "fewer programs"}).Draw(t, "what")
			history += kind + ";"
			p.Lock()
			tags := append([]*plc.Tag(nil), p.Tags()...)
			programs := append([]plc.Program(nil), p.Programs...)
			p.Unlock()
			rebuild := func(keep func(i int, tag *plc.Tag) *plc.Tag) {
				p.ClearTags()
				p.Lock()
				p.Programs = programs
				p.Unlock()
				for i, tag := range tags {
					if tag = keep(i, tag); tag != nil {
						d := tag.Data
						p.AddTag(tag)
						if len(d) == len(tag.Data) {
							p.Set(tag, 0, d)
						}
					}
				}
			}
			switch kind {
			case "add":
				genListed(t, p, rapid.IntRange(1, 10).Draw(t, "more"), progs, templates, used, inst)
			case "programs":
				addProg()
				genListed(t, p, rapid.IntRange(1, 6).Draw(t, "more"), progs[len(progs)-1:], templates, used, inst)
			case "remove":
				mask := rapid.Uint64().Draw(t, "gone")
				rebuild(func(i int, tag *plc.Tag) *plc.Tag {
					if mask>>(i%64)&1 == 1 {
						return nil
					}
					return tag
				})
			case "fewer programs":
				mask := rapid.Uint64().Draw(t, "gone")
				gone := map[string]bool{}
				var left []plc.Program
				for i, q := range programs {
					if mask>>(i%64)&1 == 1 {
						gone[q.Name] = true
						continue
					}
					left = append(left, q)
				}
				programs = left
				rebuild(func(i int, tag *plc.Tag) *plc.Tag {
					if gone[tag.Program] {
						return nil
					}
					return tag
				})
			case "types":
				// the same template numbers now stand for other structures
				other := map[*plc.Template]*plc.Template{}
				for _, tm := range templates {
					id := tm.ID
					var all []*plc.Template
					o := genTemplate(t, next, 2, &all)
					o.ID, o.Size = id, tm.Size
					other[tm] = o
				}
				rebuild(func(i int, tag *plc.Tag) *plc.Tag {
					if o := other[tag.Tmpl]; o != nil {
						tag.Tmpl = o
					}
					return tag
				})
			}
			replies = 0
			do("listing again", func() error { return c.ListAllTags(0) })
			n += tagsRight(everything)
			typesRight()
			progsRight()
			read()
			classes = append(classes, "then "+kind)
		}
		rec.Case(fmt.Sprintf("%d programs direct %v plan %v, %d tags listed, %s", len(progs), direct, plan, n, history), n > 0, classes...)
	})
}
