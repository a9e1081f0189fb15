package props

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// segsOfText parses a tag name by the controller's rules: names separated by
// dots, each with at most one bracketed list of indexes, possibly ending in a
// bit number. ok is false when the text is not a tag name.
func segsOfText(path string) (segs []plc.Seg, bit int, ok bool) {
	bit = -1
	parts := strings.Split(path, ".")
	for i, part := range parts {
		name, idx := part, ""
		if k := strings.IndexByte(part, '['); k >= 0 {
			if !strings.HasSuffix(part, "]") {
				return nil, 0, false
			}
			name, idx = part[:k], part[k+1:len(part)-1]
			if idx == "" || strings.ContainsAny(idx, "[]") {
				return nil, 0, false
			}
		}
		if i == len(parts)-1 && i > 0 && idx == "" && strings.Trim(name, "0123456789") == "" && name != "" && name == part {
			n, err := strconv.Atoi(name)
			if err != nil || n > 63 {
				return nil, 0, false
			}
			return segs, n, true
		}
		if name == "" || len(name) > 255 || strings.ContainsAny(name, "] ") || name[0] >= '0' && name[0] <= '9' {
			return nil, 0, false
		}
		segs = append(segs, plc.Seg{Kind: 's', Name: name})
		if idx != "" {
			for _, x := range strings.Split(idx, ",") {
				n, err := strconv.ParseUint(strings.TrimSpace(x), 10, 64)
				if err != nil || n > math.MaxUint32 {
					return nil, 0, false
				}
				segs = append(segs, plc.Seg{Kind: 'e', Num: uint32(n)})
			}
		}
	}
	return segs, bit, true
}

// c08World draws tags whose names collide as much as names can.
func c08World(t *rapid.T, p *plc.PLC) *hx.World {
	w := hx.GenWorld(t, p, hx.WorldOpts{MinTags: 2, MaxTags: 6, Structs: true, Strings: true, Programs: true, BigIndex: true,
		StructOpts: hx.StructOpts{Depth: 2, Arrays: true, MaxFields: 6}})
	// per scope instance numbers, of every width
	next := map[string]uint32{}
	tags := append([]*plc.Tag(nil), p.Tags()...)
	for _, tg := range tags {
		next[tg.Program] += uint32(rapid.SampledFrom([]int{1, 2, 200, 255, 40000, 65536}).Draw(t, "inststep"))
		tg.Instance = next[tg.Program]
	}
	// the same names again in another scope, and close relatives
	for i, tg := range tags {
		if rapid.IntRange(0, 2).Draw(t, "twin") != 0 {
			continue
		}
		prog := ""
		if len(p.Programs) > 0 && tg.Program == "" {
			prog = rapid.SampledFrom(p.Programs).Draw(t, "twinprog").Name
		}
		name := tg.Name
		if prog == tg.Program {
			name += rapid.SampledFrom([]string{"_", "1", "x"}).Draw(t, "suffix")
		}
		dup := false
		for _, o := range p.Tags() {
			dup = dup || strings.EqualFold(o.Name, name) && strings.EqualFold(o.Program, prog)
		}
		if dup {
			continue
		}
		next[prog]++
		n := &plc.Tag{Name: name, Program: prog, Type: plc.DINT, Instance: next[prog]}
		p.AddTag(n)
		b := make([]byte, 4)
		for k := range b {
			b[k] = byte(0x50 + i + k)
		}
		p.Set(n, 0, b)
		path := name
		if prog != "" {
			path = "Program:" + prog + "." + name
		}
		w.Vars = append(w.Vars, hx.Var{Path: path, Type: reflect.TypeOf(int32(0)), CIP: plc.DINT, Tag: n, Bit: -1, Avail: 1, ESize: 4, Class: "scalar"})
	}
	return w
}

// spelling changes the letter case and the blanks between indexes.
func spelling(t *rapid.T, path string) string {
	path = hx.RandCase(t, path, "case")
	if rapid.IntRange(0, 4).Draw(t, "mixcase") == 0 {
		b := []byte(path)
		bits := rapid.Uint64().Draw(t, "casebits")
		for i := range b {
			c := string(b[i : i+1])
			if bits>>(uint(i)%64)&1 == 1 {
				c = strings.ToUpper(c)
			} else {
				c = strings.ToLower(c)
			}
			b[i] = c[0]
		}
		path = string(b)
	}
	if strings.Contains(path, ",") && rapid.IntRange(0, 3).Draw(t, "blank") == 0 {
		path = strings.ReplaceAll(path, ",", ", ")
	}
	return path
}

func isTagService(s byte) bool { return s == 0x4C || s == 0x4D || s == 0x52 || s == 0x53 }

func TestC08(t *testing.T) {
	rec := hx.For("C08")
	rec.Rule("one controller with colliding names in several scopes and 3-14 steps: reads, writes and batches of its tags in varying spelling, listing of all tags (firmware above and below the version that allows numbers), tags renumbered and listed again; non-trivial when at least two different tags were addressed and one name was used twice")
	rec.Assume("what a path denotes is decided by the model controller's resolution of the decoded segments")
	hx.Check(t, "C08", 2400, func(t *rapid.T) {
		p := shared.Get()
		w := c08World(t, p)
		p.Identity.Major = byte(rapid.SampledFrom([]int{32, 32, 21, 20, 16}).Draw(t, "firmware"))
		p.DirectPrograms = rapid.IntRange(0, 3).Draw(t, "direct") != 0
		c := hx.Connected(t, p, nil)
		defer c.Disconnect()
		used := map[string]int{}
		reuse := false
		desc := fmt.Sprintf("fw%d ", p.Identity.Major)
		k := rapid.IntRange(3, 14).Draw(t, "steps")
		nlist := 0
		for i := 0; i < k; i++ {
			op := rapid.SampledFrom([]string{"read", "read", "write", "map", "list", "wmap", "discover", "renumber"}).Draw(t, "op")
			p.TakeLog()
			var vs []hx.Var
			var what string
			var err error
			var bad string
			switch op {
			case "discover":
				if nlist++; nlist > 3 {
					continue
				}
				bad = hx.Within(opLimit, func() { err = c.ListAllTags(0) })
				if bad != "" || err != nil {
					t.Fatalf("ListAllTags: %v %s; controller noted %v", err, bad, p.TakeErrors())
				}
				desc += "discover; "
				continue
			case "renumber":
				// tags get new numbers (an edit on the controller), the user lists again
				if nlist == 0 || nlist > 3 {
					continue
				}
				nlist++
				p.Lock()
				for j, tg := range p.Tags() {
					tg.Instance = tg.Instance ^ 1 + uint32(j)*2
				}
				p.Unlock()
				seen := map[string]bool{}
				for _, tg := range p.Tags() { // keep numbers unique per scope
					for seen[fmt.Sprint(strings.ToLower(tg.Program), tg.Instance)] || tg.Instance == 0 {
						tg.Instance += 7
					}
					seen[fmt.Sprint(strings.ToLower(tg.Program), tg.Instance)] = true
				}
				if err := c.ListAllTags(0); err != nil {
					t.Fatalf("second ListAllTags: %v", err)
				}
				desc += "renumber; "
				continue
			case "read":
				v := rapid.SampledFrom(w.Vars).Draw(t, "var")
				how := rapid.SampledFrom(readHows(v)).Draw(t, "how")
				path := spelling(t, v.Path)
				vs = []hx.Var{v}
				what = fmt.Sprintf("read %q by %s", path, how)
				bad = hx.Within(opLimit, func() { _, _, err = readVar(c, v, 1, how, path) })
			case "write":
				v := rapid.SampledFrom(w.Vars).Draw(t, "var")
				val := reflect.New(v.Type).Elem()
				hx.Fill(t, val, "val")
				path := spelling(t, v.Path)
				vs = []hx.Var{v}
				what = fmt.Sprintf("write %q", path)
				bad = hx.Within(opLimit, func() { err = c.Write(path, val.Interface()) })
			case "map", "wmap", "list":
				n := rapid.IntRange(1, 4).Draw(t, "n")
				m := map[string]any{}
				var names []string
				var types []any
				var elems []int
				for j := 0; j < n; j++ {
					v := rapid.SampledFrom(w.Vars).Draw(t, "var")
					if v.Type.Kind() == reflect.Struct && op != "wmap" {
						continue
					}
					path := spelling(t, v.Path)
					if _, dup := m[path]; dup {
						continue
					}
					val := reflect.New(v.Type).Elem()
					hx.Fill(t, val, "val")
					m[path] = val.Interface()
					names = append(names, path)
					types = append(types, reflect.Zero(v.Type).Interface())
					elems = append(elems, 1)
					vs = append(vs, v)
				}
				if len(vs) == 0 {
					continue
				}
				what = fmt.Sprintf("%s of %q", op, names)
				bad = hx.Within(opLimit, func() {
					switch op {
					case "map":
						err = c.ReadMap(m)
					case "wmap":
						err = c.WriteMap(m)
					default:
						_, err = c.ReadList(names, types, elems)
					}
				})
			}
			if bad != "" {
				t.Fatalf("%s: %s", what, bad)
			}
			log := p.TakeLog()
			if err != nil {
				if op == "wmap" || tooBigForStruct(vs[0], 1, c) {
					// batches may be refused as too large; where they went is judged below
					rec.Class("failed " + op)
				} else {
					t.Fatalf("%s failed: %v; controller noted %v", what, err, p.TakeErrors())
				}
			}
			hits := make([]int, len(vs))
			for _, r := range log {
				if !isTagService(r.Service) {
					continue
				}
				pl, ok := p.Resolve(r.Path)
				if !ok {
					t.Fatalf("%s addressed %s, which does not exist", what, plc.SegsString(r.Path))
				}
				found := false
				for j, v := range vs {
					if pl.Tag == v.Tag && pl.Off == v.Off && (v.Bit < 0 || pl.Bit == v.Bit) {
						hits[j]++
						found = true
					}
				}
				if !found {
					t.Fatalf("%s addressed %s/%s byte %d bit %d by path %s", what, pl.Tag.Program, pl.Tag.Name, pl.Off, pl.Bit, plc.SegsString(r.Path))
				}
				if r.Path[0].Kind == 'c' {
					rec.Class("by number")
				} else {
					rec.Class("by name")
				}
			}
			for j, h := range hits {
				if h == 0 && err == nil {
					t.Fatalf("%s sent no request for %s", what, vs[j].Path)
				}
				used[vs[j].Path]++
				if used[vs[j].Path] > 1 {
					reuse = true
				}
			}
			desc += what + "; "
			rec.Class("op:" + op)
		}
		if e := p.TakeErrors(); e != nil {
			t.Fatalf("malformed requests: %v", e)
		}
		rec.Case(desc, reuse && len(used) > 1)
	})
}

// Any text: a proper tag name is sent as exactly that name, anything else is
// refused or at least never reaches an existing tag.
func TestC08Text(t *testing.T) {
	rec := hx.For("C08")
	rec.Rule("generated tag name texts, proper and improper, read and written on a controller with similarly named tags; non-trivial when a request was decoded and compared or an improper text was tried")
	hx.Check(t, "C08", 3000, func(t *rapid.T) {
		p := shared.Get()
		mem := func(name string, dims ...int) *plc.Tag {
			tg := p.AddTag(&plc.Tag{Name: name, Type: plc.DINT, Dims: dims})
			return tg
		}
		mem("a")
		mem("b", 300)
		mem("abc", 3, 4)
		mem("tag1")
		mem("x_1", 70000)
		ut := &plc.Template{ID: 0x123, Handle: 0x4321, Name: "U", Size: 12, Members: []plc.Member{{Name: "a", Type: plc.DINT}, {Name: "b", Type: plc.INT, Count: 4, Offset: 4}}}
		p.AddTag(&plc.Tag{Name: "u", Type: plc.STRUCT, Tmpl: ut})
		p.Programs = append(p.Programs, plc.Program{Name: "Main", ID: 0x55})
		p.AddTag(&plc.Tag{Name: "a", Type: plc.DINT, Program: "Main", Instance: 1})
		p.AddTag(&plc.Tag{Name: "main", Type: plc.STRUCT, Tmpl: &plc.Template{ID: 0x124, Handle: 0x4322, Name: "V", Size: 12, Members: ut.Members}})
		c := hx.Connected(t, p, nil)
		defer c.Disconnect()
		if rapid.IntRange(0, 3).Draw(t, "discover") == 0 {
			if err := c.ListAllTags(0); err != nil {
				t.Fatalf("ListAllTags: %v", err)
			}
		}
		n := rapid.IntRange(1, 8).Draw(t, "n")
		desc := ""
		for i := 0; i < n; i++ {
			path := genPathText(t)
			segs, bit, proper := segsOfText(path)
			op := rapid.SampledFrom([]string{"read", "write", "map", "wmap", "list", "single"}).Draw(t, "op")
			before := p.Snapshot()
			p.TakeLog()
			p.TakeErrors()
			var err error
			bad := hx.Within(opLimit, func() {
				switch op {
				case "read":
					var x int32
					err = c.Read(path, &x)
				case "write":
					err = c.Write(path, int32(0x1234567))
				case "map":
					err = c.ReadMap(map[string]any{path: int32(0)})
				case "wmap":
					err = c.WriteMap(map[string]any{path: int32(0x1234567)})
				case "list":
					_, err = c.ReadList([]string{path}, []any{int32(0)}, []int{1})
				case "single":
					_, err = c.Read_single(path, gologix.CIPTypeDINT, 1)
				}
			})
			what := fmt.Sprintf("%s %q", op, path)
			if bad != "" {
				t.Fatalf("%s: %s", what, bad)
			}
			sent := 0
			for _, r := range p.TakeLog() {
				if !isTagService(r.Service) {
					continue
				}
				sent++
				if proper {
					want, _ := p.Resolve(segs)
					pl, ok := p.Resolve(r.Path)
					same := plc.SegsString(r.Path) == plc.SegsString(segs)
					if ok && r.Path[0].Kind == 'c' {
						same = pl == want
					}
					if !same {
						t.Fatalf("%s sent path %s, want %s", what, plc.SegsString(r.Path), plc.SegsString(segs))
					}
				} else if pl, ok := p.Resolve(r.Path); ok {
					t.Fatalf("%s is no tag name but addressed %s byte %d (path %s)", what, pl.Tag.Name, pl.Off, plc.SegsString(r.Path))
				}
			}
			if proper && sent == 0 && err == nil {
				t.Fatalf("%s succeeded without a request", what)
			}
			total := 0
			for _, s := range segs {
				switch {
				case s.Kind == 's':
					total += 2 + len(s.Name) + len(s.Name)%2
				case s.Num < 256:
					total += 2
				case s.Num < 65536:
					total += 4
				default:
					total += 6
				}
			}
			if proper && sent == 0 && bit < 0 && total <= 510 {
				t.Fatalf("%s was not sent: %v", what, err)
			}
			if proper && total > 510 && err == nil {
				t.Fatalf("%s has a path of %d bytes, which cannot be sent, yet it succeeded", what, total)
			}
			if !proper && err == nil {
				t.Fatalf("%s is no tag name but succeeded", what)
			}
			if !proper || err != nil {
				if d := diffOutside(before, p.Snapshot(), "", 0, 0); d != "" {
					t.Fatalf("%s failed (%v) but changed memory: %s", what, err, d)
				}
			}
			desc += what + "; "
			if proper {
				rec.Class("proper")
			} else {
				rec.Class("improper")
			}
		}
		if e := p.TakeErrors(); e != nil {
			t.Fatalf("malformed requests: %v", e)
		}
		rec.Case(desc, true)
	})
}

func genPathText(t *rapid.T) string {
	if rapid.IntRange(0, 7).Draw(t, "near") == 0 { // names one slip away from each other
		return rapid.SampledFrom([]string{"Program:Main.a", "main.a", "MAIN.A", "program:MAIN.a", "a", "a.0", "a.1", "main.a.1", "b[1]", "b[10]", "b[0]", "abc[1,2]", "abc[12]", "abc[2,1]", "main.b[1]", "b"}).Draw(t, "nearpath")
	}
	var parts []string
	if rapid.IntRange(0, 4).Draw(t, "prog") == 0 {
		parts = append(parts, rapid.SampledFrom([]string{"Program:Main", "program:main", "Program:Other", "Program:"}).Draw(t, "p"))
	}
	n := rapid.IntRange(1, 4).Draw(t, "nparts")
	if rapid.IntRange(0, 30).Draw(t, "many") == 0 {
		n = rapid.IntRange(10, 130).Draw(t, "nmany")
	}
	for i := 0; i < n; i++ {
		s := rapid.SampledFrom([]string{"a", "b", "abc", "tag1", "x_1", "u", "A", "TAG1", "u", "B", "long"}).Draw(t, "name")
		if s == "long" {
			s = "q" + strings.Repeat("w", rapid.SampledFrom([]int{38, 39, 40, 200, 253, 254, 255, 256, 300}).Draw(t, "len"))
		}
		if rapid.IntRange(0, 2).Draw(t, "idx") == 0 {
			k := rapid.IntRange(1, 3).Draw(t, "nidx")
			var ix []string
			for j := 0; j < k; j++ {
				x := rapid.OneOf(rapid.Uint64Range(0, 12), rapid.SampledFrom([]uint64{0, 1, 254, 255, 256, 257, 65535, 65536, 65537, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<63 - 1})).Draw(t, "x")
				ix = append(ix, fmt.Sprint(x))
			}
			s += "[" + strings.Join(ix, rapid.SampledFrom([]string{",", ", ", " , "}).Draw(t, "sep")) + "]"
		}
		parts = append(parts, s)
	}
	if rapid.IntRange(0, 5).Draw(t, "bit") == 0 {
		parts = append(parts, fmt.Sprint(rapid.SampledFrom([]int{0, 1, 7, 15, 31, 32, 63, 64, 100, 300}).Draw(t, "bitn")))
	}
	s := strings.Join(parts, ".")
	if rapid.IntRange(0, 3).Draw(t, "break") == 0 { // one or two edits that may spoil it
		for k := 0; k < rapid.IntRange(1, 2).Draw(t, "edits"); k++ {
			pos := rapid.IntRange(0, len(s)).Draw(t, "pos")
			switch rapid.IntRange(0, 2).Draw(t, "edit") {
			case 0:
				ins := rapid.SampledFrom([]string{".", "[", "]", ",", " ", "[1]", "[]", "[-1]", "..", "0", "5", "x", "[0", "1]", "-"}).Draw(t, "ins")
				s = s[:pos] + ins + s[pos:]
			case 1:
				if pos < len(s) {
					s = s[:pos] + s[pos+1:]
				}
			case 2:
				s = s[:pos]
			}
		}
	}
	return s
}
