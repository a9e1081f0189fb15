package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
)

// c18Tag is a tag of the server.
type c18Tag struct {
	name string
	et   reflect.Type
	n    int // 0: not an array
}

// c18Want is a value a client asks for or writes.
type c18Want struct {
	tag  c18Tag
	path string // as given to the client
	elem int    // element of the array, -1 for the tag itself
	n    int    // elements
}

// typed reads the value at w from the model.
func (w c18Want) in(m c22Model) any {
	v := m[strings.ToLower(w.tag.name)]
	if w.tag.n == 0 {
		return v
	}
	r := reflect.ValueOf(v)
	i := w.elem
	if i < 0 {
		i = 0
	}
	if w.n == 1 {
		return r.Index(i).Interface()
	}
	return c22Copy(r.Slice(i, i+w.n).Interface())
}

// sameData compares what a client returned with the value it should be.
// Arrays may come as []any.
func sameData(got, want any) bool {
	if c22Same(got, want) {
		return true
	}
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	if !g.IsValid() || !w.IsValid() || g.Kind() != reflect.Slice {
		return false
	}
	if w.Kind() != reflect.Slice {
		return g.Len() == 1 && sameVal(g.Index(0).Interface(), want)
	}
	if g.Len() != w.Len() {
		return false
	}
	for i := 0; i < g.Len(); i++ {
		if !sameVal(g.Index(i).Interface(), w.Index(i).Interface()) {
			return false
		}
	}
	return true
}

// lists turns a slice into the []any the server hands to providers.
func listed(v any) any {
	r := reflect.ValueOf(v)
	if r.Kind() != reflect.Slice {
		return v
	}
	if r.Len() == 1 {
		return r.Index(0).Interface()
	}
	out := make([]any, r.Len())
	for i := range out {
		out[i] = r.Index(i).Interface()
	}
	return out
}

func TestC18(t *testing.T) {
	rec := hx.For("C18")
	rec.Rule("a history of at least 6 operations by clients and the hosting program that includes a batch and an array or string, over one or two endpoints")
	rec.Assume("a write too large for the connection may be refused, changing nothing",
		"tags are of the types the library's server can carry: boolean, integers, reals, strings and arrays of all but booleans")
	hx.Check(t, "C18", 5000, func(t *rapid.T) {
		_, eps := startServer()
		n := rapid.IntRange(1, 2).Draw(t, "endpoints")
		type side struct {
			ep   *endpoint
			prov *gologix.MapTagProvider
			m    c22Model
			tags []c18Tag
		}
		var sides []*side
		for i := 0; i < n; i++ {
			s := &side{ep: eps[rapid.IntRange(0, len(eps)-1).Draw(t, "path")], prov: &gologix.MapTagProvider{}, m: c22Model{}}
			if len(sides) > 0 && s.ep == sides[0].ep {
				break
			}
			used := map[string]bool{}
			for j := rapid.IntRange(1, 6).Draw(t, "tags"); j > 0; j-- {
				tag := c18Tag{name: hx.GenName(t, "name"), et: rapid.SampledFrom(srvElems).Draw(t, "type")}
				if rapid.IntRange(0, 4).Draw(t, "udt") == 0 {
					tag.name += "." + hx.GenName(t, "member")
				}
				if rapid.IntRange(0, 5).Draw(t, "prog") == 0 {
					tag.name = "Program:" + tag.name
				}
				if used[strings.ToLower(tag.name)] || len(tag.name) > 80 {
					continue
				}
				used[strings.ToLower(tag.name)] = true
				if tag.et.Kind() != reflect.Bool && rapid.Bool().Draw(t, "array") {
					tag.n = rapid.IntRange(2, 12).Draw(t, "len")
					if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
						tag.n = rapid.IntRange(13, 600).Draw(t, "longlen")
					}
				}
				var v any
				if tag.n > 0 {
					v = srvSlice(t, tag.et, tag.n, "v")
				} else {
					v = srvGen(t, tag.et, "v")
				}
				s.m[strings.ToLower(tag.name)] = v
				s.tags = append(s.tags, tag)
				if err := s.prov.TagWrite(tag.name, c22Copy(v)); err != nil {
					t.Fatalf("the provider refuses a new tag %s: %v", tag.name, err)
				}
			}
			if len(s.tags) == 0 {
				continue
			}
			s.ep.set(s.prov)
			sides = append(sides, s)
		}
		if len(sides) == 0 {
			t.Skip("no tags")
		}
		type user struct {
			c *gologix.Client
			s *side
		}
		var users []*user
		defer func() {
			for _, u := range users {
				u.c.Disconnect()
			}
		}()
		for i := rapid.IntRange(1, 3).Draw(t, "clients"); i > 0; i-- {
			u := &user{s: sides[rapid.IntRange(0, len(sides)-1).Draw(t, "side")]}
			u.c = serverClient(u.s.ep.path)
			u.c.AutoConnect = false
			u.c.ConnectionSize = rapid.SampledFrom([]uint16{4000, 4000, 500, 200}).Draw(t, "size")
			if err := u.c.Connect(); err != nil {
				t.Fatalf("connecting to path %v: %v", u.s.ep.path, err)
			}
			users = append(users, u)
		}
		hist := []string{}
		classes := map[string]bool{}
		fatal := func(f string, a ...any) {
			t.Helper()
			t.Fatalf(f+"\nafter %s", append(a, strings.Join(hist, "; "))...)
		}
		verify := func() {
			for _, s := range sides {
				for _, g := range s.tags {
					q := 1
					if g.n > 0 {
						q = g.n
					}
					v, err := s.prov.TagRead(g.name, int16(q))
					if want := s.m[strings.ToLower(g.name)]; err != nil || !c22Same(v, want) {
						fatal("the program's tag %s is %T %v (%v), should be %T %v", g.name, v, v, err, want, want)
					}
				}
			}
		}
		// a place in a tag that exists
		place := func(s *side, l string) c18Want {
			w := c18Want{tag: s.tags[rapid.IntRange(0, len(s.tags)-1).Draw(t, l)], elem: -1, n: 1}
			w.path = hx.RandCase(t, w.tag.name, "case")
			if w.tag.n > 0 {
				if rapid.Bool().Draw(t, "elem") {
					w.elem = rapid.IntRange(0, w.tag.n-1).Draw(t, "i")
					w.path += fmt.Sprintf("[%d]", w.elem)
				}
				from := w.elem
				if from < 0 {
					from = 0
				}
				if rapid.Bool().Draw(t, "range") {
					w.n = rapid.IntRange(1, w.tag.n-from).Draw(t, "n")
				}
			}
			return w
		}
		missing := func(s *side) string {
			g := s.tags[rapid.IntRange(0, len(s.tags)-1).Draw(t, "near")]
			switch k := rapid.IntRange(0, 3).Draw(t, "missing"); {
			case k == 0 && g.n > 0:
				return fmt.Sprintf("%s[%d]", g.name, g.n+rapid.SampledFrom([]int{0, 1, 255, 256, 65536}).Draw(t, "past"))
			case k == 1:
				return g.name + "x9"
			case k == 2:
				return g.name + ".nomember"
			}
			return "NoSuchTag"
		}
		exists := func(s *side, p string) bool {
			key, _, _ := s.m.locate(p)
			_, ok := s.m[key]
			return ok && !strings.Contains(p, "[")
		}
		// taken compares the calls the endpoint got with the expected ones, in any order.
		taken := func(s *side, op string, want []string) {
			var got []string
			for _, c := range s.ep.take() {
				if c.op == "write" {
					got = append(got, fmt.Sprintf("write %s %T %#v", strings.ToLower(c.tag), c.val, c.val))
				} else if c.op == "read" {
					got = append(got, fmt.Sprintf("read %s %d", strings.ToLower(c.tag), c.qty))
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				fatal("%s reached the program as\n%s\nshould be\n%s", op, hx.Short(strings.Join(got, "\n"), 600), hx.Short(strings.Join(want, "\n"), 600))
			}
		}
		writes := func(w c18Want, v any) string {
			v = listed(v)
			return fmt.Sprintf("write %s %T %#v", strings.ToLower(w.path), v, v)
		}
		within := func(d string, f func()) {
			if p := hx.Within(opLimit, f); p != "" {
				fatal("%s: %s", d, p)
			}
		}
		value := func(w c18Want) any {
			if w.tag.n > 0 && w.n > 1 {
				return srvSlice(t, w.tag.et, w.n, "wv")
			}
			return srvGen(t, w.tag.et, "wv")
		}
		store := func(s *side, w c18Want, v any) {
			key := strings.ToLower(w.tag.name)
			if w.tag.n == 0 {
				s.m[key] = v
				return
			}
			i := w.elem
			if i < 0 {
				i = 0
			}
			s.m[key] = c22Put(s.m[key], i, v).val
		}
		steps := rapid.IntRange(4, 16).Draw(t, "steps")
		for k := 0; k < steps; k++ {
			u := users[rapid.IntRange(0, len(users)-1).Draw(t, "user")]
			s, c := u.s, u.c
			s.ep.take()
			switch what := rapid.SampledFrom([]string{"read", "read", "write", "write", "readmap", "readlist", "readstruct", "writemap", "host", "missing", "missingbatch", "writemissing", "reconnect"}).Draw(t, "what"); what {
			case "read":
				w := place(s, "tag")
				hist = append(hist, fmt.Sprintf("Read(%s, %d of %v)", w.path, w.n, w.tag.et))
				var got any
				var err error
				// a variable or a slice of the right type
				if w.n == 1 && !(w.tag.n > 0 && rapid.Bool().Draw(t, "slice1")) {
					dst := reflect.New(w.tag.et)
					within("Read", func() { err = c.Read(w.path, dst.Interface()) })
					got = dst.Elem().Interface()
				} else {
					dst := reflect.MakeSlice(reflect.SliceOf(w.tag.et), w.n, w.n)
					within("Read", func() { err = c.Read(w.path, dst.Interface()) })
					got = dst.Interface()
					classes["array"] = true
				}
				if want := w.in(s.m); err != nil || !sameData(got, want) {
					fatal("Read(%s) of %d gives %v (%v), should be %v", w.path, w.n, got, err, want)
				}
				if w.tag.et.Kind() == reflect.String {
					classes["string"] = true
				}
			case "write":
				w := place(s, "tag")
				v := value(w)
				hist = append(hist, fmt.Sprintf("Write(%s, %T %s)", w.path, v, hx.Short(fmt.Sprint(v), 60)))
				var err error
				within("Write", func() { err = c.Write(w.path, v) })
				if err != nil && len(srvData(v)) > int(c.ConnectionSize)-100 {
					classes["too-large"] = true
					taken(s, "a refused write", nil)
					break
				}
				if err != nil {
					fatal("Write(%s, %T %v): %v", w.path, v, v, err)
				}
				store(s, w, v)
				taken(s, "Write", []string{writes(w, v)})
			case "readmap", "readlist", "readstruct":
				var ws []c18Want
				seen := map[string]bool{}
				for i := rapid.IntRange(1, 12).Draw(t, "batch"); i > 0; i-- {
					w := place(s, "tag")
					if len(srvData(w.in(s.m)))+4 > int(c.ConnectionSize)-100 || seen[strings.ToLower(w.path)] {
						continue
					}
					if what == "readmap" && w.n > 1 || what == "readstruct" && w.tag.n > 0 && w.elem < 0 && w.n == 1 {
						w.n = 1
						if w.tag.n > 0 && w.elem < 0 {
							w.elem = 0
							w.path += "[0]"
						}
						if seen[strings.ToLower(w.path)] {
							continue
						}
					}
					seen[strings.ToLower(w.path)] = true
					ws = append(ws, w)
				}
				if len(ws) == 0 {
					break
				}
				names := []string{}
				for _, w := range ws {
					names = append(names, fmt.Sprintf("%s %d", w.path, w.n))
				}
				hist = append(hist, what+" "+strings.Join(names, ","))
				classes["batch"] = true
				got := make([]any, len(ws))
				var err error
				switch what {
				case "readmap":
					m := map[string]any{}
					for _, w := range ws {
						m[w.path] = reflect.Zero(w.tag.et).Interface()
					}
					within(what, func() { err = c.ReadMap(m) })
					for i, w := range ws {
						got[i] = m[w.path]
					}
				case "readlist":
					var types []any
					var counts []int
					var tags []string
					for _, w := range ws {
						tags = append(tags, w.path)
						types = append(types, reflect.Zero(w.tag.et).Interface())
						counts = append(counts, w.n)
					}
					within(what, func() {
						var l []any
						l, err = c.ReadList(tags, types, counts)
						copy(got, l)
					})
				case "readstruct":
					var fs []reflect.StructField
					for i, w := range ws {
						ft := w.tag.et
						if w.n > 1 {
							ft = reflect.SliceOf(ft)
						}
						fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft, Tag: reflect.StructTag(fmt.Sprintf(`gologix:"%s"`, w.path))})
					}
					v := reflect.New(reflect.StructOf(fs))
					for i, w := range ws {
						if w.n > 1 {
							v.Elem().Field(i).Set(reflect.MakeSlice(fs[i].Type, w.n, w.n))
						}
					}
					within(what, func() { err = c.ReadMulti(v.Interface()) })
					for i := range ws {
						got[i] = v.Elem().Field(i).Interface()
					}
				}
				if err != nil {
					fatal("%s: %v", what, err)
				}
				for i, w := range ws {
					if want := w.in(s.m); !sameData(got[i], want) {
						fatal("%s gives %T %v for %s (%d), should be %T %v", what, got[i], got[i], w.path, w.n, want, want)
					}
				}
			case "writemap":
				m := map[string]any{}
				var want []string
				type one struct {
					w c18Want
					v any
				}
				var all []one
				seen := map[string]bool{}
				for i := rapid.IntRange(1, 10).Draw(t, "batch"); i > 0; i-- {
					w := place(s, "tag")
					v := value(w)
					if len(srvData(v)) > int(c.ConnectionSize)-150 || seen[strings.ToLower(w.tag.name)] {
						continue
					}
					seen[strings.ToLower(w.tag.name)] = true
					m[w.path] = v
					all = append(all, one{w, v})
					want = append(want, writes(w, v))
				}
				if len(m) == 0 {
					break
				}
				hist = append(hist, fmt.Sprintf("WriteMap(%s)", hx.Short(strings.Join(want, ","), 200)))
				classes["batch"] = true
				var err error
				within("WriteMap", func() { err = c.WriteMap(m) })
				if err != nil {
					fatal("WriteMap(%v): %v", m, err)
				}
				for _, o := range all {
					store(s, o.w, o.v)
				}
				taken(s, "WriteMap", want)
			case "host":
				w := place(s, "tag")
				v := value(w)
				hist = append(hist, fmt.Sprintf("program writes %s %T %s", w.path, v, hx.Short(fmt.Sprint(v), 60)))
				if err := s.prov.TagWrite(w.path, listed(v)); err != nil {
					fatal("the program's write: %v", err)
				}
				store(s, w, v)
				classes["host"] = true
			case "missing", "writemissing":
				p := missing(s)
				if exists(s, p) {
					break
				}
				et := rapid.SampledFrom(srvElems).Draw(t, "mt")
				var err error
				if what == "missing" || !strings.HasSuffix(p, "]") {
					// (the provider makes new tags when they are written)
					hist = append(hist, fmt.Sprintf("Read(missing %s)", p))
					dst := reflect.New(et)
					within("Read", func() { err = c.Read(p, dst.Interface()) })
					if err == nil {
						fatal("Read(%s) of a missing tag gives %v", p, dst.Elem())
					}
				} else {
					hist = append(hist, fmt.Sprintf("Write(missing %s)", p))
					within("Write", func() { err = c.Write(p, srvGen(t, et, "mv")) })
					if err == nil {
						fatal("Write(%s) of a missing element succeeds", p)
					}
				}
				classes["missing"] = true
				if !c.Connected() {
					fatal("refusing %s ended the connection (%v)", p, err)
				}
			case "missingbatch":
				w, p := place(s, "tag"), missing(s)
				if exists(s, p) {
					break
				}
				m := map[string]any{w.tag.name: reflect.Zero(w.tag.et).Interface(), p: int32(0)}
				hist = append(hist, fmt.Sprintf("ReadMap(%s and missing %s)", w.tag.name, p))
				var err error
				within("ReadMap", func() { err = c.ReadMap(m) })
				if err == nil {
					fatal("ReadMap with the missing %s gives %v", p, m)
				}
				classes["missing"] = true
				if !c.Connected() {
					fatal("refusing %s ended the connection (%v)", p, err)
				}
			case "reconnect":
				hist = append(hist, "reconnect")
				within("Disconnect", func() { c.Disconnect() })
				var err error
				within("Connect", func() { err = c.Connect() })
				if err != nil {
					fatal("connecting again: %v", err)
				}
			}
			verify()
		}
		var cs []string
		for c := range classes {
			cs = append(cs, c)
		}
		rec.Case(strings.Join(hist, "; "), len(hist) >= 6 && classes["batch"] && (classes["array"] || classes["string"]), cs...)
	})
}

// TestC18Together: clients and the hosting program at the same time, each with tags of its own.
func TestC18Together(t *testing.T) {
	rec := hx.For("C18")
	hx.Check(t, "C18", 200, func(t *rapid.T) {
		_, eps := startServer()
		ep := eps[rapid.IntRange(0, len(eps)-1).Draw(t, "path")]
		prov := &gologix.MapTagProvider{}
		ep.set(prov)
		n := rapid.IntRange(2, 5).Draw(t, "clients")
		rounds := rapid.IntRange(5, 30).Draw(t, "rounds")
		salt := rapid.Uint32().Draw(t, "salt")
		problems := make(chan string, n+1)
		done := make(chan bool)
		for i := 0; i < n; i++ {
			prov.TagWrite(fmt.Sprintf("own%d", i), int32(0))
			prov.TagWrite(fmt.Sprintf("arr%d", i), make([]int32, 8))
			prov.TagWrite(fmt.Sprintf("str%d", i), "")
		}
		prov.TagWrite("host", int64(0))
		var wg sync.WaitGroup
		stop := make(chan bool)
		go func() { // the program counts up
			for k := int64(1); ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				prov.TagWrite("host", k)
				time.Sleep(50 * time.Microsecond)
			}
		}()
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				c := serverClient(ep.path)
				c.AutoConnect = false
				if err := c.Connect(); err != nil {
					problems <- fmt.Sprintf("client %d: %v", i, err)
					return
				}
				defer c.Disconnect()
				own, arr, str := fmt.Sprintf("own%d", i), fmt.Sprintf("arr%d", i), fmt.Sprintf("str%d", i)
				last := int64(-1)
				for k := 0; k < rounds; k++ {
					v := int32(salt) + int32(k*n+i)
					a := make([]int32, 8)
					for j := range a {
						a[j] = v + int32(j)
					}
					s := fmt.Sprintf("%d-%d-%d", salt, i, k)
					if err := c.WriteMap(map[string]any{own: v, arr: a, str: s}); err != nil {
						problems <- fmt.Sprintf("client %d: WriteMap: %v", i, err)
						return
					}
					var got int32
					if err := c.Read(own, &got); err != nil || got != v {
						problems <- fmt.Sprintf("client %d: Read gives %d (%v), written was %d", i, got, err, v)
						return
					}
					b := make([]int32, 8)
					if err := c.Read(arr, b); err != nil || !reflect.DeepEqual(a, b) {
						problems <- fmt.Sprintf("client %d: Read gives %v (%v), written was %v", i, b, err, a)
						return
					}
					m := map[string]any{own: int32(0), str: "", "host": int64(0)}
					if err := c.ReadMap(m); err != nil || m[own] != v || m[str] != s {
						problems <- fmt.Sprintf("client %d: ReadMap gives %v (%v), written was %v and %v", i, m, err, v, s)
						return
					}
					h, ok := m["host"].(int64)
					if !ok || h < last {
						problems <- fmt.Sprintf("client %d: the program's counter reads %v after %v", i, m["host"], last)
						return
					}
					last = h
				}
			}()
		}
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(2 * opLimit):
			problems <- "clients are stuck"
		}
		close(stop)
		select {
		case p := <-problems:
			t.Fatal(p)
		default:
		}
		rec.Case(fmt.Sprintf("together: %d clients %d rounds salt %d", n, rounds, salt), true, "concurrent")
	})
}
