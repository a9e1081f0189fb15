package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// event is one call of the history.
type event struct {
	from, to int64
	tag      string // tag written
	img      []byte
	ok       bool
	read     bool // a read of the tag
	desc     string
}

// late says whether b began after a had returned.
func late(a, b event) bool { return b.from > a.to }

// possible says whether a value with image img can be what the tag holds for
// somebody who looks in [from, to].
func possible(hist []event, tag string, initial, img []byte, from, to int64) bool {
	see := event{from: from, to: to}
	if bytes.Equal(img, initial) {
		for _, w := range hist {
			if !w.read && w.tag == tag && w.ok && late(w, see) {
				return false // some write was over before
			}
		}
		return true
	}
	for _, w := range hist {
		if w.read || w.tag != tag || !bytes.Equal(w.img, img) || late(see, w) {
			continue
		}
		hidden := false
		for _, x := range hist {
			if !x.read && x.tag == tag && x.ok && late(w, x) && late(x, see) && !bytes.Equal(x.img, img) {
				hidden = true
			}
		}
		if !hidden {
			return true
		}
	}
	return false
}

// TestC15: goroutines sharing a client.
func TestC15(t *testing.T) {
	rec := hx.For("C15")
	rec.Rule("at least two goroutines with generated lists of operations on one client, started together, against a controller that answers after random delays; sometimes connecting on first use or losing the connection on the way. The race detector watches")
	rec.Assume("while the connection is lost under them, calls may fail; those that succeed have to be right",
		"schedules are those of the Go scheduler with random delays, not all of them")
	var quiet, first []op // operations that do not list anything; those that connect by themselves
	for _, o := range opTable {
		if !o.list {
			quiet = append(quiet, o)
			if autoConnects(o) {
				first = append(first, o)
			}
		}
	}
	hx.Check(t, "C15", 400, func(t *rapid.T) {
		p := shared.Get()
		f := newFix(p, rapid.Uint64().Draw(t, "seed"))
		mode := rapid.SampledFrom([]string{"plain", "plain", "plain", "plain", "auto", "loss"}).Draw(t, "mode")
		listing := mode != "auto" && rapid.IntRange(0, 3).Draw(t, "listing") == 0
		pool := quiet
		if mode == "auto" {
			pool = first
		}
		alive := rapid.IntRange(0, 3).Draw(t, "alive") == 0
		size := rapid.SampledFrom([]uint16{4000, 511}).Draw(t, "size")
		n := rapid.IntRange(2, 6).Draw(t, "goroutines")
		type call struct {
			o     op
			salt  uint64
			read  bool
			list  int
			pause time.Duration
		}
		plans := make([][]call, n)
		lines := []string{}
		salt := uint64(1)
		for i := range plans {
			k := rapid.IntRange(1, 8).Draw(t, "calls")
			line := []string{}
			for j := 0; j < k; j++ {
				cl := call{o: pool[rapid.IntRange(0, len(pool)-1).Draw(t, "op")], salt: salt, list: -1}
				salt++
				if listing && rapid.IntRange(0, 5).Draw(t, "list") == 0 {
					cl.list = rapid.IntRange(0, 4).Draw(t, "which")
				}
				if rapid.IntRange(0, 3).Draw(t, "reg") == 0 {
					if rapid.Bool().Draw(t, "w") {
						cl.o = op{name: "Write DINT", wr: []string{"wD"}, run: func(f *fix, c *gologix.Client, salt uint64) (any, error) {
							return nil, c.Write("wD", f.wval("wD", salt))
						}}
					} else {
						cl.read = true
						cl.o = rd[int32]("Read wD", "wD", nil)
					}
				}
				cl.pause = time.Duration(rapid.SampledFrom([]int{0, 0, 0, 50, 300}).Draw(t, "pause")) * time.Microsecond
				plans[i] = append(plans[i], cl)
				line = append(line, cl.o.name)
			}
			lines = append(lines, strings.Join(line, ","))
		}
		slow := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "slow")
		var tick atomic.Int64
		p.Lock()
		p.Delay = func() {
			k := tick.Add(1)
			if slow > 0 {
				time.Sleep(time.Duration(k*7919%int64(slow*120)) * time.Microsecond)
			}
		}
		p.Unlock()
		defer func() { p.Lock(); p.Delay = nil; p.Unlock() }()
		desc := fmt.Sprintf("%s size=%d listing=%v alive=%v slow=%d | %s", mode, size, listing, alive, slow, strings.Join(lines, " | "))
		c := hx.NewClient(p)
		c.ConnectionSize = size
		if mode == "loss" {
			c.SocketTimeout = time.Second
		}
		if alive {
			c.KeepAliveAutoStart = true
			c.KeepAliveFrequency = time.Millisecond
		}
		if mode != "auto" {
			if err := c.Connect(); err != nil {
				t.Fatalf("connect: %v", err)
			}
		}
		initial := map[string][]byte{}
		for _, tag := range []string{"wD", "wA", "wS", "wU", "Program:Mix.wR"} {
			initial[tag] = f.mem(tag)
		}
		p.TakeLog()
		var clock atomic.Int64
		var mu sync.Mutex
		var hist []event
		var problems []string
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for i := range plans {
			wg.Add(1)
			go func(plan []call) {
				defer wg.Done()
				<-gate
				for _, cl := range plan {
					if cl.pause > 0 {
						time.Sleep(cl.pause)
					}
					from := clock.Add(1)
					var got any
					var err error
					if cl.list >= 0 {
						switch cl.list {
						case 0, 1:
							err = c.ListAllTags(0)
						case 2:
							err = c.ListAllPrograms()
						case 3:
							_, err = c.ListMembers(0x210)
						case 4:
							_, err = c.ListSubTags(&gologix.KnownProgram{Name: "Mix", ID: 0x71}, 0)
						}
						clock.Add(1)
						if err != nil && mode != "loss" {
							mu.Lock()
							problems = append(problems, fmt.Sprintf("listing %d: %v", cl.list, err))
							mu.Unlock()
						}
						continue
					}
					func() {
						defer func() {
							if r := recover(); r != nil {
								mu.Lock()
								problems = append(problems, fmt.Sprintf("%s: panic: %v", cl.o.name, r))
								mu.Unlock()
							}
						}()
						got, err = cl.o.run(f, c, cl.salt)
					}()
					to := clock.Add(1)
					mu.Lock()
					if err != nil && (mode != "loss" || strings.HasPrefix(err.Error(), "VIOLATED")) {
						problems = append(problems, fmt.Sprintf("%s: %v", cl.o.name, err))
					}
					if err == nil && cl.o.want != nil {
						if g, w := show(got), show(cl.o.want(f)); g != w {
							problems = append(problems, fmt.Sprintf("%s gave %s instead of %s", cl.o.name, hx.Short(g, 300), hx.Short(w, 300)))
						}
					}
					if cl.read && err == nil {
						hist = append(hist, event{from, to, "wD", hx.EncodeAny(reflect.ValueOf(got)), true, true, cl.o.name})
					}
					for _, tag := range cl.o.wr {
						hist = append(hist, event{from, to, wtag(tag), hx.EncodeAny(reflect.ValueOf(f.wval(tag, cl.salt))), err == nil, false, cl.o.name})
					}
					mu.Unlock()
				}
			}(plans[i])
		}
		if mode == "loss" {
			at := rapid.IntRange(0, 3000).Draw(t, "lossAt")
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				time.Sleep(time.Duration(at) * time.Microsecond)
				p.DropAll()
			}()
		}
		bad := hx.Within(opLimit, func() { close(gate); wg.Wait() })
		if bad != "" {
			t.Fatalf("%s: %s", desc, bad)
		}
		mu.Lock()
		defer mu.Unlock()
		if len(problems) > 0 {
			t.Fatalf("%s:\n  %s\n  the controller noted %v", desc, strings.Join(problems, "\n  "), p.TakeErrors())
		}
		log := p.TakeLog()
		// reads see values that some order of the calls explains
		for _, r := range hist {
			if r.read && !possible(hist, "wD", initial["wD"], r.img, r.from, r.to) {
				t.Fatalf("%s: a read in [%d,%d] gave %x; the calls were %+v", desc, r.from, r.to, r.img, hist)
			}
		}
		end := clock.Add(1)
		for tag, init := range initial {
			m := f.mem(tag)
			if f.tags[tag].Tmpl == plc.StringTemplate {
				m = plc.EncodeString(plc.DecodeString(m))
				init = plc.EncodeString(plc.DecodeString(init))
			}
			if !possible(hist, tag, init, m, end, end) {
				t.Fatalf("%s: %s holds %x in the end; the calls were %+v", desc, tag, m, hist)
			}
		}
		// each write went out exactly once
		writes := 0
		for _, w := range hist {
			if w.read {
				continue
			}
			writes++
			n := 0
			for _, r := range log {
				if r.Service == 0x4D && isName(r, w.tag) && bytes.HasSuffix(r.Data, w.img) {
					n++
				}
			}
			if n > 1 || n == 0 && w.ok {
				t.Fatalf("%s: %s of %s (success %v) was carried out %d times", desc, w.desc, w.tag, w.ok, n)
			}
		}
		if mode != "loss" && p.OpenConns() != 1 {
			t.Fatalf("%s: %d connections are open", desc, p.OpenConns())
		}
		// sequence numbers
		last := map[uint32]uint16{}
		seen := map[uint32]bool{}
		for _, r := range log {
			if !r.Connected || r.Embedded >= 0 {
				continue
			}
			if seen[r.ConnID] && last[r.ConnID] == r.Seq {
				t.Fatalf("%s: sequence number %d twice in a row", desc, r.Seq)
			}
			seen[r.ConnID], last[r.ConnID] = true, r.Seq
		}
		if mode != "loss" {
			if e := p.TakeErrors(); len(e) > 0 {
				t.Fatalf("%s: the controller noted %v", desc, e)
			}
		} else {
			p.TakeErrors()
		}
		if bad := hx.Within(opLimit, func() { c.Disconnect() }); bad != "" {
			t.Fatalf("%s: disconnecting: %s", desc, bad)
		}
		if c.Connected() {
			t.Fatalf("%s: connected after Disconnect", desc)
		}
		rec.Case(desc, true, "mode "+mode, fmt.Sprintf("goroutines %d", n))
		if listing {
			rec.Class("with listings")
		}
		if alive {
			rec.Class("with keepalive")
		}
	})
}

// isName says whether a request addresses a tag by name or instance.
func isName(r *plc.Req, tag string) bool {
	want := strings.ToLower(tag)
	got := ""
	for i, s := range r.Path {
		if s.Kind != 's' {
			return true // by instance: the image tells
		}
		if i > 0 {
			got += "."
		}
		got += strings.ToLower(s.Name)
	}
	return got == want
}

// TestC15Long: one connection used for longer than any of the numbers in its
// messages count.
func TestC15Long(t *testing.T) {
	rec := hx.For("C15")
	rec.Rule("or one connection used for more than 65536 requests by 1-4 goroutines, each reading and writing its own tag")
	hx.Check(t, "C15", 1, func(t *rapid.T) {
		p := shared.Get()
		p.KeepLog = false
		n := rapid.IntRange(1, 4).Draw(t, "goroutines")
		total := 66500 + rapid.IntRange(0, 500).Draw(t, "more")
		c := hx.Connected(t, p, nil)
		defer c.Disconnect()
		tags := make([]*plc.Tag, n)
		for i := range tags {
			tags[i] = p.AddTag(&plc.Tag{Name: fmt.Sprintf("own%d", i), Type: plc.DINT})
		}
		var last uint16
		any, conns := false, 0
		p.Lock()
		p.OnRequest = func(r *plc.Req) {
			if r.Connected && r.Embedded < 0 {
				if any && r.Seq == last {
					conns++
				}
				any, last = true, r.Seq
			}
		}
		p.Unlock()
		var mu sync.Mutex
		var problems []string
		fail := func(format string, a ...interface{}) {
			mu.Lock()
			if len(problems) < 5 {
				problems = append(problems, fmt.Sprintf(format, a...))
			}
			mu.Unlock()
		}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				name, now := fmt.Sprintf("own%d", i), int32(0)
				for k := 0; k < total/n+1; k++ {
					if k%5 == 4 {
						now = int32(k*8 + i)
						if err := c.Write(name, now); err != nil {
							fail("request %d of %d, write: %v", k, i, err)
							return
						}
						continue
					}
					var x int32
					if err := c.Read(name, &x); err != nil || x != now {
						fail("request %d of %d: read %d, %v instead of %d", k, i, x, err, now)
						return
					}
				}
			}(i)
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(300 * time.Second):
			fail("no end after 300 s")
		}
		mu.Lock()
		defer mu.Unlock()
		if e := p.TakeErrors(); len(e) > 0 {
			t.Fatalf("%d requests of %d goroutines: the controller noted %v; %v", total, n, e[0], problems)
		}
		p.Lock()
		defer p.Unlock()
		if len(problems) > 0 || conns > 0 || len(p.Opens) != 1 || !c.Connected() {
			t.Fatalf("%d requests of %d goroutines: %v; %d repeated sequence numbers, %d connections opened", total, n, problems, conns, len(p.Opens))
		}
		rec.Case(fmt.Sprintf("%d requests of %d goroutines on one connection", total, n), true, "long")
	})
}
