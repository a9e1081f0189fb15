package props

import (
	"encoding/binary"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/raw"
)

// c20Conn is a connection of the model.
type c20Conn struct {
	cl     *c20Client
	open   raw.Open
	ot, to uint32
	ep     int
	seq    uint16
	gone   string // why it is not open any more
}

type c20Client struct {
	n     int
	c     *raw.Conn
	vend  uint16
	orig  uint32
	conns []*c20Conn
}

func (cl *c20Client) opened() (open []*c20Conn) {
	for _, k := range cl.conns {
		if k.gone == "" {
			open = append(open, k)
		}
	}
	return open
}

// c20Stores gives each endpoint a store with the endpoint's number and values of its own.
func c20Stores(eps []*endpoint, keys ...string) []*memStore {
	stores := make([]*memStore, len(eps))
	for i, e := range eps {
		m := map[string]any{"who": int32(1000 + i)}
		for _, k := range keys {
			m[k] = int32(i)
		}
		stores[i] = &memStore{m: m}
		e.set(stores[i])
	}
	return stores
}

// c20Foreign sends a request on a connection id that is not the client's and reports how it was served.
func c20Foreign(c *raw.Conn, id uint32, seq uint16, cip []byte) string {
	f, err := c.Ask(raw.SendUnit, raw.Unit(id, seq, cip))
	if err != nil {
		return err.Error()
	}
	if f.Status != 0 {
		return ""
	}
	_, _, b, err := raw.ParseUnit(f.Body)
	if err != nil {
		return err.Error()
	}
	r, err := raw.ParseReply(b)
	if err != nil {
		return err.Error()
	}
	if r.Status == 0 || len(r.Data) > 0 {
		return fmt.Sprintf("is served with %v", r)
	}
	return ""
}

var c20Unregistered = [][]byte{{1, 9}, {2, 0}, {1, 0, 2, 9}, {1, 3, 1, 0}, linkPath(2, "10.0.0.22"), {1, 255}, {2, 7},
	linkPath(2, "192.168.100.200.42"), linkPath(2, "192.168.100.200"), {0x0F, 5, 1, 3}, linkPath(0x201, "10.0.0.21"), linkPath(0x202, "10.0.0.21"), append(linkPath(0x201, "10.0.0.21"), 1, 1), linkPath(2, "plc.cell4.exampl")}

func TestC20(t *testing.T) {
	rec := hx.For("C20")
	rec.Rule("a history with at least two connections open at the same time, to different endpoints or by different clients, in which one is closed, lost or refused and another one is used after it")
	rec.Assume("an open with the serial number, vendor and originator of another client's connection may be refused",
		"which identifier the server chooses for a connection is not prescribed, only that it is not that of another open one")
	hx.Check(t, "C20", 3000, func(t *rapid.T) {
		_, eps := startServer()
		stores := c20Stores(eps, "val")
		vals := make([]int32, len(eps))
		for i := range vals {
			vals[i] = int32(i)
		}
		var clients []*c20Client
		var lost []*c20Conn // of clients that are gone
		defer func() {
			for _, cl := range clients {
				cl.c.Close()
			}
		}()
		var hist []string
		say := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s\nafter %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		nclients := 0
		join := func() {
			nclients++
			cl := &c20Client{n: nclients, c: dialServer(t, ""), vend: uint16(rapid.IntRange(7, 8).Draw(t, "vendor")), orig: uint32(rapid.IntRange(41, 42).Draw(t, "orig"))}
			clients = append(clients, cl)
			say("client %d (%d/%d) connects", cl.n, cl.vend, cl.orig)
		}
		join()
		// calls checks which endpoint was called since the last time.
		calls := func(what string, ep int, op string, val int32) {
			t.Helper()
			for i, e := range eps {
				cs := e.take()
				if i != ep {
					if len(cs) > 0 {
						fail("%s: endpoint %v got %v", what, e.path, cs)
					}
					continue
				}
				if len(cs) != 1 || cs[0].op != op || cs[0].val != any(val) {
					fail("%s: endpoint %v got %v, expected one %s of %d", what, e.path, cs, op, val)
				}
			}
		}
		use := func(k *c20Conn) {
			t.Helper()
			k.seq++
			kind := rapid.IntRange(0, 2).Draw(t, "use")
			what := fmt.Sprintf("client %d uses connection %#x to %v", k.cl.n, k.ot, k.open.Route)
			say("%s (%d)", what, kind)
			switch kind {
			case 0, 1:
				name, want := "who", int32(1000+k.ep)
				if kind == 1 {
					name, want = "val", vals[k.ep]
				}
				r, err := k.cl.c.Connected(k.ot, k.to, k.seq, raw.Read(raw.T(name), 0, 1))
				if err != nil {
					fail("%s: %v", what, err)
				}
				if r.Status != 0 || len(r.Data) != 6 || int32(binary.LittleEndian.Uint32(r.Data[2:])) != want {
					fail("%s: read of %s gives %v, should be %d", what, name, r, want)
				}
				calls(what, k.ep, "read", want)
			default:
				v := rapid.Int32().Draw(t, "value")
				r, err := k.cl.c.Connected(k.ot, k.to, k.seq, raw.Write(raw.T("val"), 0, []byte{0xC4, 0}, 1, binary.LittleEndian.AppendUint32(nil, uint32(v))))
				if err != nil {
					fail("%s: %v", what, err)
				}
				if r.Status != 0 {
					fail("%s: write gives %v", what, r)
				}
				vals[k.ep] = v
				calls(what, k.ep, "write", v)
			}
		}
		all := func() (open []*c20Conn) {
			for _, cl := range clients {
				open = append(open, cl.opened()...)
			}
			return open
		}
		classes := map[string]bool{}
		disturbed, nontrivial, many := false, false, false
		steps := rapid.IntRange(3, 30).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			if len(clients) == 0 {
				join()
			}
			cl := clients[rapid.IntRange(0, len(clients)-1).Draw(t, "client")]
			switch op := rapid.SampledFrom([]string{"open", "open", "open", "use", "use", "use", "use", "close", "foreign", "foreign", "foreign", "foreignclose", "join", "drop", "unregistered", "wrapped", "many"}).Draw(t, "op"); op {
			case "many":
				if many || rapid.IntRange(0, 3).Draw(t, "really") > 0 {
					break
				}
				many = true
				ep, n := rapid.IntRange(0, len(eps)-1).Draw(t, "path"), rapid.IntRange(25, 80).Draw(t, "count")
				say("client %d opens %d to %v and others", cl.n, n, eps[ep].path)
				for j := 0; j < n; j++ {
					ep := (ep + j/7) % len(eps)
					o := raw.Open{Large: j%3 == 0, Serial: uint16(1000*cl.n + j), Vendor: cl.vend, Orig: cl.orig,
						OTRPI: 2000000, TORPI: 2500000, OTSize: 500, TOSize: 500, Route: eps[ep].path, Point: raw.MessageRouter, TO: uint32(100 + j)}
					r, err := cl.c.Unconnected(o.Bytes())
					if err != nil {
						fail("open number %d: %v", j, err)
					}
					ot, to, err := o.Opened(r)
					if err != nil {
						fail("open number %d: %v", j, err)
					}
					cl.conns = append(cl.conns, &c20Conn{cl: cl, open: o, ot: ot, to: to, ep: ep, seq: uint16(j)})
				}
				calls("opens", -1, "", 0)
				classes["many connections"] = true
			case "join":
				if len(clients) < 4 {
					join()
					disturbed = true
				}
			case "open":
				ep := rapid.IntRange(0, len(eps)-1).Draw(t, "path")
				o := raw.Open{Large: rapid.Bool().Draw(t, "large"), Serial: uint16(rapid.IntRange(1, 4).Draw(t, "serial")), Vendor: cl.vend, Orig: cl.orig,
					OTRPI: 2000000, TORPI: 2500000, OTSize: 500, TOSize: 500, Route: eps[ep].path, Point: raw.MessageRouter}
				o.TO = uint32(rapid.IntRange(1, 5).Draw(t, "to"))
				switch rapid.IntRange(0, 3).Draw(t, "ot") {
				case 0:
					o.OT = uint32(rapid.IntRange(1, 5).Draw(t, "otsmall"))
				case 1:
					if open := all(); len(open) > 0 {
						o.OT = open[rapid.IntRange(0, len(open)-1).Draw(t, "otof")].ot
						classes["proposes the id of another"] = true
					}
				case 2:
					if n := len(lost); n > 0 {
						o.OT = lost[rapid.IntRange(0, n-1).Draw(t, "otlost")].ot
					}
				}
				dup, shared := false, false
				for _, k := range cl.opened() {
					dup = dup || k.open.Serial == o.Serial
				}
				for _, k := range append(all(), lost...) {
					shared = shared || k.cl != cl && k.open.Serial == o.Serial && k.open.Vendor == o.Vendor && k.open.Orig == o.Orig
				}
				if dup { // the same connection twice is another matter
					break
				}
				say("client %d opens %d to %v (wants %#x/%#x)", cl.n, o.Serial, o.Route, o.OT, o.TO)
				r, err := cl.c.Unconnected(o.Bytes())
				if err != nil {
					fail("open: %v", err)
				}
				if shared {
					classes["serial number of another client"] = true
					if r.Status != 0 {
						break
					}
				}
				ot, to, err := o.Opened(r)
				if err != nil {
					fail("open: %v", err)
				}
				for _, k := range all() {
					if k.ot == ot {
						fail("the new connection has the id %#x of the one of client %d to %v", ot, k.cl.n, k.open.Route)
					}
				}
				say("id %#x", ot)
				cl.conns = append(cl.conns, &c20Conn{cl: cl, open: o, ot: ot, to: to, ep: ep, seq: rapid.Uint16().Draw(t, "seq")})
				calls("open", -1, "", 0)
			case "unregistered":
				o := raw.Open{Large: rapid.Bool().Draw(t, "large"), Serial: uint16(rapid.IntRange(1, 4).Draw(t, "serial")), Vendor: cl.vend, Orig: cl.orig, OT: 77, TO: 9,
					OTRPI: 2000000, TORPI: 2500000, OTSize: 500, TOSize: 500, Point: raw.MessageRouter}
				o.Route = rapid.SampledFrom(c20Unregistered).Draw(t, "route")
				for _, k := range cl.opened() {
					if k.open.Serial == o.Serial {
						o.Serial = 99
					}
				}
				say("client %d opens %d to %v", cl.n, o.Serial, o.Route)
				r, err := cl.c.Unconnected(o.Bytes())
				if err != nil {
					fail("open to an unregistered path: %v", err)
				}
				if r.Status == 0 {
					fail("open to the unregistered path %v: %v", o.Route, r)
				}
				taken := false
				for _, k := range all() {
					taken = taken || k.ot == o.OT
				}
				if !taken {
					if p := c20Foreign(cl.c, o.OT, 1, raw.Read(raw.T("who"), 0, 1)); p != "" {
						fail("request after a refused open %s", p)
					}
				}
				calls("open to an unregistered path", -1, "", 0)
				classes[op] = true
				disturbed = true
			case "use":
				if open := all(); len(open) > 0 {
					k := open[rapid.IntRange(0, len(open)-1).Draw(t, "which")]
					use(k)
					nontrivial = nontrivial || disturbed
				}
			case "close":
				if open := cl.opened(); len(open) > 0 {
					k := open[rapid.IntRange(0, len(open)-1).Draw(t, "which")]
					say("client %d closes %#x", cl.n, k.ot)
					r, err := cl.c.Unconnected(k.open.CloseBytes())
					if err == nil {
						err = k.open.Closed(r)
					}
					if err != nil || r.Status != 0 {
						fail("close: %v %v", r, err)
					}
					k.gone = "closed"
					calls("close", -1, "", 0)
					classes[op] = true
					disturbed = len(open) > 1 || len(all()) > 0
				}
			case "foreign": // a connection that is not this client's to use
				var id uint32
				what := ""
				switch rapid.IntRange(0, 3).Draw(t, "whose") {
				case 0:
					id = rapid.SampledFrom([]uint32{0, 1, 0xFFFFFFFF, 3, 5, 1 << 31}).Draw(t, "id")
					what = "never opened"
				case 1:
					if len(lost) > 0 {
						id = lost[rapid.IntRange(0, len(lost)-1).Draw(t, "which")].ot
						what = "lost"
					}
				default:
					var ks []*c20Conn
					for _, x := range clients {
						for _, k := range x.conns {
							if x != cl || k.gone != "" {
								ks = append(ks, k)
							}
						}
					}
					if len(ks) > 0 {
						k := ks[rapid.IntRange(0, len(ks)-1).Draw(t, "which")]
						id = k.ot
						what = fmt.Sprintf("client %d's %s", k.cl.n, k.gone)
						if k.cl != cl && k.gone == "" {
							classes["another client's"] = true
						} else {
							classes["closed"] = true
						}
					}
				}
				mine := false
				for _, k := range cl.opened() {
					mine = mine || k.ot == id
				}
				if what == "" || mine {
					break
				}
				say("client %d sends to %#x (%s)", cl.n, id, what)
				q := raw.Read(raw.T("who"), 0, 1)
				switch rapid.IntRange(0, 3).Draw(t, "service") {
				case 0:
					q = raw.Write(raw.T("val"), 0, []byte{0xC4, 0}, 1, []byte{9, 9, 9, 9})
				case 1:
					q = raw.Multi(raw.Read(raw.T("who"), 0, 1), raw.Write(raw.T("val"), 0, []byte{0xC4, 0}, 1, []byte{9, 9, 9, 9}))
				case 2:
					q = raw.ReadFrag(raw.T("val"), 0, 1, 0)
				}
				if p := c20Foreign(cl.c, id, rapid.Uint16().Draw(t, "seq"), q); p != "" {
					fail("a request of client %d to connection %#x, which is not its own (%s), %s", cl.n, id, what, p)
				}
				calls("request for a connection not its own", -1, "", 0)
				disturbed = true
			case "foreignclose":
				o := raw.Open{Serial: uint16(rapid.IntRange(1, 5).Draw(t, "serial")), Vendor: uint16(rapid.IntRange(7, 8).Draw(t, "vendor")), Orig: uint32(rapid.IntRange(41, 42).Draw(t, "orig")), Point: raw.MessageRouter}
				o.Route = eps[rapid.IntRange(0, len(eps)-1).Draw(t, "path")].path
				mine, others := false, false
				for _, k := range cl.opened() {
					mine = mine || k.open.Serial == o.Serial && k.open.Vendor == o.Vendor && k.open.Orig == o.Orig
				}
				for _, k := range all() {
					others = others || k.open.Serial == o.Serial
				}
				if mine {
					break
				}
				say("client %d closes %d/%d/%d, not its own", cl.n, o.Serial, o.Vendor, o.Orig)
				r, err := cl.c.Unconnected(o.CloseBytes())
				if err == nil {
					err = o.Closed(r)
				}
				if err != nil || r.Status == 0 {
					fail("closing a connection that the client did not open: %v %v", r, err)
				}
				if others {
					classes["close of another's"] = true
					disturbed = true
				}
			case "drop":
				how := rapid.IntRange(0, 2).Draw(t, "how")
				say("client %d goes away (%d)", cl.n, how)
				if how == 0 {
					cl.c.Put(raw.Frame{Cmd: raw.UnRegister, Session: cl.c.Session})
					if _, err := cl.c.Next(); err == nil {
						fail("a message after the session was ended")
					}
				}
				if how == 1 { // in the middle of a message
					cl.c.Write(raw.Frame{Cmd: raw.SendUnit, Session: cl.c.Session, Body: make([]byte, 30)}.Bytes()[:40])
				}
				cl.c.Close()
				for _, k := range cl.opened() {
					k.gone = "lost"
				}
				lost = append(lost, cl.conns...)
				for k, x := range clients {
					if x == cl {
						clients = append(clients[:k:k], clients[k+1:]...)
						break
					}
				}
				classes[op] = true
				disturbed = len(all()) > 0
			case "wrapped":
				ep := rapid.IntRange(0, len(eps)-1).Draw(t, "path")
				route := eps[ep].path
				if rapid.IntRange(0, 3).Draw(t, "badroute") == 0 {
					route = rapid.SampledFrom(c20Unregistered).Draw(t, "route")
					ep = -1
				}
				say("client %d reads along %v", cl.n, route)
				r, err := cl.c.Unconnected(raw.Wrap(raw.Read(raw.T("who"), 0, 1), route))
				if err != nil {
					fail("unconnected read: %v", err)
				}
				if ep >= 0 && (r.Status != 0 || len(r.Data) != 6 || int32(binary.LittleEndian.Uint32(r.Data[2:])) != int32(1000+ep)) || ep < 0 && r.Status == 0 {
					fail("unconnected read along %v gives %v", route, r)
				}
				calls("unconnected read", ep, "read", int32(1000+ep))
			}
		}
		for _, k := range all() {
			use(k)
		}
		for i, s := range stores {
			if got := s.m["val"]; got != any(vals[i]) {
				fail("endpoint %v ends with %v instead of %d", eps[i].path, got, vals[i])
			}
		}
		var cs []string
		for c := range classes {
			cs = append(cs, c)
		}
		rec.Case(strings.Join(hist, "; "), nontrivial && len(all()) > 1, cs...)
	})
}

// c20Step is a step of a client that runs at the same time as others.
type c20Step struct {
	op       string
	ep, kind int
	pick     uint32
	val      int32
	large    bool
}

// TestC20Together: several originators and clients of the library at the same time.
func TestC20Together(t *testing.T) {
	rec := hx.For("C20")
	hx.Check(t, "C20", 400, func(t *rapid.T) {
		_, eps := startServer()
		n := rapid.IntRange(2, 6).Draw(t, "clients")
		keys := make([]string, n)
		for i := range keys {
			keys[i] = fmt.Sprintf("k%d", i)
		}
		stores := c20Stores(eps, keys...)
		scripts := make([][]c20Step, n)
		lib := make([]bool, n)
		for i := range scripts {
			lib[i] = rapid.IntRange(0, 2).Draw(t, "library") == 0
			for j := rapid.IntRange(5, 40).Draw(t, "steps"); j > 0; j-- {
				scripts[i] = append(scripts[i], c20Step{
					op: rapid.SampledFrom([]string{"open", "open", "use", "use", "use", "use", "close", "drop", "foreign", "unregistered"}).Draw(t, "op"),
					ep: rapid.IntRange(0, len(eps)-1).Draw(t, "ep"), kind: rapid.IntRange(0, 2).Draw(t, "kind"), pick: rapid.Uint32().Draw(t, "pick"), val: rapid.Int32().Draw(t, "val"), large: rapid.Bool().Draw(t, "large")})
			}
		}
		var mu sync.Mutex
		known := map[uint32]int{} // connection ids and whose they are
		problems := make(chan string, n)
		var wg sync.WaitGroup
		finals := make([][]int32, n)
		for i := range scripts {
			i := i
			finals[i] = make([]int32, len(eps))
			for j := range finals[i] {
				finals[i][j] = int32(j)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				var p string
				if lib[i] {
					p = c20Library(eps, keys[i], scripts[i], finals[i])
				} else {
					p = c20Raw(eps, i, keys[i], scripts[i], finals[i], &mu, known)
				}
				if p != "" {
					problems <- fmt.Sprintf("client %d of %d (library %v): %s", i, n, lib[i], p)
				}
			}()
		}
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(2 * opLimit):
			problems <- "clients are stuck"
		}
		select {
		case p := <-problems:
			t.Fatal(p)
		default:
		}
		for j, s := range stores {
			for i, k := range keys {
				if s.m[k] != any(finals[i][j]) {
					t.Fatalf("endpoint %v ends with %v of client %d, who wrote %d last", eps[j].path, s.m[k], i, finals[i][j])
				}
			}
		}
		rec.Case(fmt.Sprint(scripts), true, "concurrent")
	})
}

// c20Library runs steps with a client of the library.
func c20Library(eps []*endpoint, key string, steps []c20Step, vals []int32) string {
	at := 0
	c := serverClient(eps[at].path)
	c.AutoConnect = false
	on := false
	defer func() {
		if on {
			c.Disconnect()
		}
	}()
	for _, s := range steps {
		switch s.op {
		case "open", "drop", "close":
			if on {
				if err := c.Disconnect(); err != nil {
					return fmt.Sprintf("Disconnect: %v", err)
				}
				on = false
			}
			if s.op == "open" {
				at = s.ep
				c = serverClient(eps[at].path)
				c.AutoConnect = false
				if err := c.Connect(); err != nil {
					return fmt.Sprintf("Connect to %v: %v", eps[at].path, err)
				}
				on = true
			}
		case "unregistered":
			x := serverClient(c20Unregistered[int(s.pick)%len(c20Unregistered)])
			x.AutoConnect = false
			if x.Connect() == nil {
				x.Disconnect()
				return fmt.Sprintf("Connect to the unregistered path of number %d succeeds", int(s.pick)%len(c20Unregistered))
			}
		case "use":
			if !on {
				continue
			}
			if s.kind == 2 {
				if err := c.Write(key, s.val); err != nil {
					return fmt.Sprintf("Write: %v", err)
				}
				vals[at] = s.val
				continue
			}
			var who, got int32
			if err := c.Read("who", &who); err != nil || who != int32(1000+at) {
				return fmt.Sprintf("Read of Who over the connection to %v gives %d (%v)", eps[at].path, who, err)
			}
			if err := c.Read(key, &got); err != nil || got != vals[at] {
				return fmt.Sprintf("Read of %s over the connection to %v gives %d (%v) after %d was written", key, eps[at].path, got, err, vals[at])
			}
		}
	}
	return ""
}

// c20Raw runs steps with an originator of its own.
func c20Raw(eps []*endpoint, me int, key string, steps []c20Step, vals []int32, mu *sync.Mutex, known map[uint32]int) (problem string) {
	var c *raw.Conn
	var conns []*c20Conn
	serial := uint16(0)
	join := func() string {
		var err error
		if c, err = raw.Dial(tcpAddr, ""); err != nil {
			return err.Error()
		}
		if err := c.RegisterSession(); err != nil {
			return err.Error()
		}
		return ""
	}
	forget := func(k *c20Conn) {
		mu.Lock()
		delete(known, k.ot)
		mu.Unlock()
	}
	defer func() {
		for _, x := range conns {
			forget(x)
		}
		if c != nil {
			c.Close()
		}
	}()
	for _, s := range steps {
		if c == nil {
			if p := join(); p != "" {
				return p
			}
		}
		var k *c20Conn
		if len(conns) > 0 {
			k = conns[int(s.pick)%len(conns)]
		}
		switch s.op {
		case "open", "unregistered":
			serial++
			o := raw.Open{Large: s.large, Serial: serial, Vendor: 7, Orig: uint32(50 + me), TO: s.pick | 1, OTRPI: 2000000, TORPI: 2500000, OTSize: 500, TOSize: 500, Route: eps[s.ep].path, Point: raw.MessageRouter}
			if s.kind == 0 {
				o.OT = 1 + s.pick%4
			}
			if s.op == "unregistered" {
				o.Route = c20Unregistered[int(s.pick)%len(c20Unregistered)]
			}
			r, err := c.Unconnected(o.Bytes())
			if err != nil {
				return fmt.Sprintf("open: %v", err)
			}
			if s.op == "unregistered" {
				if r.Status == 0 {
					return fmt.Sprintf("open to the unregistered %v: %v", o.Route, r)
				}
				continue
			}
			ot, to, err := o.Opened(r)
			if err != nil {
				return err.Error()
			}
			mu.Lock()
			who, taken := known[ot]
			known[ot] = me
			mu.Unlock()
			if taken {
				return fmt.Sprintf("the new connection's id %#x is that of a connection of client %d", ot, who)
			}
			conns = append(conns, &c20Conn{open: o, ot: ot, to: to, ep: s.ep})
		case "close":
			if k == nil {
				continue
			}
			forget(k) // before: the id may be given away as soon as it is closed
			r, err := c.Unconnected(k.open.CloseBytes())
			if err == nil {
				err = k.open.Closed(r)
			}
			if err != nil || r.Status != 0 {
				return fmt.Sprintf("close: %v %v", r, err)
			}
			for j, x := range conns {
				if x == k {
					conns = append(conns[:j:j], conns[j+1:]...)
					break
				}
			}
			if p := c20Foreign(c, k.ot, 1, raw.Read(raw.T("who"), 0, 1)); p != "" {
				return fmt.Sprintf("a request on the closed connection %#x %s", k.ot, p)
			}
		case "drop":
			for _, x := range conns {
				forget(x)
			}
			c.Close()
			c, conns = nil, nil
		case "foreign":
			mu.Lock()
			var id uint32
			for ot, who := range known {
				if who != me {
					id = ot
				}
			}
			mu.Unlock()
			if id == 0 {
				continue
			}
			mine := false // it may have been closed and given to this client since
			for _, x := range conns {
				mine = mine || x.ot == id
			}
			if mine {
				continue
			}
			if p := c20Foreign(c, id, 1, raw.Read(raw.T("who"), 0, 1)); p != "" {
				return fmt.Sprintf("a request on another client's connection %#x %s", id, p)
			}
		case "use":
			if k == nil {
				continue
			}
			k.seq++
			if s.kind == 2 {
				r, err := c.Connected(k.ot, k.to, k.seq, raw.Write(raw.T(key), 0, []byte{0xC4, 0}, 1, binary.LittleEndian.AppendUint32(nil, uint32(s.val))))
				if err != nil || r.Status != 0 {
					return fmt.Sprintf("write: %v %v", r, err)
				}
				vals[k.ep] = s.val
				continue
			}
			for name, want := range map[string]int32{"who": int32(1000 + k.ep), key: vals[k.ep]} {
				r, err := c.Connected(k.ot, k.to, k.seq, raw.Read(raw.T(name), 0, 1))
				k.seq++
				if err != nil {
					return err.Error()
				}
				if r.Status != 0 || len(r.Data) != 6 || int32(binary.LittleEndian.Uint32(r.Data[2:])) != want {
					return fmt.Sprintf("read of %s on the connection to %v gives %v, should be %d", name, eps[k.ep].path, r, want)
				}
			}
		}
	}
	return ""
}
