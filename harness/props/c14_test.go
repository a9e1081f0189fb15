package props

import (
	"encoding/binary"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/danomagnum/gologix"

	"verifharness/hx"
	"verifharness/plc"
)

// autoConnects are the operations documented to connect first.
func autoConnects(o op) bool {
	return strings.HasPrefix(o.name, "Read") || strings.HasPrefix(o.name, "Write") || o.name == "GetAttrSingle"
}

func eventually(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

// deadPort is a port nobody listens on.
func deadPort(t *rapid.T) uint {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hx.Harness("listen: %v", err)
	}
	defer l.Close()
	return uint(l.Addr().(*net.TCPAddr).Port)
}

// TestC14: whatever happens, Connected tells the truth, nothing leaks, and the
// client can connect again.
func TestC14(t *testing.T) {
	rec := hx.For("C14")
	rec.Rule("a history of connects, disconnects, operations, controller modes (refusing sessions or connections, unreachable) and connection faults (reply lost, connection closed before, inside or after a reply, encapsulation error, idle loss) with at least one fault, refusal or loss")
	rec.Assume("a connection the controller dropped while the client was idle may be reported as connected until the next operation",
		"operations that are not reads or writes may fail on an unconnected client even with AutoConnect")
	hx.Check(t, "C14", 850, func(t *rapid.T) {
		p := shared.Get()
		f := newFix(p, rapid.Uint64().Draw(t, "seed"))
		c := hx.NewClient(p)
		port := c.Controller.Port
		long := 10 * time.Second
		c.SocketTimeout = long
		c.AutoConnect = rapid.Bool().Draw(t, "auto")
		if rapid.Bool().Draw(t, "ids of the client") {
			c.VendorId = rapid.SampledFrom([]uint16{1, 0x9998, 0xFFFF, 0}).Draw(t, "vendor")
			c.SerialNumber = rapid.SampledFrom([]uint32{1, 0x80000000, 0xFFFFFFFF, 0}).Draw(t, "serial")
		}
		if rapid.IntRange(0, 3).Draw(t, "small") == 0 {
			c.ConnectionSize = 511
		}
		if rapid.IntRange(0, 2).Draw(t, "route") == 0 {
			route := rapid.SampledFrom([]string{"1,0", "1,5,2,192.168.100.200,1,3", "1,0,2,10.20.30.40", "1,2,2,172.16.254.101,1,4,2,192.168.200.101,1,0", "1,1,1,2,1,3"}).Draw(t, "path")
			buf, err := gologix.ParsePath(route)
			if err != nil {
				t.Fatalf("ParsePath(%q): %v", route, err)
			}
			c.Controller.Path = buf
		}
		ids := rapid.SampledFrom([][2]uint32{{0x10000001, 0x10001}, {0, 1}, {0xFFF0, 3}, {0xFFFFFFF8, 5}, {0x80000000, 0x01000000}, {0x7FFFFFFE, 1}, {0x10000, 0x10000}}).Draw(t, "ids")
		p.StartIDs(ids[0], ids[1])
		var hist []string
		events := 0
		garbled := false
		lost := false // the controller dropped the connection and the client cannot know yet
		fail := func(format string, a ...any) {
			t.Fatalf("%s\n  after %s", fmt.Sprintf(format, a...), strings.Join(hist, "; "))
		}
		willing := func() bool { return p.RegisterOK && (p.AllowLarge || p.AllowStandard) && c.Controller.Port == port }
		truth := func() {
			if c.Connected() {
				if lost {
					return
				}
				if !eventually(5*time.Second, func() bool {
					// a connection whose acceptance was garbled stays open until the socket closes
					n := p.OpenConns()
					return (n == 1 || n == 2 && garbled) && p.Sockets() == 1
				}) {
					fail("connected, but the controller holds %d connections on %d sockets", p.OpenConns(), p.Sockets())
				}
				return
			}
			lost = false
			if !eventually(5*time.Second, func() bool { return p.OpenConns() == 0 && p.Sockets() == 0 }) {
				fail("disconnected, but the controller still holds %d connections on %d sockets", p.OpenConns(), p.Sockets())
			}
		}
		steps := rapid.IntRange(3, 9).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			step := rapid.SampledFrom([]string{"connect", "connect", "disconnect", "op", "op", "op", "op", "twice", "loss", "flap", "debugclose", "mode", "mode", "auto"}).Draw(t, "step")
			fault := ""
			faultAt := 0
			if rapid.IntRange(0, 2).Draw(t, "faulty") == 0 {
				fault = rapid.SampledFrom([]string{"lost", "closed", "cut", "encap", "after", "stall", "stall"}).Draw(t, "fault")
				faultAt = rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(t, "faultAt")
			}
			cut := rapid.IntRange(1, 60).Draw(t, "cut")
			stall := 0
			if fault == "stall" {
				stall = rapid.SampledFrom([]int{0, 0, 200, 1025, 4000, 60000, 65535}).Draw(t, "stall")
			}
			was := c.Connected()
			base := p.FrameCount()
			fired := false
			h := step
			arm := func() {
				if fault == "" {
					return
				}
				h += fmt.Sprintf(" with reply %d %s", faultAt, fault)
				if fault == "lost" || fault == "stall" {
					c.SocketTimeout = 150 * time.Millisecond
				}
				p.Frame = func(n int, cmd uint16, fr []byte) ([]byte, plc.Action) {
					if n-base != faultAt {
						return fr, plc.Send
					}
					fired = true
					switch fault {
					case "lost":
						return fr, plc.Drop
					case "closed":
						return nil, plc.Close
					case "cut":
						return fr[:cut%len(fr)], plc.Close
					case "after":
						return fr, plc.Close
					case "stall":
						// the rest never comes, and there may be much of it
						if stall > 0 {
							binary.LittleEndian.PutUint16(fr[2:], uint16(stall))
							return fr[:24+cut%(len(fr)-23)], plc.Send
						}
						return fr[:cut%len(fr)], plc.Send
					}
					binary.LittleEndian.PutUint32(fr[8:], 0x64)
					return fr, plc.Send
				}
			}
			disarm := func() {
				p.Lock()
				p.Frame = nil
				p.Unlock()
				c.SocketTimeout = long
				if fired {
					events++
					h += "!"
					garbled = garbled || fault == "encap"
					if fault == "after" && p.FrameCount()-base == faultAt+1 {
						// if more was answered since, the client has noticed and connected again
						lost = true
					}
				}
			}
			within := func(f func()) {
				start := time.Now()
				if bad := hx.Within(opLimit, f); bad != "" {
					hist = append(hist, h)
					fail("%s", bad)
				}
				if took := time.Since(start); took > 15*time.Second {
					hist = append(hist, h)
					fail("took %v", took)
				}
			}
			switch step {
			case "connect":
				arm()
				var err error
				early := ""
				watched := !was && p.OpenConns() == 0
				stop, watching := make(chan struct{}), make(chan struct{})
				if watched {
					granted := p.Granted()
					go func() {
						defer close(watching)
						for {
							select {
							case <-stop:
								return
							default:
							}
							if c.Connected() && p.Granted() == granted {
								early = "reported as connected while connecting, before the controller accepted a connection"
								return
							}
						}
					}()
				}
				within(func() { err = c.Connect() })
				disarm()
				hist = append(hist, fmt.Sprintf("%s: %v", h, err))
				if close(stop); watched {
					<-watching
				}
				if early != "" {
					fail("%s", early)
				}
				switch {
				case was && err == nil:
					fail("connecting a connected client succeeded")
				case was && !c.Connected():
					fail("connecting a connected client disconnected it")
				case was:
				case (err == nil) != c.Connected():
					fail("Connect gave %v but Connected is %v", err, c.Connected())
				case err == nil && !willing():
					fail("connected to a controller that refuses or is not there")
				case err != nil && willing() && !fired:
					fail("a willing controller and yet Connect failed: %v; the controller noted %v", err, p.TakeErrors())
				}
			case "twice":
				var errs [2]error
				within(func() {
					var wg sync.WaitGroup
					for k := range errs {
						wg.Add(1)
						go func() { defer wg.Done(); errs[k] = c.Connect() }()
					}
					wg.Wait()
				})
				hist = append(hist, fmt.Sprintf("%s: %v, %v", h, errs[0], errs[1]))
				ok := 0
				for _, e := range errs {
					if e == nil {
						ok++
					}
				}
				if was && (ok != 0 || !c.Connected()) || !was && ok == 1 != willing() || ok > 1 || !was && c.Connected() != (ok == 1) {
					fail("two Connects at once: %d succeeded, connected %v", ok, c.Connected())
				}
			case "disconnect":
				held := p.OpenConns() > 0
				p.Lock()
				closes := p.Closes
				p.Unlock()
				arm()
				var err error
				within(func() { err = c.Disconnect() })
				disarm()
				p.Lock()
				closed := p.Closes - closes
				p.Unlock()
				if was && held && !lost && !fired && closed != 1 {
					fail("disconnecting closed %d connections by request", closed)
				}
				hist = append(hist, fmt.Sprintf("%s: %v", h, err))
				if c.Connected() {
					fail("connected after Disconnect")
				}
				if !was && err == nil {
					fail("disconnecting an unconnected client succeeded")
				}
				if was && err != nil {
					fail("Disconnect failed: %v", err)
				}
			case "op":
				o := opTable[rapid.IntRange(0, len(opTable)-1).Draw(t, "op")]
				salt := rapid.Uint64().Draw(t, "salt")
				refuse := rapid.IntRange(0, 5).Draw(t, "refuse") == 0
				h += " " + o.name
				arm()
				refused := false
				if refuse {
					p.Intercept = func(r *plc.Req) *plc.Reply {
						if r.Service == 0x54 || r.Service == 0x5B || r.Service == 0x4E && len(r.Path) > 0 && r.Path[0].Num == 6 {
							return nil
						}
						refused = true
						return &plc.Reply{Status: 0x08}
					}
				}
				var got any
				var err error
				var bad string
				auto := c.AutoConnect
				wasLost := lost
				within(func() { got, err, bad = o.do(f, c, salt) })
				disarm()
				p.Lock()
				p.Intercept = nil
				p.Unlock()
				if refused {
					events++
					h += " refused"
				}
				hist = append(hist, fmt.Sprintf("%s: %v", h, err))
				if bad != "" {
					fail("%s", bad)
				}
				if err == nil && (!refused || !o.list) {
					if bad := o.rightL(f, got, salt, refused || fired); bad != "" {
						fail("success but %s", bad)
					}
				}
				switch {
				case fired && fault != "encap" && fault != "after" && err == nil && o.name == "data table":
				case wasLost && !c.Connected():
					if err == nil {
						fail("%s succeeded on a lost connection", o.name)
					}
				case !was && !auto:
					if err == nil || c.Connected() {
						fail("an operation without connection: %v, connected %v", err, c.Connected())
					}
				case !was && autoConnects(o) && !fired && !refused && willing() && err != nil:
					fail("%s should have connected first: %v", o.name, err)
				case !was && !willing() && err == nil:
					fail("%s succeeded without a controller", o.name)
				case was && !wasLost && !fired && !refused && err != nil:
					fail("%s failed: %v", o.name, err)
				case was && !wasLost && !fired && !c.Connected():
					fail("%s disconnected: %v", o.name, err)
				case was && !auto && fired && (fault == "lost" || fault == "closed" || fault == "cut" || fault == "stall"):
					if c.Connected() || err == nil {
						fail("reply %s but connected is %v and the error %v", fault, c.Connected(), err)
					}
				}
				if wasLost && c.Connected() {
					// it must have noticed and connected again
					lost = fired && fault == "after" && p.FrameCount()-base == faultAt+1
				}
			case "loss":
				p.DropAll()
				hist = append(hist, h)
				events++
				lost = c.Connected()
			case "flap":
				n := rapid.IntRange(2, 4).Draw(t, "flaps")
				h = fmt.Sprintf("%d losses", n)
				hist = append(hist, h)
				for k := 0; k < n; k++ {
					p.DropAll()
					events++
					if c.Connected() {
						var d int32
						auto := c.AutoConnect
						c.AutoConnect = false
						var err error
						within(func() { err = c.Read("D", &d) })
						c.AutoConnect = auto
						if err == nil || c.Connected() {
							fail("a read on a lost connection: %v, connected %v", err, c.Connected())
						}
					}
					lost = false
					truth()
					var err error
					within(func() { err = c.Connect() })
					if (err == nil) != willing() {
						fail("connecting after loss %d: %v", k, err)
					}
					truth()
				}
			case "debugclose":
				c.DebugCloseConn()
				hist = append(hist, h)
				lost = c.Connected()
			case "mode":
				p.Lock()
				p.RegisterOK, p.AllowLarge, p.AllowStandard = true, true, true
				p.Unlock()
				c.Controller.Port = port
				m := rapid.SampledFrom([]string{"willing", "willing", "no session", "no connection", "no large", "unreachable"}).Draw(t, "mode")
				p.Lock()
				switch m {
				case "no session":
					p.RegisterOK = false
				case "no connection":
					p.AllowLarge, p.AllowStandard = false, false
				case "no large":
					p.AllowLarge = false
				case "unreachable":
					c.Controller.Port = deadPort(t)
				}
				p.Unlock()
				if m != "willing" {
					events++
				}
				hist = append(hist, h+" "+m)
			case "auto":
				c.AutoConnect = !c.AutoConnect
				hist = append(hist, fmt.Sprintf("auto=%v", c.AutoConnect))
			}
			truth()
		}
		// and now everything works again
		p.Lock()
		p.RegisterOK, p.AllowLarge, p.AllowStandard = true, true, true
		p.Unlock()
		c.Controller.Port = port
		c.AutoConnect = false
		hist = append(hist, "end")
		if lost {
			var d int32
			c.Read("D", &d)
			if c.Connected() {
				fail("a read on a lost connection left the client connected")
			}
			truth()
		}
		if !c.Connected() {
			if err := c.Connect(); err != nil {
				fail("cannot connect again: %v; the controller noted %v", err, p.TakeErrors())
			}
			truth()
		}
		var d int32
		if err := c.Read("D", &d); err != nil || d != f.val("D", 0, 1)[0] {
			fail("the last read gave %d, %v instead of %v", d, err, f.val("D", 0, 1)[0])
		}
		if err := c.Disconnect(); err != nil || c.Connected() {
			fail("the last disconnect: %v", err)
		}
		truth()
		p.Lock()
		reused := p.Reused
		p.Unlock()
		if reused > 1 {
			// by chance once in many thousand connections, but not twice
			fail("%d connections were opened under the identity of one that was lost and that the controller may still hold", reused)
		}
		for _, e := range p.TakeErrors() {
			if !strings.Contains(e, "peer closed inside") && !strings.Contains(e, "which is not open") {
				fail("the controller noted %s", e)
			}
		}
		rec.Case(strings.Join(hist, "; "), events > 0, fmt.Sprintf("events %d", min(events, 5)))
	})
}
