package props

import (
	"encoding/binary"
	"fmt"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// TestC32: polls come at the interval while keep-alive is on and never
// otherwise, and a failing poll is noticed.
func TestC32(t *testing.T) {
	rec := hx.For("C32")
	rec.Rule("a history of connects, disconnects, cancellations, restarts, operations and failing polls on a client with keep-alive, in which keep-alive ran")
	rec.Assume("a poll that had begun when keep-alive was cancelled may still arrive",
		"a refused first poll may leave the client connected without keep-alive",
		"polls count as continuing when two more arrive within ten seconds, as too many when they exceed the elapsed intervals by more than three")
	hx.Check(t, "C32", 110, func(t *rapid.T) {
		p := shared.Get()
		f := newFix(p, rapid.Uint64().Draw(t, "seed"))
		c := hx.NewClient(p)
		c.AutoConnect = rapid.Bool().Draw(t, "autoconnect")
		c.KeepAliveAutoStart = true
		every := time.Duration(rapid.IntRange(2, 6).Draw(t, "ms")) * time.Millisecond
		c.KeepAliveFrequency = every
		c.KeepAlivePollTags = rapid.IntRange(0, 3).Draw(t, "pollTags") == 0
		props := []gologix.CIPAttribute{1, 2, 3, 4, 10}
		if rapid.Bool().Draw(t, "ownProps") {
			props = nil
			for i, n := 0, rapid.IntRange(1, 6).Draw(t, "props"); i < n; i++ {
				props = append(props, gologix.CIPAttribute(rapid.Uint8Range(1, 255).Draw(t, "prop")))
			}
		}
		c.KeepAliveProps = props
		// the object that is polled
		polls := 0
		version := uint32(1)
		refuse := false
		wrong := ""
		p.Lock()
		p.Objects[0xAC] = func(r *plc.Req) plc.Reply {
			polls++
			want := binary.LittleEndian.AppendUint16(nil, uint16(len(props)))
			for _, a := range props {
				want = binary.LittleEndian.AppendUint16(want, uint16(a))
			}
			if r.Service != 3 || plc.SegsString(r.Path) != plc.SegsString([]plc.Seg{{Kind: 'c', Num: 0xAC}, {Kind: 'i', Num: 1}}) || !slices.Equal(r.Data, want) {
				wrong = r.String()
			}
			if refuse {
				return plc.Reply{Status: 0x08}
			}
			out := binary.LittleEndian.AppendUint16(nil, uint16(len(props)))
			for i, a := range props {
				out = binary.LittleEndian.AppendUint16(out, uint16(a))
				out = binary.LittleEndian.AppendUint16(out, 0)
				v := uint32(a) * 77
				if i == int(version)%len(props) {
					v += version
				}
				out = binary.LittleEndian.AppendUint32(out, v)
			}
			return plc.Reply{Data: out}
		}
		p.Unlock()
		count := func() int { p.Lock(); defer p.Unlock(); return polls }
		var hist []string
		fail := func(format string, a ...any) {
			t.Fatalf("%s\n  every %v, poll tags %v, props %v, after %s", fmt.Sprintf(format, a...), every, c.KeepAlivePollTags, props, strings.Join(hist, "; "))
		}
		on := false // keep-alive has to be running
		ran := 0
		check := func() {
			if on {
				ran++
				n := count()
				if !eventually(10*time.Second, func() bool { return count() >= n+2 }) {
					fail("keep-alive stopped polling (%d polls, connected %v)", count(), c.Connected())
				}
				t0, n0 := time.Now(), count()
				time.Sleep(12 * every)
				n1, took := count(), time.Since(t0)
				if n1-n0 > int(took/every)+3 {
					fail("%d polls in %v", n1-n0, took)
				}
				if !c.Connected() {
					fail("keep-alive disconnected a working client")
				}
				return
			}
			n := count()
			time.Sleep(6*every + time.Millisecond)
			if m := count(); m > n+1 {
				fail("%d polls though keep-alive is off", m-n)
			}
		}
		connect := func() {
			if err := c.Connect(); err != nil {
				fail("connect: %v; the controller noted %v", err, p.TakeErrors())
			}
			on = c.KeepAliveAutoStart
		}
		steps := rapid.IntRange(3, 9).Draw(t, "steps")
		connect()
		hist = append(hist, "connect")
		for i := 0; i < steps; i++ {
			look := rapid.IntRange(0, 2).Draw(t, "look") != 0
			if look {
				check()
			}
			step := rapid.SampledFrom([]string{"ops", "ops", "ops", "cancel", "force", "force", "stop", "restart", "restart", "bounce", "bounce", "disconnect", "disconnect", "refuse", "drop", "silent", "change", "change", "auto"}).Draw(t, "step")
			hist = append(hist, step)
			switch step {
			case "ops":
				for k := rapid.IntRange(1, 8).Draw(t, "ops"); k > 0; k-- {
					o := opTable[rapid.IntRange(0, len(opTable)-1).Draw(t, "op")]
					if o.list || strings.Contains(o.name, "AttrList") || strings.Contains(o.name, "PropList") {
						continue // listings touch exported fields, and the others poll like keep-alive
					}
					was := c.Connected()
					got, err, bad := o.do(f, c, uint64(k))
					if bad != "" {
						fail("%s: %s", o.name, bad)
					}
					hist = append(hist, o.name)
					if !was {
						if c.Connected() {
							on = c.KeepAliveAutoStart
						}
						if !c.AutoConnect || !autoConnects(o) {
							continue
						}
					}
					if err != nil {
						fail("%s: %v", o.name, err)
					}
					if bad := o.right(f, got, uint64(k)); bad != "" {
						fail("%s", bad)
					}
				}
			case "cancel":
				err := c.KeepAliveCancel(false)
				if (err != nil) != c.KeepAliveAutoStart {
					fail("cancelling without force gave %v while automatic keep-alive is %v", err, c.KeepAliveAutoStart)
				}
				if err == nil {
					on = false
				}
			case "force":
				if err := c.KeepAliveCancel(true); err != nil {
					fail("cancelling by force gave %v", err)
				}
				on = false
			case "stop":
				c.KeepAliveAutoStart = false
				if err := c.KeepAliveCancel(false); err != nil {
					fail("cancelling gave %v", err)
				}
				on = false
			case "restart":
				// one that runs already goes on alone
				go c.KeepAlive()
				if c.KeepAliveAutoStart && c.Connected() {
					on = true
					time.Sleep(time.Millisecond)
					eventually(10*time.Second, func() bool { return !on || count() > 0 })
				}
				check()
			case "bounce":
				// cancelled in the middle of slow polls and started again at once
				if !c.Connected() || !c.KeepAliveAutoStart {
					break
				}
				slow := time.Duration(rapid.IntRange(0, 3000).Draw(t, "slow")) * time.Microsecond
				p.Lock()
				p.Delay = func() { time.Sleep(slow) }
				p.Unlock()
				for k := rapid.IntRange(2, 6).Draw(t, "bounces"); k > 0; k-- {
					time.Sleep(time.Duration(rapid.IntRange(0, 4000).Draw(t, "wait")) * time.Microsecond)
					if err := c.KeepAliveCancel(true); err != nil {
						fail("cancelling by force gave %v", err)
					}
					go c.KeepAlive()
				}
				p.Lock()
				p.Delay = nil
				p.Unlock()
				// what was cancelled is over now, and another one is one too many
				time.Sleep(2*every + slow)
				go c.KeepAlive()
				go c.KeepAlive()
				on = true
				check()
			case "disconnect":
				if !c.Connected() {
					connect()
					break
				}
				if err := c.Disconnect(); err != nil {
					fail("disconnect: %v", err)
				}
				on = false
			case "auto":
				c.KeepAliveAutoStart = !c.KeepAliveAutoStart
				if c.KeepAliveAutoStart && c.Connected() && !on {
					go c.KeepAlive()
					on = true
					check()
				}
			case "change":
				check()
				p.TakeLog()
				p.Lock()
				version++
				p.Unlock()
				if !on || !c.KeepAlivePollTags {
					break
				}
				lists := 0
				if !eventually(10*time.Second, func() bool {
					for _, r := range p.TakeLog() {
						if r.Service == 0x55 {
							lists++
						}
					}
					return lists > 0
				}) {
					fail("a changed controller was not listed again")
				}
			case "refuse", "drop", "silent":
				if !on {
					break
				}
				check()
				switch step {
				case "refuse":
					p.Lock()
					refuse = true
					p.Unlock()
				case "drop":
					p.DropAll()
				case "silent":
					// the timeout is a plain field, so it may not change while polls run
					p.Lock()
					p.Frame = func(n int, cmd uint16, fr []byte) ([]byte, plc.Action) { return fr[:len(fr)/2], plc.Close }
					p.Unlock()
				}
				if !eventually(10*time.Second, func() bool { return !c.Connected() }) {
					fail("a failing poll (%s) left the client connected", step)
				}
				on = false
				if !eventually(10*time.Second, func() bool { return p.OpenConns() == 0 && p.Sockets() == 0 }) {
					fail("a failing poll (%s) left %d connections open", step, p.OpenConns())
				}
				check()
				p.Lock()
				p.Frame, refuse = nil, false
				p.Unlock()
				p.TakeErrors()
			}
		}
		check()
		if c.Connected() {
			if err := c.Disconnect(); err != nil {
				fail("disconnect: %v", err)
			}
			on = false
			check()
		}
		p.Lock()
		w := wrong
		p.Unlock()
		if w != "" {
			fail("a poll was %s", w)
		}
		rec.Case(strings.Join(hist, "; "), ran > 0, fmt.Sprintf("runs %d", min(ran, 6)))
	})
}
