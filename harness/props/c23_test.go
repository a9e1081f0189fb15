package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/raw"
)

// ioKit is an I/O provider of some pair of types.
type ioKit struct {
	name    string
	ep      gologix.CIPEndpoint
	in, out reflect.Type
	setIn   func(any)
	// outs returns the output data: what the provider says it is, or for one with channels what comes out of each
	// channel now.
	outs func() [][]any
	// more makes another channel.
	more func() bool
	held func() any // the program's own variable
}

func newIO[Tin, Tout any](chans bool) *ioKit {
	var zi Tin
	var zo Tout
	k := &ioKit{in: reflect.TypeOf(zi), out: reflect.TypeOf(zo)}
	if chans {
		p := &gologix.IOChannelProvider[Tin, Tout]{}
		k.name, k.ep = "channel", p
		k.setIn = func(v any) { p.SetInputData(v.(Tin)) }
		var cs []<-chan Tout
		k.more = func() bool { cs = append(cs, p.GetOutputDataChannel()); return true }
		k.outs = func() [][]any {
			got := make([][]any, len(cs))
			for i, c := range cs {
				for more := true; more; {
					select {
					case v := <-c:
						got[i] = append(got[i], v)
					default:
						more = false
					}
				}
			}
			return got
		}
		return k
	}
	in, out := new(Tin), new(Tout)
	p := &gologix.IOProvider[Tin, Tout]{In: in, Out: out}
	k.name, k.ep = "direct", p
	k.setIn = func(v any) { p.SetInputData(v.(Tin)) }
	k.more = func() bool { return false }
	k.outs = func() [][]any { return [][]any{{p.GetOutputData()}} }
	k.held = func() any {
		p.OutMutex.Lock()
		defer p.OutMutex.Unlock()
		return *out
	}
	return k
}

type (
	ioWords struct{ A, B int16 }
	ioMixed struct {
		N int32
		F float32
		C int16
		D uint16
	}
	ioBits struct {
		On, Off, Run, Stop, B4, B5, B6, B7, B8, B9 bool
		N                                          int32
		Last                                       bool
	}
	ioArray struct {
		V [12]int16
		F [3]float64
		B [5]uint8
	}
	ioNested struct {
		M    ioMixed
		L    [3]ioWords
		Code uint8
	}
	ioByte  struct{ B uint8 }
	ioLarge struct {
		S  [60]int32
		L  int64
		U  uint64
		S8 int8
	}
	ioHuge struct {
		A [100]int32
		B [45]int16
		C uint8
	}
)

// ioKits make providers. No two have the same types, so that data for one is not data for another.
var ioKits = []func(bool) *ioKit{
	newIO[ioWords, ioWords], newIO[ioMixed, ioMixed], newIO[ioBits, ioBits], newIO[ioArray, ioNested],
	newIO[ioNested, ioArray], newIO[ioByte, ioByte], newIO[ioLarge, ioMixed], newIO[ioWords, ioLarge], newIO[ioHuge, ioHuge],
}

func ioGen(t *rapid.T, typ reflect.Type, l string) any {
	v := reflect.New(typ).Elem()
	hx.Fill(t, v, l)
	return v.Interface()
}

func ioImage(v any) []byte { return hx.EncodeTight(reflect.ValueOf(v)) }

// ioRaw is what the raw side of a check for I/O needs.
type ioRaw struct {
	udp   net.Conn
	c     *raw.Conn
	rec   *endpoint // where the packets for this side end up
	opens []raw.Open
	fence uint32 // connection for fences
	n     uint32
	serl  uint16
	seen  map[uint32][]ioPacket // packets from the server, by connection
	marks map[uint32]bool
}

type ioPacket struct {
	seq  uint32
	seq2 uint16
	data []byte
	bad  string
}

// recordPath is the path whose endpoint takes the packets that the server sends, which come back to it.
const recordPath = 5

func ioDial(eps []*endpoint) (*ioRaw, error) {
	r := &ioRaw{rec: eps[recordPath], seen: map[uint32][]ioPacket{}, marks: map[uint32]bool{}}
	r.rec.set(&memStore{})
	var err error
	if r.udp, err = net.Dial("udp", udpAddr); err != nil {
		return nil, err
	}
	if r.c, err = raw.Dial(tcpAddr, "127.0.0.1"); err != nil {
		return nil, err
	}
	if err := r.c.RegisterSession(); err != nil {
		return nil, err
	}
	r.fence, err = r.recorder()
	return r, err
}

// open opens a connection for cyclic data and remembers to close it.
func (r *ioRaw) open(route []byte, to, rpi uint32, mod func(*raw.Open)) (raw.Open, uint32, error) {
	r.serl++
	o := raw.Open{IO: true, TO: to, Serial: r.serl, Vendor: 7, Orig: 77, OTRPI: rpi, TORPI: rpi, OTSize: 511, TOSize: 511, Route: route, Point: raw.IOPoint}
	if mod != nil {
		mod(&o)
	}
	rep, err := r.c.Unconnected(o.Bytes())
	if err != nil {
		return o, 0, err
	}
	ot, _, err := o.Opened(rep)
	r.opens = append(r.opens, o)
	return o, ot, err
}

// recorder opens a connection whose packets are recorded.
func (r *ioRaw) recorder() (uint32, error) {
	_, ot, err := r.open(r.rec.path, 0xF0F0F0F0, 3000000, nil)
	return ot, err
}

func (r *ioRaw) shut(o raw.Open) error {
	rep, err := r.c.Unconnected(o.CloseBytes())
	if err == nil {
		err = o.Closed(rep)
	}
	if err == nil && rep.Status != 0 {
		err = fmt.Errorf("forward close is refused: %v", rep)
	}
	for i, x := range r.opens {
		if x.Serial == o.Serial {
			r.opens = append(r.opens[:i:i], r.opens[i+1:]...)
			break
		}
	}
	return err
}

func (r *ioRaw) end() {
	for len(r.opens) > 0 {
		if r.shut(r.opens[0]) != nil {
			break
		}
	}
	r.c.Close()
	r.udp.Close()
}

// pump sorts what has arrived.
func (r *ioRaw) pump() {
	for _, c := range r.rec.take() {
		if c.op != "iowrite" || len(c.raw) == 0 || len(c.raw[0]) < 8 {
			continue
		}
		id := binary.LittleEndian.Uint32(c.raw[0])
		p := ioPacket{seq: binary.LittleEndian.Uint32(c.raw[0][4:])}
		if id == r.fence {
			r.marks[p.seq] = true
			continue
		}
		switch {
		case len(c.raw) != 2 || len(c.raw[0]) != 8:
			p.bad = fmt.Sprintf("items %x", c.raw)
		case len(c.raw[1]) < 2:
			p.bad = fmt.Sprintf("data %x without a sequence number", c.raw[1])
		default:
			p.seq2, p.data = binary.LittleEndian.Uint16(c.raw[1]), c.raw[1][2:]
		}
		r.seen[id] = append(r.seen[id], p)
	}
}

// sync waits until the server has dealt with everything sent so far.
func (r *ioRaw) sync() string {
	r.n++
	r.udp.Write(raw.IOPacket(r.fence, r.n, make([]byte, 6)))
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(100 * time.Microsecond) {
		r.pump()
		if r.marks[r.n] {
			return ""
		}
	}
	return "the server does not take cyclic packets any more"
}

// ioSession is an open connection to an I/O provider.
type ioSession struct {
	k      *ioSide
	open   raw.Open
	ot, id uint32 // id: T->O
	seq    uint32
	rpi    time.Duration
	closed bool
}

// ioSide is a provider and what its data should be.
type ioSide struct {
	ep   *endpoint
	kit  *ioKit
	out  any     // newest output data
	any  bool    // the last packet may have been taken or not
	sent [][]any // per channel, what has been sent since the last look
	in   any
	past []any // input data of before
}

// ioData is the data item of a packet to the server.
func ioData(seq uint32, image []byte) []byte {
	b := binary.LittleEndian.AppendUint16(nil, uint16(seq))
	return append(append(b, 1, 0, 0, 0), image...)
}

func (s *ioSide) check() string {
	got := s.kit.outs()
	if s.any {
		for i := range s.sent {
			s.sent[i] = nil
		}
		return ""
	}
	if s.kit.held != nil {
		if !reflect.DeepEqual(got[0][0], s.out) {
			return fmt.Sprintf("the output data is %+v, should be %+v", got[0][0], s.out)
		}
		if v := s.kit.held(); !reflect.DeepEqual(v, s.out) {
			return fmt.Sprintf("the program's variable is %+v, should be %+v", v, s.out)
		}
		return ""
	}
	for i, g := range got {
		want := s.sent[i]
		s.sent[i] = nil
		if len(want) == 0 {
			if len(g) > 0 {
				return fmt.Sprintf("channel %d gives %+v, nothing was sent", i, g)
			}
			continue
		}
		if len(g) == 0 || !reflect.DeepEqual(g[len(g)-1], want[len(want)-1]) {
			return fmt.Sprintf("channel %d gives %+v, the newest is %+v", i, g, want[len(want)-1])
		}
		at := 0
		for _, v := range g {
			for at < len(want) && !reflect.DeepEqual(want[at], v) {
				at++
			}
			if at == len(want) {
				return fmt.Sprintf("channel %d gives %+v of %+v sent", i, g, want)
			}
			at++
		}
	}
	return ""
}

func TestC23(t *testing.T) {
	rec := hx.For("C23")
	rec.Rule("data in both directions, with packets that are to be ignored between ones that are to be taken, or several connections at once")
	rec.Assume("packets that are longer than the data may be taken or not",
		"sequence numbers of received packets are not judged, so nothing is said about late or repeated ones",
		"I/O connections may outlive the TCP connection that opened them",
		"when nobody takes data from a channel, older data may be dropped for newer")
	hx.Check(t, "C23", 400, func(t *rapid.T) {
		_, eps := startServer()
		r, err := ioDial(eps)
		if err != nil {
			t.Fatalf("preparing: %v", err)
		}
		defer r.end()
		var hist []string
		say := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("%s\nafter %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		var sides []*ioSide
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "providers"); i < n; i++ {
			kit := rapid.SampledFrom(ioKits).Draw(t, "types")(rapid.Bool().Draw(t, "channels"))
			s := &ioSide{ep: eps[i], kit: kit, out: reflect.Zero(kit.out).Interface(), in: reflect.Zero(kit.in).Interface()}
			s.ep.set(kit.ep)
			for j := rapid.IntRange(1, 3).Draw(t, "nchannels"); j > 0; j-- {
				if kit.more() {
					s.sent = append(s.sent, nil)
				}
			}
			sides = append(sides, s)
			say("%v: %s %v/%v", s.ep.path, kit.name, kit.in, kit.out)
		}
		var sess []*ioSession
		classes := map[string]bool{}
		ignored, taken, received := 0, 0, 0
		join := func(s *ioSide) {
			id, err := r.recorder()
			if err != nil {
				fail("open: %v", err)
			}
			rpi := rapid.IntRange(1000, 4000).Draw(t, "rpi")
			x := &ioSession{k: s, id: id, rpi: time.Duration(rpi) * time.Microsecond, seq: rapid.Uint32().Draw(t, "seq")}
			if x.open, x.ot, err = r.open(s.ep.path, id, uint32(rpi), func(o *raw.Open) {
				o.OTRPI = uint32(rapid.IntRange(1000, 1000000).Draw(t, "otrpi"))
			}); err != nil {
				fail("open: %v", err)
			}
			for _, y := range sess {
				if !y.closed && y.ot == x.ot {
					fail("two connections have the id %#x", x.ot)
				}
			}
			sess = append(sess, x)
			say("open %#x to %v", x.ot, s.ep.path)
		}
		for _, s := range sides {
			join(s)
		}
		// class 3 connection, whose id is not one for cyclic data
		_, class3, err := r.open(sides[0].ep.path, 5, 2000000, func(o *raw.Open) { o.IO, o.Point = false, raw.MessageRouter })
		if err != nil {
			fail("open: %v", err)
		}
		live := func() (l []*ioSession) {
			for _, x := range sess {
				if !x.closed {
					l = append(l, x)
				}
			}
			return l
		}
		take := func(s *ioSide, v any) {
			s.out, s.any = v, false
			for i := range s.sent {
				s.sent[i] = append(s.sent[i], v)
			}
			taken++
		}
		checkAll := func() {
			t.Helper()
			if p := r.sync(); p != "" {
				fail("%s", p)
			}
			for _, s := range sides {
				if p := s.check(); p != "" {
					fail("%v (%s): %s", s.ep.path, s.kit.name, p)
				}
			}
		}
		// arrived waits for n more packets on x and checks everything about them.
		arrived := func(x *ioSession, n int) {
			t.Helper()
			if p := r.sync(); p != "" { // what was sent before has arrived then, but for one packet at most
				fail("%s", p)
			}
			from := len(r.seen[x.id])
			for end := time.Now().Add(10 * time.Second); len(r.seen[x.id]) < from+n; time.Sleep(200 * time.Microsecond) {
				if time.Now().After(end) {
					fail("the server stopped sending packets for %#x after %d", x.ot, len(r.seen[x.id]))
				}
				r.pump()
			}
			received += n
			s := x.k
			last := ioImage(s.in)
			got := r.seen[x.id]
			for i, p := range got {
				if p.bad != "" {
					fail("a packet from the server has %s", p.bad)
				}
				if i > 0 && int32(p.seq-got[i-1].seq) <= 0 {
					fail("packet %d of connection %#x has sequence number %d after %d", i, x.ot, p.seq, got[i-1].seq)
				}
				if i > 0 && int16(p.seq2-got[i-1].seq2) <= 0 {
					fail("packet %d of connection %#x has data sequence number %d after %d", i, x.ot, p.seq2, got[i-1].seq2)
				}
				known := bytes.Equal(p.data, last)
				for _, v := range s.past {
					known = known || bytes.Equal(p.data, ioImage(v))
				}
				if !known {
					fail("packet %d of connection %#x has %x, the input data is %x", i, x.ot, p.data, last)
				}
			}
			if p := got[len(got)-1]; !bytes.Equal(p.data, last) {
				fail("the %dth packet of connection %#x after the input data was set has %x, the data is %x", n, x.ot, p.data, last)
			}
			r.seen[x.id] = got[len(got)-1:]
			s.past = nil
		}
		for i := rapid.IntRange(3, 14).Draw(t, "steps"); i > 0; i-- {
			op := rapid.SampledFrom([]string{"burst", "burst", "burst", "input", "input", "close", "open", "read", "channel", "loss"}).Draw(t, "op")
			if op == "loss" && rapid.IntRange(0, 3).Draw(t, "rarely") > 0 {
				op = "read"
			}
			l := live()
			if len(l) == 0 && op != "open" {
				continue
			}
			switch op {
			case "burst":
				for j := rapid.IntRange(1, 8).Draw(t, "packets"); j > 0; j-- {
					x := l[rapid.IntRange(0, len(l)-1).Draw(t, "conn")]
					x.seq++
					v := ioGen(t, x.k.kit.out, "out")
					image := ioImage(v)
					var pkt []byte
					kind := rapid.SampledFrom([]string{"good", "good", "good", "good", "short", "short", "shorter", "unknown", "closed", "class 3", "items", "types", "cut", "garbage", "long"}).Draw(t, "packet")
					id := x.ot
					switch kind {
					case "good":
						take(x.k, v)
					case "short":
						image = image[:rapid.IntRange(0, len(image)-1).Draw(t, "len")]
					case "shorter":
						d := ioData(x.seq, image)
						pkt = raw.IOPacket(id, x.seq, d[:rapid.IntRange(0, 5).Draw(t, "len")])
					case "unknown":
						id = rapid.Uint32().Draw(t, "id")
						for _, y := range sess {
							if y.ot == id {
								id = 0
							}
						}
					case "closed":
						kind = "no " + kind
						for _, y := range sess {
							if y.closed {
								id, kind = y.ot, "closed"
							}
						}
						for _, y := range l {
							if y.ot == id {
								kind = "no closed"
							}
						}
						if kind == "no closed" {
							id = 0
						}
					case "class 3":
						id = class3
					case "items":
						d := raw.Item{ID: 0xB1, Data: ioData(x.seq, image)}
						a := raw.Item{ID: 0x8002, Data: binary.LittleEndian.AppendUint32(binary.LittleEndian.AppendUint32(nil, id), x.seq)}
						pkt = raw.Items(rapid.SampledFrom([][]raw.Item{{}, {a}, {d}, {a, d, d}, {d, a}, {a, a, d}}).Draw(t, "items")...)
					case "types":
						d := raw.Item{ID: rapid.SampledFrom([]uint16{0xB2, 0, 0xA1, 0x8002, 0x8000}).Draw(t, "dtype"), Data: ioData(x.seq, image)}
						pkt = raw.Items(raw.Item{ID: 0x8002, Data: binary.LittleEndian.AppendUint32(binary.LittleEndian.AppendUint32(nil, id), x.seq)}, d)
						if rapid.Bool().Draw(t, "address") {
							pkt = raw.Items(raw.Item{ID: rapid.SampledFrom([]uint16{0xA1, 0, 0xB1}).Draw(t, "atype"), Data: binary.LittleEndian.AppendUint32(nil, id)}, raw.Item{ID: 0xB1, Data: ioData(x.seq, image)})
						}
					case "cut":
						pkt = raw.IOPacket(id, x.seq, ioData(x.seq, image))
						pkt = pkt[:rapid.IntRange(0, len(pkt)-1).Draw(t, "len")]
					case "garbage":
						pkt = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
						if len(pkt) > 20 && binary.LittleEndian.Uint32(pkt[6:]) == id {
							pkt = nil
						}
					case "long":
						image = append(image, rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "rest")...)
						x.k.any = true
					}
					if pkt == nil {
						pkt = raw.IOPacket(id, x.seq, ioData(x.seq, image))
					}
					if kind != "good" && kind != "long" {
						ignored++
					}
					classes["packet "+kind] = true
					say("%s packet %x", kind, pkt)
					if _, err := r.udp.Write(pkt); err != nil {
						t.Fatalf("sending: %v", err)
					}
				}
				checkAll()
			case "input":
				s := sides[rapid.IntRange(0, len(sides)-1).Draw(t, "side")]
				for j := rapid.IntRange(1, 3).Draw(t, "times"); j > 0; j-- {
					s.past = append(s.past, s.in)
					s.in = ioGen(t, s.kit.in, "in")
					s.kit.setIn(s.in)
					say("%v has input %x", s.ep.path, ioImage(s.in))
				}
				for _, x := range l {
					if x.k == s {
						past := s.past
						arrived(x, rapid.IntRange(3, 6).Draw(t, "cycles"))
						s.past = past
					}
				}
				// those that were under way for other connections of the side have been looked at too.
				s.past = nil
			case "close":
				x := l[rapid.IntRange(0, len(l)-1).Draw(t, "which")]
				say("close %#x", x.ot)
				if err := r.shut(x.open); err != nil {
					fail("%v", err)
				}
				x.closed = true
				// what was under way may still come, but then it ends
				for end, quiet := time.Now().Add(10*time.Second), time.Now(); time.Since(quiet) < 5*x.rpi+20*time.Millisecond; time.Sleep(time.Millisecond) {
					r.pump()
					if len(r.seen[x.id]) > 0 {
						quiet = time.Now()
						r.seen[x.id] = nil
					}
					if time.Now().After(end) {
						fail("the server goes on sending packets for %#x after it was closed", x.ot)
					}
				}
				classes[op] = true
			case "open":
				if len(l) < 4 {
					join(sides[rapid.IntRange(0, len(sides)-1).Draw(t, "side")])
				}
			case "read":
				r2, err := r.c.Ask(raw.SendUnit, raw.Unit(class3, uint16(i), raw.Read(raw.T("x"), 0, 1)))
				if err != nil {
					fail("read of a tag: %v", err)
				}
				if _, _, b, err := raw.ParseUnit(r2.Body); err != nil {
					fail("read of a tag: %v", err)
				} else if p, err := raw.ParseReply(b); err != nil || p.Status == 0 {
					fail("read of a tag of an I/O provider: %v %v", p, err)
				}
			case "loss":
				// the TCP connection ends. Those for cyclic data may go on, but can still be closed.
				say("the TCP connection is lost, all are closed over another one")
				old := r.opens
				r.opens = nil
				r.c.Close()
				if r.c, err = raw.Dial(tcpAddr, ""); err != nil {
					fail("connecting again: %v", err)
				}
				if err = r.c.RegisterSession(); err != nil {
					fail("connecting again: %v", err)
				}
				if r.fence, err = r.recorder(); err != nil {
					fail("open: %v", err)
				}
				closeOld := func(o raw.Open) {
					// the server may need a moment to notice the loss
					for end := time.Now().Add(time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
						rep, err := r.c.Unconnected(o.CloseBytes())
						if err != nil {
							fail("closing %d of before: %v", o.Serial, err)
						}
						if rep.Status == 0 {
							return
						}
					}
				}
				ours := map[uint16]bool{}
				slow := time.Duration(0)
				for _, x := range l {
					closeOld(x.open)
					x.closed = true
					ours[x.open.Serial] = true
					slow = max(slow, x.rpi)
				}
				for end, quiet := time.Now().Add(10*time.Second), time.Now(); time.Since(quiet) < 5*slow+20*time.Millisecond; time.Sleep(time.Millisecond) {
					r.pump()
					for _, x := range l {
						if len(r.seen[x.id]) > 0 {
							quiet = time.Now()
							r.seen[x.id] = nil
						}
					}
					if time.Now().After(end) {
						fail("after closing them over another TCP connection the server goes on sending packets")
					}
				}
				for _, o := range old {
					if !ours[o.Serial] && o.IO {
						closeOld(o)
					}
				}
				if _, class3, err = r.open(sides[0].ep.path, 5, 2000000, func(o *raw.Open) { o.IO, o.Point = false, raw.MessageRouter }); err != nil {
					fail("open: %v", err)
				}
				for _, s := range sides {
					join(s)
				}
				classes[op] = true
			case "channel":
				s := sides[rapid.IntRange(0, len(sides)-1).Draw(t, "side")]
				if s.kit.more() {
					s.sent = append(s.sent, nil)
				}
			}
		}
		for _, x := range live() {
			arrived(x, 2)
		}
		checkAll()
		var cs []string
		for c := range classes {
			cs = append(cs, c)
		}
		rec.Case(strings.Join(hist, "; "), taken > 0 && received > 0 && (ignored > 0 || len(sess) > 1), cs...)
	})
}

// ioCounted is a structure whose members all follow from one number.
type ioCounted struct {
	N int32
	A [20]int32
	M struct {
		X, Y int16
		Z    int32
	}
	F float64
}

func ioCount(n int32) (v ioCounted) {
	v.N = n
	for i := range v.A {
		v.A[i] = n * int32(i+3)
	}
	v.M.X, v.M.Y, v.M.Z, v.F = int16(n), ^int16(n), ^n, float64(n)/2
	return v
}

// TestC23Together: the program gets and sets data while it is transferred.
func TestC23Together(t *testing.T) {
	rec := hx.For("C23")
	hx.Check(t, "C23", 40, func(t *rapid.T) {
		_, eps := startServer()
		r, err := ioDial(eps)
		if err != nil {
			t.Fatalf("preparing: %v", err)
		}
		defer r.end()
		chans := rapid.Bool().Draw(t, "channels")
		direct := &gologix.IOProvider[ioCounted, ioCounted]{In: new(ioCounted), Out: new(ioCounted)}
		byChan := &gologix.IOChannelProvider[ioCounted, ioCounted]{}
		*direct.In, *direct.Out = ioCount(0), ioCount(0)
		byChan.SetInputData(ioCount(0))
		var prov gologix.CIPEndpoint = direct
		set := direct.SetInputData
		var chs []<-chan ioCounted
		if chans {
			prov, set = byChan, byChan.SetInputData
			for i := 0; i < 3; i++ {
				chs = append(chs, byChan.GetOutputDataChannel())
			}
		}
		eps[0].set(prov)
		id, err := r.recorder()
		if err != nil {
			t.Fatal(err)
		}
		_, ot, err := r.open(eps[0].path, id, uint32(rapid.IntRange(200, 1500).Draw(t, "rpi")), nil)
		if err != nil {
			t.Fatal(err)
		}
		n := int32(rapid.IntRange(50, 400).Draw(t, "packets"))
		pause := time.Duration(rapid.IntRange(0, 200).Draw(t, "pause")) * time.Microsecond
		problems := make(chan string, 10)
		stop := make(chan bool)
		var wg sync.WaitGroup
		var started, finished atomic.Int32
		wg.Add(1)
		go func() { // input data
			defer wg.Done()
			for k := int32(1); ; k++ {
				select {
				case <-stop:
					return
				default:
				}
				started.Store(k)
				set(ioCount(k))
				finished.Store(k)
				time.Sleep(pause)
			}
		}()
		look := func(next func() (ioCounted, bool)) {
			defer wg.Done()
			last := int32(0)
			for {
				v, ok := next()
				if !ok {
					return
				}
				if v != ioCount(v.N) {
					problems <- fmt.Sprintf("output data is a mixture: %+v", v)
					return
				}
				if v.N < last {
					problems <- fmt.Sprintf("output data %d comes after %d", v.N, last)
					return
				}
				last = v.N
			}
		}
		if chans {
			for _, c := range chs {
				c := c
				wg.Add(1)
				go look(func() (ioCounted, bool) {
					select {
					case <-stop:
						return ioCounted{}, false
					case v := <-c:
						return v, true
					}
				})
			}
		} else {
			for i := 0; i < 2; i++ {
				wg.Add(1)
				go look(func() (ioCounted, bool) {
					select {
					case <-stop:
						return ioCounted{}, false
					default:
						time.Sleep(20 * time.Microsecond)
						return direct.GetOutputData(), true
					}
				})
			}
		}
		problem := ""
		for k := int32(1); k <= n && problem == ""; k++ {
			r.udp.Write(raw.IOPacket(ot, uint32(k), ioData(uint32(k), ioImage(ioCount(k)))))
			if k%25 == 0 {
				problem = r.sync()
			}
		}
		if problem == "" {
			problem = r.sync()
		}
		atLeast := finished.Load() // set before the next packets are made, but for one
		if problem == "" {
			problem = r.sync()
		}
		until := len(r.seen[id]) + 4
		switch rapid.IntRange(0, 23).Draw(t, "long") {
		case 0, 1, 2, 3, 4, 5:
			until = max(until, 300)
		case 6:
			if hx.Tier() == "thorough" {
				until = 66000
			}
		}
		for end := time.Now().Add(10*time.Second + time.Duration(until)*5*time.Millisecond); problem == "" && len(r.seen[id]) < until; time.Sleep(200 * time.Microsecond) {
			r.pump()
			if time.Now().After(end) {
				problem = "the server stopped sending packets"
			}
		}
		close(stop)
		wg.Wait()
		select {
		case problem = <-problems:
		default:
		}
		if problem != "" {
			t.Fatal(problem)
		}
		if !chans {
			if v := direct.GetOutputData(); v != ioCount(n) {
				t.Fatalf("the output data is %+v after the last packet had %d", v, n)
			}
		}
		last, lastSeq, lastSeq2 := int32(0), uint32(0), uint16(0)
		for i, p := range r.seen[id] {
			if p.bad != "" {
				t.Fatalf("a packet from the server has %s", p.bad)
			}
			k := int32(0)
			if len(p.data) >= 4 {
				k = int32(binary.LittleEndian.Uint32(p.data))
			}
			if !bytes.Equal(p.data, ioImage(ioCount(k))) {
				t.Fatalf("packet %d has %x, a mixture", i, p.data)
			}
			if k < last || k > started.Load() {
				t.Fatalf("packet %d has input data %d after %d, set so far %d", i, k, last, started.Load())
			}
			if i > 0 && int32(p.seq-lastSeq) <= 0 {
				t.Fatalf("packet %d has sequence number %d after %d", i, p.seq, lastSeq)
			}
			if i > 0 && int16(p.seq2-lastSeq2) <= 0 {
				t.Fatalf("packet %d has data sequence number %d after %d", i, p.seq2, lastSeq2)
			}
			last, lastSeq, lastSeq2 = k, p.seq, p.seq2
		}
		if last < atLeast {
			t.Fatalf("the last packet has input data %d, %d was set long before", last, atLeast)
		}
		rec.Case(fmt.Sprintf("together: %d packets, channels %v, pause %v, %d cycles", n, chans, pause, len(r.seen[id])), true, "concurrent")
	})
}
