package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/raw"
)

func init() { helpers["c17"] = c17Server }

// c17Watch is an endpoint through which the process that runs the server shows its state.
type c17Watch struct {
	io  *gologix.IOProvider[ioMixed, ioMixed]
	mu  sync.Mutex
	own int32
}

func (w *c17Watch) TagRead(tag string, qty int16) (any, error) {
	switch strings.ToLower(tag) {
	case "out":
		return w.io.GetOutputData().N, nil
	case "own":
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.own, nil
	}
	return nil, errors.New("no such tag")
}

func (w *c17Watch) TagWrite(tag string, v any) error {
	n, ok := v.(int32)
	if strings.ToLower(tag) != "own" || !ok {
		return errors.New("no such tag")
	}
	w.mu.Lock()
	w.own = n
	w.mu.Unlock()
	return nil
}

func (w *c17Watch) IORead() ([]byte, error)         { return nil, errors.New("no data") }
func (w *c17Watch) IOWrite([]gologix.CIPItem) error { return errors.New("no data") }

// c17Server is the process with the server under attack.
func c17Server() {
	// an attack on the memory has to end this process and not the sandbox
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	// nor may connections that are gone be kept
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 200, Max: 200})
	r := gologix.NewRouter()
	tags := &gologix.MapTagProvider{}
	arr, long := make([]int32, 20), make([]int16, 3000)
	strs := []string{"a", "bb", "ccc"}
	for k, v := range map[string]any{"probe": int32(0), "arr": arr, "long": long, "str": "text", "strs": strs, "flag": true, "real": float32(1.5), "lreal": 2.5,
		"s8": int8(1), "s16": int16(2), "s64": int64(3), "u8": uint8(4), "u16": uint16(5), "u32": uint32(6), "u64": uint64(7), "udt.member": int32(8), "reals": []float32{1, 2, 3}} {
		if err := tags.TagWrite(k, v); err != nil {
			hx.Harness("tag %s: %v", k, err)
		}
	}
	io := &gologix.IOProvider[ioMixed, ioMixed]{In: new(ioMixed), Out: new(ioMixed)}
	ch := &gologix.IOChannelProvider[ioArray, ioNested]{}
	ch.GetOutputDataChannel() // which nobody reads
	r.Handle([]byte{1, 0}, tags)
	r.Handle([]byte{1, 1}, io)
	r.Handle([]byte{1, 2}, ch)
	r.Handle([]byte{1, 3}, &c17Watch{io: io})
	srv := gologix.NewServer(r)
	srv.Logger = hx.Quiet()
	srv.ConnMgr.Logger = hx.Quiet()
	fmt.Println("the server ended:", srv.Serve())
	os.Exit(9)
}

// c17Proc is the process with the server and the connections over which it is probed.
type c17Proc struct {
	cmd    *exec.Cmd
	out    bytes.Buffer
	mu     sync.Mutex
	done   chan struct{}
	c      *raw.Conn
	tags   *srvConn // over c
	watch  *srvConn
	ioOT   uint32
	udp    net.Conn
	n      int32
	cases  int
	opened int // connections for cyclic data that attackers may have opened
}

func (p *c17Proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.out.Len() < 1<<20 {
		p.out.Write(b)
	}
	return len(b), nil
}

func (p *c17Proc) output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return hx.Short(p.out.String(), 3000)
}

func (p *c17Proc) dead() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *c17Proc) kill() {
	if p.c != nil {
		p.c.Close()
	}
	if p.udp != nil {
		p.udp.Close()
	}
	p.cmd.Process.Kill()
	<-p.done
}

var c17Running *c17Proc

// c17Start makes sure that the server runs.
func c17Start(t *rapid.T) *c17Proc {
	if p := c17Running; p != nil {
		if !p.dead() && p.cases < 500 && p.opened < 60 {
			p.cases++
			return p
		}
		p.kill()
		c17Running = nil
	}
	p := &c17Proc{done: make(chan struct{}), n: 100}
	p.cmd = exec.Command(os.Args[0])
	p.cmd.Env = append(os.Environ(), "VERIF_HELPER=c17", "GOTRACEBACK=single")
	p.cmd.Stdout, p.cmd.Stderr = p, p
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := p.cmd.Start(); err != nil {
		hx.Harness("starting the server: %v", err)
	}
	go func() { p.cmd.Wait(); close(p.done) }()
	for i := 0; ; i++ {
		c, err := net.DialTimeout("tcp", tcpAddr, time.Second)
		if err == nil {
			c.Close()
			break
		}
		if p.dead() || i > 2000 {
			hx.Harness("the server does not start: %v %s", err, p.output())
		}
		time.Sleep(5 * time.Millisecond)
	}
	var err error
	check := func(what string, e error) {
		if e != nil {
			p.kill()
			t.Fatalf("%s on a new server: %v", what, e)
		}
	}
	p.c, err = raw.Dial(tcpAddr, "")
	check("connect", err)
	check("register", p.c.RegisterSession())
	open := func(serial uint16, route []byte) *srvConn {
		s, err := rawOpen(p.c, raw.Open{Serial: serial, Vendor: 0x5A5A, Orig: 0x5A5A5A5A, TO: 0x7A000000 + uint32(serial), OTRPI: 2000000, TORPI: 2000000, OTSize: 500, TOSize: 500, Route: route, Point: raw.MessageRouter})
		check("open", err)
		return s
	}
	p.tags, p.watch = open(1, []byte{1, 0}), open(2, []byte{1, 3})
	x, err := rawOpen(p.c, raw.Open{IO: true, Serial: 3, Vendor: 0x5A5A, Orig: 0x5A5A5A5A, TO: 0x7A000003, OTRPI: 100000, TORPI: 100000, OTSize: 50, TOSize: 50, Route: []byte{1, 1}, Point: raw.IOPoint})
	check("open of a cyclic connection", err)
	p.ioOT = x.ot
	p.udp, err = net.Dial("udp", udpAddr)
	check("udp", err)
	c17Running = p
	return p
}

func c17Int(c *raw.Conn, s *srvConn, name string) (int32, error) {
	s.seq++
	r, err := c.Connected(s.ot, s.to, s.seq, raw.Read(raw.T(name), 0, 1))
	if err != nil {
		return 0, err
	}
	if r.Status != 0 || len(r.Data) != 6 {
		return 0, fmt.Errorf("read of %s gives %v", name, r)
	}
	return int32(binary.LittleEndian.Uint32(r.Data[2:])), nil
}

func c17Set(c *raw.Conn, s *srvConn, name string, v int32) error {
	s.seq++
	r, err := c.Connected(s.ot, s.to, s.seq, raw.Write(raw.T(name), 0, []byte{0xC4, 0}, 1, binary.LittleEndian.AppendUint32(nil, uint32(v))))
	if err == nil && r.Status != 0 {
		err = fmt.Errorf("write of %s gives %v", name, r)
	}
	return err
}

// probe checks that the server is well.
func (p *c17Proc) probe() string {
	p.n++
	n := p.n
	if p.dead() {
		return "the server process ended"
	}
	both := func(who string, c *raw.Conn, s *srvConn, name string) string {
		if err := c17Set(c, s, name, n); err != nil {
			return fmt.Sprintf("%s: %v", who, err)
		}
		if v, err := c17Int(c, s, name); err != nil || v != n {
			return fmt.Sprintf("%s: read of %s gives %d (%v), written was %d", who, name, v, err, n)
		}
		return ""
	}
	if m := both("connection of before", p.c, p.tags, "zzprobe"); m != "" {
		return m
	}
	if m := both("connection of before", p.c, p.watch, "own"); m != "" {
		return m
	}
	for end := time.Now().Add(10 * time.Second); ; time.Sleep(time.Millisecond) {
		p.udp.Write(raw.IOPacket(p.ioOT, uint32(n), ioData(uint32(n), ioImage(ioMixed{N: n}))))
		time.Sleep(50 * time.Microsecond)
		v, err := c17Int(p.c, p.watch, "out")
		if err != nil {
			return fmt.Sprintf("output data: %v", err)
		}
		if v == n {
			break
		}
		if time.Now().After(end) {
			return fmt.Sprintf("cyclic data is not taken any more, the output data is %d instead of %d", v, n)
		}
	}
	c, err := raw.Dial(tcpAddr, "")
	if err != nil {
		return fmt.Sprintf("new connection: %v", err)
	}
	defer c.Close()
	if err := c.RegisterSession(); err != nil {
		return fmt.Sprintf("new connection: %v", err)
	}
	s, err := rawOpen(c, raw.Open{Serial: 9, Vendor: 0x5A5A, Orig: 0x5A5A5A5B, TO: 0x7A000009, OTRPI: 2000000, TORPI: 2000000, OTSize: 500, TOSize: 500, Route: []byte{1, 0}, Point: raw.MessageRouter})
	if err != nil {
		return fmt.Sprintf("new connection: %v", err)
	}
	if m := both("new connection", c, s, "zzprobe"); m != "" {
		return m
	}
	if f, err := c.Ask(raw.ListIdentity, nil); err != nil || f.Status != 0 || len(f.Body) < 40 {
		return fmt.Sprintf("new connection: list identity gives %v (%v)", f, err)
	}
	r, err := c.Unconnected(s.open.CloseBytes())
	if err == nil {
		err = s.open.Closed(r)
	}
	if err != nil || r.Status != 0 {
		return fmt.Sprintf("new connection: close gives %v (%v)", r, err)
	}
	return ""
}

var c17Names = []string{"probe", "arr", "long", "str", "strs", "flag", "real", "reals", "s8", "u64", "udt", "member", "nothere", "", "x", "zz"}

func c17Num(t *rapid.T, l string) uint64 {
	if rapid.Bool().Draw(t, l+"edge") {
		return rapid.SampledFrom([]uint64{0, 1, 2, 3, 4, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}).Draw(t, l)
	}
	return rapid.Uint64Range(0, 40).Draw(t, l)
}

func c17Path(t *rapid.T) []byte {
	var b []byte
	for i := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 2, 2, 3, 4}).Draw(t, "segments"); i > 0; i-- {
		switch rapid.IntRange(0, 12).Draw(t, "segment") {
		case 0, 1, 2, 3, 4:
			n := rapid.SampledFrom(c17Names).Draw(t, "name")
			if rapid.IntRange(0, 20).Draw(t, "longname") == 0 {
				n = strings.Repeat("n", rapid.SampledFrom([]int{40, 127, 128, 254, 255}).Draw(t, "namelen"))
			}
			b = append(b, 0x91, byte(len(n)))
			b = append(b, n...)
			if len(n)%2 == 1 {
				b = append(b, 0)
			}
		case 5:
			b = append(b, 0x28, byte(c17Num(t, "index")))
		case 6:
			b = binary.LittleEndian.AppendUint16(append(b, 0x29, 0), uint16(c17Num(t, "index")))
		case 7:
			b = binary.LittleEndian.AppendUint32(append(b, 0x2A, 0), uint32(c17Num(t, "index")))
		case 8, 9:
			b = append(b, raw.Logical(rapid.SampledFrom([]int{1, 2, 4, 6, 0x64, 0x6B, 0x6C, 0xAC, 0xC8, 0xF5, 0x300}).Draw(t, "class"), int(c17Num(t, "inst")&0xFFFF), rapid.SampledFrom([]int{-1, 1, 1, 7, 8, 99, 400}).Draw(t, "attr"), rapid.IntRange(0, 4).Draw(t, "wide") == 0)...)
		case 10:
			b = append(b, byte(rapid.SampledFrom([]int{0x20, 0x21, 0x22, 0x24, 0x25, 0x26, 0x28, 0x29, 0x2A, 0x2B, 0x2C, 0x30, 0x31, 0x34, 0x80, 0x81, 0x91, 0x12, 0x1F, 0x0F, 1, 0}).Draw(t, "code")), byte(c17Num(t, "link")))
		case 11:
			b = append(b, rapid.SampledFrom([][]byte{{1, 0}, {1, 1}, {1, 2}, {1, 9}, {0x12, 3, 'a', 'b', 'c', 0}, {0x0F, 0, 0, 0}}).Draw(t, "port")...)
		default:
			b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "raw")...)
		}
	}
	return b
}

// c17CIP makes a request, mostly a valid one.
func c17CIP(t *rapid.T, depth int, known []raw.Open, ioOpened *int) []byte {
	service := rapid.SampledFrom([]byte{raw.ReadTag, raw.ReadTag, raw.ReadTag, raw.WriteTag, raw.WriteTag, raw.WriteTag, raw.FragRead, raw.FragRead, raw.FragWrite, raw.MultiService, raw.MultiService,
		raw.GetAttrAll, raw.GetAttrSingle, raw.GetAttrSingle, raw.SetAttrSingle, raw.SetAttrSingle, raw.SymbolList, 3, 4, 0x4B, 0x4E, 0x54, 0x5B, 0xFE, 0xFF}).Draw(t, "service")
	if rapid.IntRange(0, 15).Draw(t, "anyservice") == 0 {
		service = rapid.Byte().Draw(t, "serviceno")
	}
	var path, data []byte
	path = c17Path(t)
	le := binary.LittleEndian
	switch service {
	case raw.ReadTag:
		data = le.AppendUint16(nil, uint16(c17Num(t, "count")))
	case raw.FragRead:
		if depth == 0 && rapid.Bool().Draw(t, "wrap") {
			inner := c17CIP(t, 1, known, ioOpened)
			b := raw.Wrap(inner, rapid.SampledFrom([][]byte{{1, 0}, {1, 0}, {1, 1}, {1, 2}, {1, 9}, {}, {1}, {2, 0, 1, 0}}).Draw(t, "route"))
			return b
		}
		data = le.AppendUint32(le.AppendUint16(nil, uint16(c17Num(t, "count"))), uint32(c17Num(t, "offset")))
	case raw.WriteTag, raw.FragWrite:
		typ := rapid.SampledFrom([][]byte{{0xC4, 0}, {0xC4, 0}, {0xC3, 0}, {0xC2, 0}, {0xC5, 0}, {0xCA, 0}, {0xCB, 0}, {0xD1, 0}, {0xC1, 0}, {0xA0, 2, 0xCE, 0x0F}, {0xA0, 2, 0xCE, 0x0F}, {0xA0, 2, 1, 2}, {0xA0, 0}, {0xA0, 255}, {0xD0, 0}, {0xDA, 0}, {0xD3, 0}, {0xD4, 0}, {0xC4, 7}, {0, 0}, {0xFF, 0xFF}}).Draw(t, "type")
		n := c17Num(t, "count")
		data = le.AppendUint16(append([]byte{}, typ...), uint16(n))
		size := int(n) * rapid.SampledFrom([]int{1, 2, 4, 4, 8, 88, 86}).Draw(t, "elemsize")
		if size > 3000 || rapid.IntRange(0, 3).Draw(t, "othersize") == 0 {
			size = rapid.IntRange(0, 200).Draw(t, "size")
		}
		v := make([]byte, size)
		for i := range v {
			v[i] = byte(i * 37)
		}
		if size > 0 {
			v[0] = byte(c17Num(t, "first"))
		}
		data = append(data, v...)
	case raw.MultiService:
		if depth < 3 {
			var reqs [][]byte
			for i := rapid.IntRange(0, 4).Draw(t, "n"); i > 0; i-- {
				reqs = append(reqs, c17CIP(t, depth+1, known, ioOpened))
			}
			b := raw.Multi(reqs...)[6:]
			switch rapid.IntRange(0, 5).Draw(t, "broken") {
			case 0:
				le.PutUint16(b, uint16(c17Num(t, "n")))
			case 1:
				if len(b) > 3 {
					at := 2 + 2*rapid.IntRange(0, max(0, len(reqs)-1)).Draw(t, "which")
					le.PutUint16(b[at:], uint16(c17Num(t, "off")))
				}
			case 2:
				b = b[:rapid.IntRange(0, len(b)).Draw(t, "cut")]
			}
			data = b
			if rapid.IntRange(0, 7).Draw(t, "path") > 0 {
				path = raw.MessageRouter
			}
		}
	case raw.GetAttrAll:
		if rapid.Bool().Draw(t, "identity") {
			path = raw.Logical(rapid.SampledFrom([]int{1, 0x64}).Draw(t, "class"), 1, -1, false)
		}
	case raw.GetAttrSingle, raw.SetAttrSingle:
		if rapid.Bool().Draw(t, "object") {
			path = raw.Logical(rapid.SampledFrom([]int{1, 0xC8, 0xC8}).Draw(t, "class"), int(c17Num(t, "inst")&0xFFFF), int(c17Num(t, "attr")&0xFFF), false)
		}
		data = rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, "value")
	case raw.SymbolList:
		if rapid.Bool().Draw(t, "symbols") {
			path = raw.Logical(0x6B, int(c17Num(t, "inst")&0xFFFF), -1, false)
		}
		data = rapid.SampledFrom([][]byte{{}, {3, 0, 1, 0, 2, 0, 8, 0}, {255, 255}, {1}}).Draw(t, "attrs")
	case raw.ForwardOpenS, raw.LargeOpenS:
		o := raw.Open{Large: service == raw.LargeOpenS, IO: rapid.Bool().Draw(t, "io"), OT: uint32(c17Num(t, "ot")), TO: uint32(c17Num(t, "to")), Serial: uint16(c17Num(t, "serial")), Vendor: 1, Orig: 1,
			OTRPI: uint32(c17Num(t, "otrpi")), TORPI: rapid.SampledFrom([]uint32{0, 1, 2000, 100000, 100000, 2000000, 0x7FFFFFFF, 0xFFFFFFFF}).Draw(t, "torpi"), OTSize: uint16(c17Num(t, "otsize")), TOSize: uint16(c17Num(t, "tosize")),
			Route: rapid.SampledFrom([][]byte{{1, 0}, {1, 1}, {1, 2}, {1, 9}, {}}).Draw(t, "route"), Point: c17Path(t)}
		if o.IO {
			*ioOpened++
			if o.TORPI == 1 {
				*ioOpened += 20
			}
		}
		b := o.Bytes()
		if rapid.IntRange(0, 5).Draw(t, "pathlen") == 0 {
			b[len(b)-len(o.Route)-len(o.Point)-1] = byte(c17Num(t, "words"))
		}
		return b
	case raw.ForwardCloseS:
		o := raw.Open{Serial: uint16(c17Num(t, "serial")), Vendor: 1, Orig: 1}
		if len(known) > 0 && rapid.Bool().Draw(t, "known") {
			o = known[rapid.IntRange(0, len(known)-1).Draw(t, "which")]
		}
		return o.CloseBytes()
	default:
		data = rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "data")
	}
	b := raw.Request(service, path, data)
	if rapid.IntRange(0, 9).Draw(t, "lie") == 0 {
		b[1] = byte(rapid.SampledFrom([]int{0, 1, int(b[1]) - 1, int(b[1]) + 1, int(b[1]) + 2, 127, 128, 255}).Draw(t, "words"))
	}
	return b
}

// c17Mutate changes bytes of a message.
func c17Mutate(t *rapid.T, b []byte, l string) []byte {
	b = append([]byte{}, b...)
	for i := rapid.IntRange(1, 3).Draw(t, l+"mutations"); i > 0 && len(b) > 0; i-- {
		at := rapid.IntRange(0, len(b)-1).Draw(t, l+"at")
		switch rapid.IntRange(0, 7).Draw(t, l+"mutation") {
		case 0:
			b[at] ^= 1 << rapid.IntRange(0, 7).Draw(t, l+"bit")
		case 1, 2:
			b[at] = byte(c17Num(t, l+"byte"))
		case 3:
			if at+2 <= len(b) {
				binary.LittleEndian.PutUint16(b[at:], uint16(c17Num(t, l+"word")))
			}
		case 4:
			b = b[:at]
		case 5:
			n := min(rapid.IntRange(1, 8).Draw(t, l+"del"), len(b)-at)
			b = append(b[:at:at], b[at+n:]...)
		case 6:
			b = append(b[:at:at], append(rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, l+"ins"), b[at:]...)...)
		default:
			n := min(rapid.IntRange(1, 60).Draw(t, l+"dup"), len(b)-at)
			b = append(b[:at+n:at+n], b[at:]...)
		}
	}
	return b
}

// c17Frame makes a message to the server.
func c17Frame(t *rapid.T, session uint32, ids []uint32, known []raw.Open, ioOpened *int) (b []byte, what string) {
	odd := func(b []byte, what string, prob int) []byte {
		if rapid.IntRange(0, prob).Draw(t, "mutate "+what) == 0 {
			return c17Mutate(t, b, what)
		}
		return b
	}
	f := raw.Frame{Session: session, Context: 0x1122334455667788}
	switch rapid.SampledFrom([]string{"unit", "unit", "unit", "unit", "unit", "rr", "rr", "rr", "register", "list", "nop", "unregister", "any"}).Draw(t, "frame") {
	case "unit":
		f.Cmd, what = raw.SendUnit, "unit"
		id := uint32(c17Num(t, "id"))
		if len(ids) > 0 && rapid.IntRange(0, 9).Draw(t, "own") > 0 {
			id = ids[rapid.IntRange(0, len(ids)-1).Draw(t, "conn")]
		}
		f.Body = odd(raw.Unit(id, uint16(c17Num(t, "seq")), odd(c17CIP(t, 0, known, ioOpened), "cip", 2)), "items", 4)
	case "rr":
		f.Cmd, what = raw.SendRR, "rr"
		f.Body = odd(raw.RR(odd(c17CIP(t, 0, known, ioOpened), "cip", 2)), "items", 4)
	case "register":
		f.Cmd, f.Body, what = raw.Register, odd([]byte{1, 0, 0, 0}, "body", 2), "register"
	case "list":
		f.Cmd, what = rapid.SampledFrom([]uint16{raw.ListServices, raw.ListIdentity, raw.ListIfaces}).Draw(t, "cmd"), "list"
		f.Body = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "body")
	case "nop":
		f.Cmd, f.Body, what = raw.NOP, rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "body"), "nop"
	case "unregister":
		f.Cmd, what = raw.UnRegister, "unregister"
	default:
		f.Cmd, what = uint16(c17Num(t, "cmd")), "other command"
		f.Body = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "body")
	}
	b = f.Bytes()
	if rapid.IntRange(0, 7).Draw(t, "mutate frame") == 0 {
		b = c17Mutate(t, b, "frame")
		what += " mutated"
	}
	return b, what
}

// c17Unended counts the connections the server did not end when its peer did.
var c17Unended int

func TestC17(t *testing.T) {
	rec := hx.For("C17")
	rec.Rule("at least two messages, one of them malformed or with a number at or beyond a limit")
	rec.Assume("the server may answer anything to such messages, or close the connection they come over",
		"the process may use up to 6 GB of address space")
	defer func() {
		if c17Running != nil {
			c17Running.kill()
			c17Running = nil
		}
	}()
	hx.Check(t, "C17", 4000, func(t *rapid.T) {
		p := c17Start(t)
		var hist []string
		fail := func(m string) {
			t.Helper()
			dead := p.dead()
			if !dead { // it may be about to
				select {
				case <-p.done:
					dead = true
				case <-time.After(300 * time.Millisecond):
				}
			}
			out := p.output()
			p.kill()
			c17Running = nil
			if dead {
				m = "the server process ended: " + out + "\n(" + m + ")"
			}
			t.Fatalf("%s\nafter %s", m, strings.Join(hist, "\n"))
		}
		type attacker struct {
			c     *raw.Conn
			ids   []uint32
			known []raw.Open
			out   []byte
			quit  bool
		}
		classes := map[string]bool{}
		var as []*attacker
		for i := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "attackers"); i > 0; i-- {
			c, err := raw.Dial(tcpAddr, "")
			if err != nil {
				fail(fmt.Sprintf("connecting: %v", err))
			}
			defer c.Close()
			a := &attacker{c: c}
			as = append(as, a)
			if rapid.IntRange(0, 7).Draw(t, "registers") == 0 {
				continue
			}
			if err := c.RegisterSession(); err != nil {
				fail(fmt.Sprintf("registering: %v", err))
			}
			for j := rapid.IntRange(0, 2).Draw(t, "conns"); j > 0; j-- {
				o := raw.Open{Serial: uint16(10*i + j), Vendor: 1, Orig: 1, TO: 0x1000, OTRPI: 500000, TORPI: 500000, OTSize: 500, TOSize: 500,
					Route: rapid.SampledFrom([][]byte{{1, 0}, {1, 0}, {1, 0}, {1, 1}, {1, 2}}).Draw(t, "route"), Point: raw.MessageRouter}
				if o.Route[1] > 0 {
					o.IO, o.Point = true, raw.IOPoint
					p.opened++
				}
				s, err := rawOpen(c, o)
				if err != nil {
					fail(fmt.Sprintf("open to %v: %v", o.Route, err))
				}
				a.ids = append(a.ids, s.ot)
				a.known = append(a.known, o)
				say := "class 3"
				if o.IO {
					say = "cyclic"
				}
				hist = append(hist, fmt.Sprintf("attacker %d opens %s connection", len(as), say))
			}
		}
		n, bad := 0, false
		// the messages, in the order in which they are sent
		for i := rapid.IntRange(1, 8).Draw(t, "messages"); i > 0; i-- {
			w := rapid.IntRange(0, len(as)-1).Draw(t, "who")
			a := as[w]
			if rapid.IntRange(0, 4).Draw(t, "udp") == 0 {
				id := uint32(c17Num(t, "id"))
				if len(a.ids) > 0 {
					id = a.ids[rapid.IntRange(0, len(a.ids)-1).Draw(t, "conn")]
				}
				d := ioData(uint32(i), make([]byte, int(c17Num(t, "size")%1400)))
				d = d[:min(len(d), int(c17Num(t, "len")%2000)+rapid.IntRange(0, 7).Draw(t, "short"))]
				if rapid.IntRange(0, 3).Draw(t, "large") == 0 { // up to the largest datagram
					d = append(d, bytes.Repeat([]byte{byte(c17Num(t, "fill"))}, rapid.OneOf(rapid.IntRange(1000, 4200), rapid.IntRange(1000, 4200), rapid.IntRange(1, 60000)).Draw(t, "more"))...)
				}
				b := raw.IOPacket(id, uint32(i), d)
				if rapid.Bool().Draw(t, "mutate") {
					b = c17Mutate(t, b, "udp")
				}
				p.udp.Write(b)
				hist = append(hist, fmt.Sprintf("UDP %x", b))
				classes["udp"] = true
				n++
				bad = true
				continue
			}
			b, what := c17Frame(t, a.c.Session, a.ids, a.known, &p.opened)
			hist = append(hist, fmt.Sprintf("attacker %d: %s %x", w+1, what, b))
			classes[what] = true
			n++
			bad = bad || strings.Contains(what, "mutated") || what == "unit" || what == "rr"
			switch rapid.IntRange(0, 5).Draw(t, "split") {
			case 0: // in two parts
				k := rapid.IntRange(0, len(b)).Draw(t, "at")
				a.c.Write(b[:k])
				time.Sleep(50 * time.Microsecond)
				a.c.Write(b[k:])
			case 1: // with the next one
				a.out = append(a.out, b...)
			default:
				a.c.Write(append(a.out, b...))
				a.out = nil
			}
		}
		how := rapid.SampledFrom([]string{"read", "read", "close", "reset"}).Draw(t, "end")
		for _, a := range as {
			if len(a.out) > 0 {
				a.c.Write(a.out)
			}
			tcp := a.c.Conn.(*net.TCPConn)
			switch how {
			case "read":
				tcp.CloseWrite()
				wait := 5 * time.Second
				if c17Unended > 3 { // it does not end them, so do not wait long
					wait = 20 * time.Millisecond
				}
				tcp.SetReadDeadline(time.Now().Add(wait))
				if _, err := io.Copy(io.Discard, tcp); errors.Is(err, os.ErrDeadlineExceeded) {
					c17Unended++
					classes["connection not ended by the server"] = true
				}
			case "reset":
				tcp.SetLinger(0)
			}
			tcp.Close()
		}
		classes["ends with "+how] = true
		if m := p.probe(); m != "" {
			fail(m)
		}
		var cs []string
		for c := range classes {
			cs = append(cs, c)
		}
		rec.Case(strings.Join(hist, "; "), n > 1 && bad, cs...)
	})
}
