// Package raw is an EtherNet/IP originator written from the protocol, for
// tests of the library's server: it sends whatever it is told to and takes
// apart and checks what comes back.
package raw

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"time"
)

var le = binary.LittleEndian

// Encapsulation commands.
const (
	NOP          = 0x00
	ListServices = 0x04
	ListIdentity = 0x63
	ListIfaces   = 0x64
	Register     = 0x65
	UnRegister   = 0x66
	SendRR       = 0x6F
	SendUnit     = 0x70
)

// CIP services.
const (
	GetAttrAll    = 0x01
	MultiService  = 0x0A
	GetAttrSingle = 0x0E
	SetAttrSingle = 0x10
	ReadTag       = 0x4C
	WriteTag      = 0x4D
	ForwardCloseS = 0x4E
	FragRead      = 0x52 // tag services over a connection
	UnconnSend    = 0x52 // connection manager, not connected
	FragWrite     = 0x53
	ForwardOpenS  = 0x54
	SymbolList    = 0x55
	LargeOpenS    = 0x5B
)

// Frame is one encapsulation message.
type Frame struct {
	Cmd             uint16
	Session, Status uint32
	Context         uint64
	Options         uint32
	Body            []byte
}

func (f Frame) Bytes() []byte {
	b := make([]byte, 24, 24+len(f.Body))
	le.PutUint16(b[0:], f.Cmd)
	le.PutUint16(b[2:], uint16(len(f.Body)))
	le.PutUint32(b[4:], f.Session)
	le.PutUint32(b[8:], f.Status)
	le.PutUint64(b[12:], f.Context)
	le.PutUint32(b[20:], f.Options)
	return append(b, f.Body...)
}

func (f Frame) String() string {
	return fmt.Sprintf("{cmd=%#x session=%#x status=%d context=%#x options=%#x body=%x}", f.Cmd, f.Session, f.Status, f.Context, f.Options, f.Body)
}

// Conn is a TCP connection to a server.
type Conn struct {
	net.Conn
	Session uint32
	Timeout time.Duration
	ctx     uint64
}

// Dial connects to addr from the local address, which may be empty.
func Dial(addr, local string) (*Conn, error) {
	d := net.Dialer{Timeout: 10 * time.Second}
	if local != "" {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(local)}
	}
	c, err := d.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	return &Conn{Conn: c, Timeout: 10 * time.Second, ctx: 0x1000}, nil
}

// Put sends a frame.
func (c *Conn) Put(f Frame) error {
	c.SetWriteDeadline(time.Now().Add(c.Timeout))
	_, err := c.Write(f.Bytes())
	return err
}

// Next receives a frame.
func (c *Conn) Next() (Frame, error) {
	c.SetReadDeadline(time.Now().Add(c.Timeout))
	var h [24]byte
	if _, err := io.ReadFull(c, h[:]); err != nil {
		return Frame{}, err
	}
	f := Frame{Cmd: le.Uint16(h[0:]), Session: le.Uint32(h[4:]), Status: le.Uint32(h[8:]), Context: le.Uint64(h[12:]), Options: le.Uint32(h[20:])}
	f.Body = make([]byte, le.Uint16(h[2:]))
	_, err := io.ReadFull(c, f.Body)
	return f, err
}

// Context returns a sender context not used before.
func (c *Conn) Context() uint64 { c.ctx++; return c.ctx }

// Ask sends a command and returns the reply, having checked that the header matches.
func (c *Conn) Ask(cmd uint16, body []byte) (Frame, error) {
	f := Frame{Cmd: cmd, Session: c.Session, Context: c.Context(), Body: body}
	if err := c.Put(f); err != nil {
		return Frame{}, err
	}
	r, err := c.Next()
	if err != nil {
		return r, fmt.Errorf("no reply: %w", err)
	}
	return r, Matches(f, r)
}

// Matches reports how the header of a reply does not belong to a request.
func Matches(q, r Frame) error {
	switch {
	case r.Cmd != q.Cmd:
		return fmt.Errorf("reply has command %#x, the request %#x", r.Cmd, q.Cmd)
	case r.Context != q.Context:
		return fmt.Errorf("reply to command %#x has context %#x, the request %#x", r.Cmd, r.Context, q.Context)
	case r.Session != q.Session && q.Cmd != Register:
		return fmt.Errorf("reply to command %#x has session %#x, the request %#x", r.Cmd, r.Session, q.Session)
	case r.Options != q.Options:
		return fmt.Errorf("reply to command %#x has options %#x, the request %#x", r.Cmd, r.Options, q.Options)
	}
	return nil
}

// RegisterSession opens a session.
func (c *Conn) RegisterSession() error {
	r, err := c.Ask(Register, []byte{1, 0, 0, 0})
	if err != nil {
		return err
	}
	if r.Status != 0 || r.Session == 0 || len(r.Body) != 4 || le.Uint16(r.Body) != 1 {
		return fmt.Errorf("bad reply to register session: %v", r)
	}
	c.Session = r.Session
	return nil
}

// Item is an item of the common packet format.
type Item struct {
	ID   uint16
	Data []byte
}

// CPF packs items behind interface handle and timeout.
func CPF(items ...Item) []byte {
	return append(make([]byte, 6), Items(items...)...)
}

// Items packs items only.
func Items(items ...Item) []byte {
	b := le.AppendUint16(nil, uint16(len(items)))
	for _, i := range items {
		b = le.AppendUint16(b, i.ID)
		b = le.AppendUint16(b, uint16(len(i.Data)))
		b = append(b, i.Data...)
	}
	return b
}

// ParseItems takes apart items; the lengths must be exact.
func ParseItems(b []byte) ([]Item, error) {
	if len(b) < 2 {
		return nil, fmt.Errorf("no item count")
	}
	n := int(le.Uint16(b))
	b = b[2:]
	var items []Item
	for i := 0; i < n; i++ {
		if len(b) < 4 || len(b) < 4+int(le.Uint16(b[2:])) {
			return nil, fmt.Errorf("item %d of %d does not fit in the message", i, n)
		}
		l := int(le.Uint16(b[2:]))
		items = append(items, Item{le.Uint16(b), b[4 : 4+l]})
		b = b[4+l:]
	}
	if len(b) != 0 {
		return nil, fmt.Errorf("%d bytes after the last item", len(b))
	}
	return items, nil
}

// RR is the body of a SendRRData message.
func RR(cip []byte) []byte { return CPF(Item{0, nil}, Item{0xB2, cip}) }

// Unit is the body of a SendUnitData message.
func Unit(conn uint32, seq uint16, cip []byte) []byte {
	return CPF(Item{0xA1, le.AppendUint32(nil, conn)}, Item{0xB1, append(le.AppendUint16(nil, seq), cip...)})
}

// ParseRR takes the CIP reply out of a SendRRData body.
func ParseRR(body []byte) ([]byte, error) {
	if len(body) < 6 {
		return nil, fmt.Errorf("short body %x", body)
	}
	it, err := ParseItems(body[6:])
	if err != nil {
		return nil, err
	}
	if len(it) != 2 || it[0].ID != 0 || len(it[0].Data) != 0 || it[1].ID != 0xB2 {
		return nil, fmt.Errorf("reply does not have a null address and an unconnected data item: %v", it)
	}
	return it[1].Data, nil
}

// ParseUnit takes the connection id, the sequence number and the CIP reply out of a SendUnitData body.
func ParseUnit(body []byte) (conn uint32, seq uint16, cip []byte, err error) {
	if len(body) < 6 {
		return 0, 0, nil, fmt.Errorf("short body %x", body)
	}
	it, err := ParseItems(body[6:])
	if err != nil {
		return 0, 0, nil, err
	}
	if len(it) != 2 || it[0].ID != 0xA1 || len(it[0].Data) != 4 || it[1].ID != 0xB1 || len(it[1].Data) < 2 {
		return 0, 0, nil, fmt.Errorf("reply does not have a connected address and a connected data item: %v", it)
	}
	return le.Uint32(it[0].Data), le.Uint16(it[1].Data), it[1].Data[2:], nil
}

// Reply is a CIP reply.
type Reply struct {
	Service byte
	Status  byte
	Ext     []uint16
	Data    []byte
}

func (r Reply) String() string {
	return fmt.Sprintf("{service %#x status %#x ext %x data %x}", r.Service, r.Status, r.Ext, r.Data)
}

// ParseReply takes apart a CIP reply.
func ParseReply(b []byte) (Reply, error) {
	if len(b) < 4 || len(b) < 4+2*int(b[3]) {
		return Reply{}, fmt.Errorf("reply %x is too short for its status", b)
	}
	if b[0]&0x80 == 0 || b[1] != 0 {
		return Reply{}, fmt.Errorf("%x is not a reply", b)
	}
	r := Reply{Service: b[0] &^ 0x80, Status: b[2]}
	for i := 0; i < int(b[3]); i++ {
		r.Ext = append(r.Ext, le.Uint16(b[4+2*i:]))
	}
	r.Data = b[4+2*int(b[3]):]
	return r, nil
}

// Unconnected sends a request outside of connections.
func (c *Conn) Unconnected(cip []byte) (Reply, error) {
	f, err := c.Ask(SendRR, RR(cip))
	if err != nil {
		return Reply{}, err
	}
	if f.Status != 0 {
		return Reply{}, fmt.Errorf("encapsulation status %d", f.Status)
	}
	b, err := ParseRR(f.Body)
	if err != nil {
		return Reply{}, err
	}
	return ParseReply(b)
}

// Connected sends a request over the connection OT and expects the reply over TO.
func (c *Conn) Connected(ot, to uint32, seq uint16, cip []byte) (Reply, error) {
	f, err := c.Ask(SendUnit, Unit(ot, seq, cip))
	if err != nil {
		return Reply{}, err
	}
	if f.Status != 0 {
		return Reply{}, fmt.Errorf("encapsulation status %d", f.Status)
	}
	id, s, b, err := ParseUnit(f.Body)
	if err != nil {
		return Reply{}, err
	}
	if s != seq {
		return Reply{}, fmt.Errorf("reply has sequence number %d, the request %d", s, seq)
	}
	r, err := ParseReply(b)
	if err == nil && id != to && !(id == 0 && r.Status != 0) {
		return r, fmt.Errorf("reply is for connection %#x, the connection's is %#x", id, to)
	}
	return r, err
}

// Open describes a forward open.
type Open struct {
	Large        bool
	IO           bool
	OT, TO       uint32
	Serial       uint16
	Vendor       uint16
	Orig         uint32
	OTRPI, TORPI uint32 // µs
	OTSize       uint16
	TOSize       uint16
	Route        []byte // port segments, even length
	Point        []byte // path to the object
}

// MessageRouter is the object class 3 connections are opened to.
var MessageRouter = []byte{0x20, 0x02, 0x24, 0x01}

// IOPoint is a path to an assembly with connection points for both directions.
var IOPoint = []byte{0x20, 0x04, 0x24, 0x01, 0x2C, 0x02, 0x2C, 0x01}

// Bytes is the CIP request.
func (o Open) Bytes() []byte {
	svc := byte(ForwardOpenS)
	if o.Large {
		svc = LargeOpenS
	}
	b := []byte{svc, 2, 0x20, 0x06, 0x24, 0x01, 0x0A, 0x0E}
	b = le.AppendUint32(b, o.OT)
	b = le.AppendUint32(b, o.TO)
	b = le.AppendUint16(b, o.Serial)
	b = le.AppendUint16(b, o.Vendor)
	b = le.AppendUint32(b, o.Orig)
	b = append(b, 2, 0, 0, 0)
	param := func(size uint16) {
		flags := uint16(0x4200)
		if o.IO {
			flags = 0x4800
		}
		if o.Large {
			b = le.AppendUint32(b, uint32(flags)<<16|uint32(size))
			return
		}
		b = le.AppendUint16(b, flags|size&0x1FF)
	}
	b = le.AppendUint32(b, o.OTRPI)
	param(o.OTSize)
	b = le.AppendUint32(b, o.TORPI)
	param(o.TOSize)
	trigger := byte(0xA3)
	if o.IO {
		trigger = 0x01
	}
	path := append(append([]byte{}, o.Route...), o.Point...)
	b = append(b, trigger, byte(len(path)/2))
	return append(b, path...)
}

// Opened takes the connection ids out of the reply and checks the rest of it.
func (o Open) Opened(r Reply) (ot, to uint32, err error) {
	want := byte(ForwardOpenS)
	if o.Large {
		want = LargeOpenS
	}
	d := r.Data
	if r.Service != want || r.Status != 0 || len(d) != 26 {
		return 0, 0, fmt.Errorf("bad reply to forward open: %v", r)
	}
	ot, to = le.Uint32(d), le.Uint32(d[4:])
	if o.TO != 0 && to != o.TO {
		return ot, to, fmt.Errorf("forward open reply has T->O id %#x, the request %#x", to, o.TO)
	}
	if le.Uint16(d[8:]) != o.Serial || le.Uint16(d[10:]) != o.Vendor || le.Uint32(d[12:]) != o.Orig {
		return ot, to, fmt.Errorf("forward open reply %v does not echo serial %#x vendor %#x originator %#x", r, o.Serial, o.Vendor, o.Orig)
	}
	if le.Uint32(d[16:]) != o.OTRPI || le.Uint32(d[20:]) != o.TORPI {
		return ot, to, fmt.Errorf("forward open reply %v has other packet intervals than %d and %d", r, o.OTRPI, o.TORPI)
	}
	if ot == 0 {
		return ot, to, fmt.Errorf("forward open reply has O->T id 0")
	}
	return ot, to, nil
}

// CloseBytes is the request to close the connection.
func (o Open) CloseBytes() []byte {
	b := []byte{ForwardCloseS, 2, 0x20, 0x06, 0x24, 0x01, 0x0A, 0x0E}
	b = le.AppendUint16(b, o.Serial)
	b = le.AppendUint16(b, o.Vendor)
	b = le.AppendUint32(b, o.Orig)
	path := append(append([]byte{}, o.Route...), o.Point...)
	b = append(b, byte(len(path)/2), 0)
	return append(b, path...)
}

// Closed checks the reply to a forward close.
func (o Open) Closed(r Reply) error {
	d := r.Data
	if r.Service != ForwardCloseS || len(d) != 10 {
		return fmt.Errorf("bad reply to forward close: %v", r)
	}
	if le.Uint16(d) != o.Serial || le.Uint16(d[2:]) != o.Vendor || le.Uint32(d[4:]) != o.Orig {
		return fmt.Errorf("forward close reply %v does not echo serial %#x vendor %#x originator %#x", r, o.Serial, o.Vendor, o.Orig)
	}
	return nil
}

// Seg is a part of a tag name with the indexes behind it.
type Seg struct {
	Name  string
	Index []int
}

// Tag is the address of a tag.
type Tag []Seg

// T makes an address of one name.
func T(name string, index ...int) Tag { return Tag{{name, index}} }

func (t Tag) String() string {
	s := ""
	for i, g := range t {
		if i > 0 {
			s += "."
		}
		s += g.Name
		for j, x := range g.Index {
			switch {
			case j == 0:
				s += "["
			default:
				s += ","
			}
			s += fmt.Sprint(x)
		}
		if len(g.Index) > 0 {
			s += "]"
		}
	}
	return s
}

// Path is the padded EPATH. wide picks a longer encoding for indexes: 0 the
// shortest, 1 at least two bytes, 2 four bytes.
func (t Tag) Path(wide int) []byte {
	var b []byte
	for _, g := range t {
		b = append(b, 0x91, byte(len(g.Name)))
		b = append(b, g.Name...)
		if len(g.Name)%2 == 1 {
			b = append(b, 0)
		}
		for _, x := range g.Index {
			switch {
			case x < 256 && wide == 0:
				b = append(b, 0x28, byte(x))
			case x < 65536 && wide < 2:
				b = append(b, 0x29, 0)
				b = le.AppendUint16(b, uint16(x))
			default:
				b = append(b, 0x2A, 0)
				b = le.AppendUint32(b, uint32(x))
			}
		}
	}
	return b
}

// Logical is a path of class, instance and, if not negative, attribute.
func Logical(class, inst, attr int, wide bool) []byte {
	var b []byte
	add := func(t byte, v int) {
		if v < 256 && !wide {
			b = append(b, t, byte(v))
		} else {
			b = append(b, t|1, 0)
			b = le.AppendUint16(b, uint16(v))
		}
	}
	add(0x20, class)
	add(0x24, inst)
	if attr >= 0 {
		add(0x30, attr)
	}
	return b
}

// Request is a CIP request.
func Request(service byte, path, data []byte) []byte {
	b := append([]byte{service, byte(len(path) / 2)}, path...)
	return append(b, data...)
}

// Read is a read of n elements.
func Read(t Tag, wide int, n int) []byte {
	return Request(ReadTag, t.Path(wide), le.AppendUint16(nil, uint16(n)))
}

// ReadFrag is a read of n elements from a byte offset on.
func ReadFrag(t Tag, wide int, n int, off uint32) []byte {
	return Request(FragRead, t.Path(wide), le.AppendUint32(le.AppendUint16(nil, uint16(n)), off))
}

// Write is a write of n elements.
func Write(t Tag, wide int, typ []byte, n int, data []byte) []byte {
	b := append([]byte{}, typ...)
	b = le.AppendUint16(b, uint16(n))
	return Request(WriteTag, t.Path(wide), append(b, data...))
}

// Multi is a multiple service request.
func Multi(reqs ...[]byte) []byte {
	b := le.AppendUint16(nil, uint16(len(reqs)))
	off := 2 + 2*len(reqs)
	for _, r := range reqs {
		b = le.AppendUint16(b, uint16(off))
		off += len(r)
	}
	for _, r := range reqs {
		b = append(b, r...)
	}
	return Request(MultiService, MessageRouter, b)
}

// ParseMulti takes apart the data of a reply to a multiple service request.
func ParseMulti(d []byte, n int) ([]Reply, error) {
	if len(d) < 2+2*n || int(le.Uint16(d)) != n {
		return nil, fmt.Errorf("reply %x does not hold %d replies", d, n)
	}
	out := make([]Reply, n)
	at := 2 + 2*n
	for i := range out {
		if int(le.Uint16(d[2+2*i:])) != at {
			return nil, fmt.Errorf("reply %d of %d starts at %d instead of %d", i, n, le.Uint16(d[2+2*i:]), at)
		}
		end := len(d)
		if i+1 < n {
			end = int(le.Uint16(d[4+2*i:]))
		}
		if end < at || end > len(d) {
			return nil, fmt.Errorf("reply %d of %d ends at %d of %d", i, n, end, len(d))
		}
		r, err := ParseReply(d[at:end])
		if err != nil {
			return nil, fmt.Errorf("reply %d of %d: %w", i, n, err)
		}
		out[i] = r
		at = end
	}
	return out, nil
}

// Wrap puts a request in an unconnected send along route.
func Wrap(cip, route []byte) []byte {
	b := []byte{0x0A, 0x0E}
	b = le.AppendUint16(b, uint16(len(cip)))
	b = append(b, cip...)
	if len(cip)%2 == 1 {
		b = append(b, 0)
	}
	b = append(b, byte(len(route)/2), 0)
	b = append(b, route...)
	return Request(UnconnSend, []byte{0x20, 0x06, 0x24, 0x01}, b)
}

// IOPacket is a cyclic packet.
func IOPacket(conn, seq uint32, data []byte) []byte {
	return Items(Item{0x8002, le.AppendUint32(le.AppendUint32(nil, conn), seq)}, Item{0xB1, data})
}
