package plc

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"
)

var le = binary.LittleEndian

// Req is one CIP request as decoded from the wire.
type Req struct {
	N         int // running number of the top level request
	Session   uint32
	Context   uint64
	Connected bool
	ConnID    uint32
	Seq       uint16
	ItemLen   int // length of the connected/unconnected data item
	Service   byte
	Path      []Seg
	PathRaw   []byte
	Data      []byte
	Embedded  int // position in a multiple service request, -1 at top level
	conn      *Conn
	peer      *session
}

func (r *Req) String() string {
	return fmt.Sprintf("#%d svc=%#x path=%s data=%x", r.N, r.Service, SegsString(r.Path), r.Data)
}

// Reply is a CIP reply before framing.
type Reply struct {
	Status byte
	Ext    []uint16
	Data   []byte
}

// Conn is an open class 3 connection.
type Conn struct {
	OT, TO   uint32
	Serial   uint16
	Vendor   uint16
	Orig     uint32
	Large    bool
	Size     int // negotiated O->T size
	TOSize   int
	Path     []Seg
	lastSeq  int
	SeqCount int
	session  *session
	pathRaw  []byte
}

type session struct {
	handle uint32
	conn   net.Conn
	peer   *PLC
}

// Action says what to do with a framed reply.
type Action int

const (
	Send  Action = iota // send the (possibly altered) frame
	Drop                // send nothing, keep the connection
	Close               // send the frame as altered, then close
)

// Program is a program scope.
type Program struct {
	Name string
	ID   uint32
}

// PLC is the model controller.
type PLC struct {
	mu       sync.Mutex
	ln       net.Listener
	tags     map[string]*Tag
	order    []*Tag
	Programs []Program
	conns    map[uint32]*Conn
	sessions map[uint32]*session
	socks    map[net.Conn]bool
	nextID   uint32
	nextSess uint32
	granted  int
	reqN     int
	closed   bool

	// behaviour, set before traffic or under Lock
	AllowLarge     bool
	AllowStandard  bool
	MaxLarge       int
	EnforceReply   bool                          // replies bigger than the connection are refused (batch) or cut (reads)
	FragPlan       func(total, off, max int) int // how many bytes of a read to send at once
	ListPlan       func(left int) int            // how many entries of a listing to send at once
	TemplatePlan   func(off, n int) int          // how many bytes of a template definition to send at once
	DirectPrograms bool                          // programs can be listed through their own class
	Templates      []*Template                   // templates not reachable from a tag
	MultiStatus    byte                          // general status of a multiple service reply with failures (0x1E on real ones)
	Intercept      func(*Req) *Reply             // non-nil: answer this instead, nothing is carried out
	OnRequest      func(*Req)                    // monitor
	defs           map[*Template][]byte          // definitions already served; templates do not change
	RawPaths       bool                          // paths that cannot be parsed are fine, an Intercept answers
	Frame          func(n int, cmd uint16, frame []byte) ([]byte, Action)
	Objects        map[uint32]func(*Req) Reply // by class number
	Services       []ServiceEntry
	Identity       IdentityInfo
	RegisterOK     bool
	Delay          func()

	// records
	Log       []*Req
	Errors    []string // protocol violations by the peer
	frameN    int
	Regs      int
	Opens     []Conn
	Closes    int
	Accepts   int
	KeepLog   bool
	tables    map[uint16]*dataTable
	nextTab   uint16
	RejectTab func(*Req) *Reply
	Orphans   []Conn // connections whose socket went away; real controllers hold on to them for a while
	Reused    int    // connections opened with the identity of such a one
	IDStep    uint32 // from one connection ID to the next
}

func New() *PLC {
	p := &PLC{
		tags: map[string]*Tag{}, conns: map[uint32]*Conn{}, sessions: map[uint32]*session{}, socks: map[net.Conn]bool{},
		AllowLarge: true, AllowStandard: true, MaxLarge: 65511, EnforceReply: true, MultiStatus: 0x1E,
		Objects: map[uint32]func(*Req) Reply{}, RegisterOK: true, KeepLog: true, DirectPrograms: true,
		nextID: 0x10000001, IDStep: 0x10001, nextSess: 0x5000, tables: map[uint16]*dataTable{}, nextTab: 1,
	}
	p.Identity = DefaultIdentity()
	p.installObjects()
	return p
}

// Start listens on a loopback port.
func (p *PLC) Start() error {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	p.ln = ln
	go p.accept(ln)
	return nil
}

func (p *PLC) accept(ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		p.mu.Lock()
		if p.closed {
			p.mu.Unlock()
			c.Close()
			return
		}
		if tc, ok := c.(*net.TCPConn); ok {
			tc.SetLinger(0)
		}
		p.socks[c] = true
		p.Accepts++
		p.mu.Unlock()
		go p.serve(c)
	}
}

func (p *PLC) Port() uint { return uint(p.ln.Addr().(*net.TCPAddr).Port) }

func (p *PLC) Stop() {
	p.mu.Lock()
	p.closed = true
	for c := range p.socks {
		c.Close()
	}
	p.mu.Unlock()
	if p.ln != nil {
		p.ln.Close()
	}
}

// DropAll closes every socket but keeps listening.
func (p *PLC) DropAll() {
	p.mu.Lock()
	for c := range p.socks {
		c.Close()
	}
	p.mu.Unlock()
}

func (p *PLC) Lock()   { p.mu.Lock() }
func (p *PLC) Unlock() { p.mu.Unlock() }

// Sockets counts live TCP connections.
func (p *PLC) Sockets() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.socks) }

// OpenConns counts open class 3 connections on live sessions.
func (p *PLC) OpenConns() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.conns) }

// Accepted says how many sockets have been accepted.
func (p *PLC) Accepted() int { p.mu.Lock(); defer p.mu.Unlock(); return p.Accepts }

// Granted says how many connections have been opened.
func (p *PLC) Granted() int { p.mu.Lock(); defer p.mu.Unlock(); return p.granted }

// StartIDs makes connection IDs count from id+step on by step.
func (p *PLC) StartIDs(id, step uint32) {
	p.mu.Lock()
	p.nextID, p.IDStep = id, step
	p.mu.Unlock()
}

// OpenCount says how many connections have been opened.
func (p *PLC) OpenCount() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.Opens) }

func (p *PLC) errf(format string, a ...any) {
	if len(p.Errors) < 50 {
		p.Errors = append(p.Errors, fmt.Sprintf(format, a...))
	}
}

// TakeErrors returns and clears the recorded protocol violations.
func (p *PLC) TakeErrors() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	e := p.Errors
	p.Errors = nil
	return e
}

// TakeLog returns and clears the request log.
func (p *PLC) TakeLog() []*Req {
	p.mu.Lock()
	defer p.mu.Unlock()
	l := p.Log
	p.Log = nil
	return l
}

// AddTag registers a tag; Data is allocated if nil.
func (p *PLC) AddTag(t *Tag) *Tag {
	p.mu.Lock()
	defer p.mu.Unlock()
	if t.Data == nil {
		t.Data = make([]byte, t.Count()*t.ElemSize())
	}
	if t.Instance == 0 {
		t.Instance = uint32(len(p.order)*3 + 1)
	}
	p.tags[strings.ToLower(t.Program)+"/"+strings.ToLower(t.Name)] = t
	p.order = append(p.order, t)
	return t
}

func (p *PLC) ClearTags() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.tags = map[string]*Tag{}
	p.order = nil
	p.Programs = nil
}

// Reset puts all behaviour and records back to their defaults.
func (p *PLC) Reset() {
	for i := 0; ; i++ {
		p.mu.Lock()
		n := len(p.socks)
		for c := range p.socks {
			c.Close()
		}
		p.mu.Unlock()
		if n == 0 || i > 5000 {
			break
		}
		time.Sleep(time.Duration(1+i) * 20 * time.Microsecond)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.AllowLarge, p.AllowStandard, p.MaxLarge, p.EnforceReply, p.MultiStatus, p.RegisterOK, p.KeepLog = true, true, 65511, true, 0x1E, true, true
	p.ListPlan, p.TemplatePlan, p.DirectPrograms, p.Templates = nil, nil, true, nil
	p.FragPlan, p.Intercept, p.OnRequest, p.Frame, p.Delay, p.RejectTab = nil, nil, nil, nil, nil, nil
	p.Objects = map[uint32]func(*Req) Reply{}
	p.installObjects()
	p.Services, p.RawPaths, p.defs = nil, false, nil
	p.Identity = DefaultIdentity()
	p.tables, p.nextTab = map[uint16]*dataTable{}, 0
	p.Log, p.Errors, p.Opens = nil, nil, nil
	p.Regs, p.Closes, p.Accepts, p.frameN, p.reqN = 0, 0, 0, 0, 0
	p.Orphans, p.Reused, p.nextID, p.IDStep = nil, 0, 0x10000001, 0x10001
	p.tags = map[string]*Tag{}
	p.order, p.Programs = nil, nil
}

func (p *PLC) Tags() []*Tag { return p.order }

func (p *PLC) hasProgram(name string) bool {
	for _, q := range p.Programs {
		if strings.EqualFold(q.Name, name) {
			return true
		}
	}
	return false
}
func (p *PLC) programByID(id uint32) *Program {
	for i := range p.Programs {
		if p.Programs[i].ID == id {
			return &p.Programs[i]
		}
	}
	return nil
}

// Snapshot copies all tag memory.
func (p *PLC) Snapshot() map[string][]byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	m := make(map[string][]byte, len(p.tags))
	for k, t := range p.tags {
		m[k] = append([]byte(nil), t.Data...)
	}
	return m
}

// Set overwrites a tag's memory.
func (p *PLC) Set(t *Tag, off int, b []byte) {
	p.mu.Lock()
	copy(t.Data[off:], b)
	p.mu.Unlock()
}

func (p *PLC) Get(t *Tag) []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]byte(nil), t.Data...)
}

func (p *PLC) serve(c net.Conn) {
	s := &session{conn: c, peer: p}
	defer func() {
		c.Close()
		p.mu.Lock()
		delete(p.socks, c)
		if s.handle != 0 {
			delete(p.sessions, s.handle)
		}
		for id, cn := range p.conns {
			if cn.session == s {
				p.Orphans = append(p.Orphans, *cn)
				delete(p.conns, id)
			}
		}
		p.mu.Unlock()
	}()
	for {
		hdr := make([]byte, 24)
		if _, err := io.ReadFull(c, hdr); err != nil {
			if err == io.ErrUnexpectedEOF {
				p.mu.Lock()
				p.errf("peer closed inside an encapsulation header")
				p.mu.Unlock()
			}
			return
		}
		n := int(le.Uint16(hdr[2:]))
		body := make([]byte, n)
		c.SetReadDeadline(time.Now().Add(5 * time.Second))
		if _, err := io.ReadFull(c, body); err != nil {
			p.mu.Lock()
			if !p.closed {
				p.errf("encapsulation length %d but body is short: %v", n, err)
			}
			p.mu.Unlock()
			return
		}
		c.SetReadDeadline(time.Time{})
		p.mu.Lock()
		delay := p.Delay
		p.mu.Unlock()
		if delay != nil {
			delay()
		}
		p.mu.Lock()
		rep := p.handleFrame(s, hdr, body)
		var act Action
		if rep != nil {
			fn := p.frameN
			p.frameN++
			if p.Frame != nil {
				rep, act = p.Frame(fn, le.Uint16(hdr), rep)
			}
		}
		p.mu.Unlock()
		if rep != nil && act != Drop {
			if _, err := c.Write(rep); err != nil {
				return
			}
		}
		if act == Close {
			if tc, ok := c.(*net.TCPConn); ok {
				tc.SetLinger(-1)
			}
			return
		}
	}
}

// FrameCount is the number of reply frames produced so far.
func (p *PLC) FrameCount() int { p.mu.Lock(); defer p.mu.Unlock(); return p.frameN }

func encap(hdr []byte, session uint32, status uint32, body []byte) []byte {
	out := make([]byte, 24, 24+len(body))
	copy(out, hdr)
	le.PutUint16(out[2:], uint16(len(body)))
	le.PutUint32(out[4:], session)
	le.PutUint32(out[8:], status)
	copy(out[12:20], hdr[12:20])
	le.PutUint32(out[20:], 0)
	return append(out, body...)
}

type item struct {
	id   uint16
	data []byte
}

func parseCPF(b []byte) ([]item, error) {
	if len(b) < 8 {
		return nil, fmt.Errorf("short common packet: %x", b)
	}
	if le.Uint32(b) != 0 {
		return nil, fmt.Errorf("interface handle %#x", le.Uint32(b))
	}
	n := int(le.Uint16(b[6:]))
	b = b[8:]
	var out []item
	for i := 0; i < n; i++ {
		if len(b) < 4 {
			return nil, fmt.Errorf("item %d of %d missing", i, n)
		}
		l := int(le.Uint16(b[2:]))
		if len(b) < 4+l {
			return nil, fmt.Errorf("item %d claims %d bytes, %d left", i, l, len(b)-4)
		}
		out = append(out, item{le.Uint16(b), b[4 : 4+l]})
		b = b[4+l:]
	}
	if len(b) != 0 {
		return nil, fmt.Errorf("%d trailing bytes after items", len(b))
	}
	return out, nil
}

func buildCPF(items ...item) []byte {
	var b bytes.Buffer
	b.Write(make([]byte, 6))
	binary.Write(&b, le, uint16(len(items)))
	for _, it := range items {
		binary.Write(&b, le, it.id)
		binary.Write(&b, le, uint16(len(it.data)))
		b.Write(it.data)
	}
	return b.Bytes()
}

func (p *PLC) handleFrame(s *session, hdr, body []byte) []byte {
	cmd := le.Uint16(hdr)
	sess := le.Uint32(hdr[4:])
	if le.Uint32(hdr[8:]) != 0 {
		p.errf("request with encapsulation status %#x", le.Uint32(hdr[8:]))
	}
	switch cmd {
	case 0x65:
		p.Regs++
		if len(body) != 4 || le.Uint16(body) != 1 || le.Uint16(body[2:]) != 0 {
			p.errf("bad register session body %x", body)
			return encap(hdr, 0, 1, body)
		}
		if !p.RegisterOK {
			return encap(hdr, 0, 0x02, body)
		}
		p.nextSess += 7
		s.handle = p.nextSess
		p.sessions[s.handle] = s
		return encap(hdr, s.handle, 0, body)
	case 0x66:
		return nil
	case 0x63:
		if len(body) != 0 {
			p.errf("list identity with body %x", body)
		}
		return encap(hdr, sess, 0, p.Identity.listIdentityBody())
	case 0x04:
		if len(body) != 0 {
			p.errf("list services with body %x", body)
		}
		return encap(hdr, sess, 0, listServicesBody(p.Services))
	case 0x6F, 0x70:
	default:
		p.errf("unknown encapsulation command %#x", cmd)
		return encap(hdr, sess, 1, nil)
	}
	if s.handle == 0 || sess != s.handle {
		p.errf("command %#x with session %#x, registered %#x", cmd, sess, s.handle)
		return encap(hdr, sess, 0x64, nil)
	}
	items, err := parseCPF(body)
	if err != nil {
		p.errf("command %#x: %v", cmd, err)
		return encap(hdr, sess, 3, nil)
	}
	if len(items) != 2 {
		p.errf("command %#x with %d items", cmd, len(items))
		return encap(hdr, sess, 3, nil)
	}
	req := &Req{N: p.reqN, Session: sess, Context: le.Uint64(hdr[12:]), Embedded: -1, peer: s, ItemLen: len(items[1].data)}
	p.reqN++
	var mr []byte
	if cmd == 0x70 {
		if items[0].id != 0xA1 || len(items[0].data) != 4 || items[1].id != 0xB1 || len(items[1].data) < 2 {
			p.errf("unit data items %#x(%d) %#x(%d)", items[0].id, len(items[0].data), items[1].id, len(items[1].data))
			return encap(hdr, sess, 3, nil)
		}
		req.Connected = true
		req.ConnID = le.Uint32(items[0].data)
		cn := p.conns[req.ConnID]
		if cn == nil || cn.session != s {
			p.errf("request on connection %#x which is not open", req.ConnID)
			return nil // a controller ignores it
		}
		req.conn = cn
		req.Seq = le.Uint16(items[1].data)
		if cn.lastSeq == int(req.Seq) {
			p.errf("sequence number %d repeated on consecutive requests", req.Seq)
		}
		cn.lastSeq = int(req.Seq)
		cn.SeqCount++
		if req.ItemLen > cn.Size {
			p.errf("request of %d bytes on a connection of size %d", req.ItemLen, cn.Size)
		}
		mr = items[1].data[2:]
	} else {
		if items[0].id != 0 || len(items[0].data) != 0 || items[1].id != 0xB2 {
			p.errf("rr data items %#x(%d) %#x(%d)", items[0].id, len(items[0].data), items[1].id, len(items[1].data))
			return encap(hdr, sess, 3, nil)
		}
		mr = items[1].data
	}
	var rep Reply
	svc := byte(0)
	if err := req.decode(mr); err != nil && !(p.RawPaths && req.PathRaw != nil) {
		p.errf("request %d: %v (%x)", req.N, err, mr)
		rep = Reply{Status: 0x04}
		if len(mr) > 0 {
			svc = mr[0]
		}
	} else {
		svc = req.Service
		if p.KeepLog {
			p.Log = append(p.Log, req)
		}
		limit := 0
		if req.conn != nil {
			limit = req.conn.TOSize - 2
		} else {
			limit = 504
		}
		rep = p.execute(req, limit)
	}
	out := mrReply(svc, rep)
	if req.Connected {
		data := make([]byte, 2, 2+len(out))
		le.PutUint16(data, req.Seq)
		data = append(data, out...)
		id := make([]byte, 4)
		le.PutUint32(id, req.conn.TO)
		return encap(hdr, sess, 0, buildCPF(item{0xA1, id}, item{0xB1, data}))
	}
	return encap(hdr, sess, 0, buildCPF(item{0, nil}, item{0xB2, out}))
}

func mrReply(svc byte, r Reply) []byte {
	out := []byte{svc | 0x80, 0, r.Status, byte(len(r.Ext))}
	for _, e := range r.Ext {
		out = append(out, byte(e), byte(e>>8))
	}
	return append(out, r.Data...)
}

func (r *Req) decode(b []byte) error {
	if len(b) < 2 {
		return fmt.Errorf("short request")
	}
	r.Service = b[0]
	n := int(b[1]) * 2
	if len(b) < 2+n {
		return fmt.Errorf("path of %d bytes does not fit", n)
	}
	r.PathRaw = b[2 : 2+n]
	var err error
	r.Data = b[2+n:]
	r.Path, err = ParsePath(r.PathRaw)
	if err != nil {
		return fmt.Errorf("path %x: %v", r.PathRaw, err)
	}
	return nil
}

// Answer is what the controller would answer, for an Intercept that wants to
// alter it.
func (p *PLC) Answer(r *Req, limit int) Reply {
	i, o := p.Intercept, p.OnRequest
	p.Intercept, p.OnRequest = nil, nil
	defer func() { p.Intercept, p.OnRequest = i, o }()
	return p.execute(r, limit)
}

// execute carries out a request. limit is the room for the reply's header and data.
func (p *PLC) execute(r *Req, limit int) Reply {
	if p.OnRequest != nil {
		p.OnRequest(r)
	}
	if p.Intercept != nil {
		if rep := p.Intercept(r); rep != nil {
			return *rep
		}
	}
	isTagPath := len(r.Path) > 0 && (r.Path[0].Kind == 's' ||
		r.Path[0].Kind == 'c' && (r.Path[0].Num == 0x6B || r.Path[0].Num == 0x68))
	if isTagPath {
		switch r.Service {
		case 0x4C:
			return p.read(r, limit, false)
		case 0x52:
			return p.read(r, limit, true)
		case 0x4D:
			return p.write(r)
		}
	}
	if len(r.Path) >= 1 && r.Path[0].Kind == 's' && r.Service == 0x55 {
		return p.symbolList(r, limit)
	}
	if len(r.Path) == 0 || r.Path[0].Kind != 'c' {
		return Reply{Status: 0x04}
	}
	h, ok := p.Objects[r.Path[0].Num]
	if !ok {
		return Reply{Status: 0x05}
	}
	if r.Path[0].Num == 0x02 && r.Service == 0x0A {
		return p.multi(r, limit)
	}
	if r.Service == 0x55 {
		return p.symbolList(r, limit)
	}
	return h(r)
}

func (p *PLC) multi(r *Req, limit int) Reply {
	if r.Embedded >= 0 {
		p.errf("nested multiple service request")
		return Reply{Status: 0x08}
	}
	if len(r.Path) != 2 || r.Path[1].Kind != 'i' || r.Path[1].Num != 1 {
		p.errf("multiple service request to %s", SegsString(r.Path))
		return Reply{Status: 0x05}
	}
	d := r.Data
	if len(d) < 2 {
		p.errf("multiple service request without count")
		return Reply{Status: 0x13}
	}
	n := int(le.Uint16(d))
	if len(d) < 2+2*n || n == 0 {
		p.errf("multiple service request with %d services in %d bytes", n, len(d))
		return Reply{Status: 0x13}
	}
	offs := make([]int, n+1)
	for i := 0; i < n; i++ {
		offs[i] = int(le.Uint16(d[2+2*i:]))
	}
	offs[n] = len(d)
	if offs[0] != 2+2*n {
		p.errf("first service offset %d with %d services", offs[0], n)
		return Reply{Status: 0x13}
	}
	for i := 0; i < n; i++ {
		if offs[i+1] < offs[i]+2 || offs[i+1] > len(d) {
			p.errf("service offsets %v in %d bytes", offs, len(d))
			return Reply{Status: 0x13}
		}
	}
	replies := make([][]byte, n)
	used := 4 + 2 + 2*n
	bad := false
	for i := 0; i < n; i++ {
		sub := &Req{N: r.N, Session: r.Session, Context: r.Context, Connected: r.Connected, ConnID: r.ConnID, Seq: r.Seq,
			ItemLen: r.ItemLen, Embedded: i, conn: r.conn, peer: r.peer}
		raw := d[offs[i]:offs[i+1]]
		var rep Reply
		if err := sub.decode(raw); err != nil {
			p.errf("embedded request %d: %v (%x)", i, err, raw)
			rep = Reply{Status: 0x04}
		} else {
			if p.KeepLog {
				p.Log = append(p.Log, sub)
			}
			rep = p.execute(sub, limit-used)
		}
		out := mrReply(raw[0], rep)
		if p.EnforceReply && used+len(out) > limit {
			out = mrReply(raw[0], Reply{Status: 0x11})
			bad = true
		}
		if rep.Status != 0 {
			bad = true
		}
		used += len(out)
		replies[i] = out
	}
	data := make([]byte, 2+2*n)
	le.PutUint16(data, uint16(n))
	for i, o := range replies {
		le.PutUint16(data[2+2*i:], uint16(len(data)))
		data = append(data, o...)
	}
	st := byte(0)
	if bad {
		st = p.MultiStatus
	}
	return Reply{Status: st, Data: data}
}

func typeHeader(rf ref) []byte {
	if rf.typ == STRUCT {
		return []byte{0xA0, 0x02, byte(rf.tmpl.Handle), byte(rf.tmpl.Handle >> 8)}
	}
	return []byte{rf.typ, 0}
}

func (p *PLC) read(r *Req, limit int, frag bool) Reply {
	want := 2
	if frag {
		want = 6
	}
	if len(r.Data) != want {
		p.errf("read request data %x", r.Data)
		return Reply{Status: 0x13}
	}
	rf, st := p.resolve(r.Path)
	if st != 0 {
		return Reply{Status: st}
	}
	n := int(le.Uint16(r.Data))
	if n == 0 {
		return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
	}
	if n > rf.remain {
		return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
	}
	var all []byte
	if rf.bit >= 0 && rf.typ == BOOL && rf.remain == 1 && rf.tag.Type == STRUCT {
		all = []byte{rf.tag.Data[rf.off] >> uint(rf.bit) & 1}
	} else {
		all = rf.tag.Data[rf.off : rf.off+n*rf.esize]
	}
	off := 0
	if frag {
		off = int(le.Uint32(r.Data[2:]))
		if off > len(all) || (off == len(all) && len(all) > 0) {
			return Reply{Status: 0xFF, Ext: []uint16{0x2104}}
		}
	}
	hdr := typeHeader(rf)
	rest := all[off:]
	max := limit - 4 - len(hdr)
	if max < 0 {
		max = 0
	}
	k := len(rest)
	if p.EnforceReply && k > max {
		k = max
		if rf.typ != STRUCT {
			k -= k % rf.esize
		} else {
			k -= k % 4
		}
		if r.Embedded >= 0 {
			k = 0
			return Reply{Status: 0x11}
		}
	}
	if p.FragPlan != nil && r.Embedded < 0 {
		if q := p.FragPlan(len(all), off, k); q < k {
			k = q
		}
	}
	st = 0
	if k < len(rest) {
		st = 0x06
	}
	return Reply{Status: st, Data: append(append([]byte(nil), hdr...), rest[:k]...)}
}

func (p *PLC) write(r *Req) Reply {
	rf, st := p.resolve(r.Path)
	if st != 0 {
		return Reply{Status: st}
	}
	d := r.Data
	if len(d) < 4 {
		p.errf("write request data %x", d)
		return Reply{Status: 0x13}
	}
	var hdr []byte
	switch {
	case d[0] == 0xA0 && d[1] == 2:
		if len(d) < 6 {
			return Reply{Status: 0x13}
		}
		hdr, d = d[:4], d[4:]
	case d[0] != 0xA0 && d[1] == 0:
		hdr, d = d[:2], d[2:]
	default:
		return Reply{Status: 0xFF, Ext: []uint16{0x2107}}
	}
	n := int(le.Uint16(d))
	d = d[2:]
	if !bytes.Equal(hdr, typeHeader(rf)) {
		return Reply{Status: 0xFF, Ext: []uint16{0x2107}}
	}
	if n == 0 || n > rf.remain {
		return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
	}
	if len(d) < n*rf.esize {
		return Reply{Status: 0x13}
	}
	if len(d) > n*rf.esize {
		return Reply{Status: 0x15}
	}
	if rf.tag.ReadOnly {
		return Reply{Status: 0x0F}
	}
	if rf.bit >= 0 && rf.typ == BOOL && rf.tag.Type == STRUCT {
		b := rf.tag.Data[rf.off] &^ (1 << uint(rf.bit))
		if d[0] != 0 {
			b |= 1 << uint(rf.bit)
		}
		rf.tag.Data[rf.off] = b
		return Reply{}
	}
	copy(rf.tag.Data[rf.off:], d)
	return Reply{}
}
