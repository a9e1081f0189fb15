package plc

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

// IdentityInfo is what the device says about itself.
type IdentityInfo struct {
	EncapVersion uint16
	Family       uint16
	Port         uint16
	Addr         [4]byte
	Vendor       uint16
	DeviceType   uint16
	ProductCode  uint16
	Major, Minor byte
	Status       uint16
	Serial       uint32
	Name         string
	State        byte
}

func DefaultIdentity() IdentityInfo {
	return IdentityInfo{EncapVersion: 1, Family: 2, Port: 44818, Addr: [4]byte{127, 0, 0, 1}, Vendor: 1, DeviceType: 14,
		ProductCode: 54, Major: 32, Minor: 11, Status: 0x3060, Serial: 0xC0FFEE01, Name: "1756-L8x model", State: 3}
}

// Item is the identity as it stands in a list identity reply.
func (i IdentityInfo) Item() []byte {
	var it bytes.Buffer
	w := func(o binary.ByteOrder, v any) { binary.Write(&it, o, v) }
	w(le, i.EncapVersion)
	w(binary.BigEndian, i.Family)
	w(binary.BigEndian, i.Port)
	it.Write(i.Addr[:])
	it.Write(make([]byte, 8))
	w(le, i.Vendor)
	w(le, i.DeviceType)
	w(le, i.ProductCode)
	it.WriteByte(i.Major)
	it.WriteByte(i.Minor)
	w(le, i.Status)
	w(le, i.Serial)
	it.WriteByte(byte(len(i.Name)))
	it.WriteString(i.Name)
	it.WriteByte(i.State)
	return it.Bytes()
}

func (i IdentityInfo) listIdentityBody() []byte {
	it := i.Item()
	var b bytes.Buffer
	binary.Write(&b, le, uint16(1))
	binary.Write(&b, le, uint16(0x0C))
	binary.Write(&b, le, uint16(len(it)))
	b.Write(it)
	return b.Bytes()
}

// ServiceEntry is one item of a list services reply.
type ServiceEntry struct {
	Type    uint16
	Version uint16
	Flags   uint16
	Name    string // up to 16 bytes
}

func listServicesBody(l []ServiceEntry) []byte {
	var b bytes.Buffer
	binary.Write(&b, le, uint16(len(l)))
	for _, s := range l {
		binary.Write(&b, le, s.Type)
		binary.Write(&b, le, uint16(20))
		binary.Write(&b, le, s.Version)
		binary.Write(&b, le, s.Flags)
		n := make([]byte, 16)
		copy(n, s.Name)
		b.Write(n)
	}
	return b.Bytes()
}

func (p *PLC) installObjects() {
	p.Objects[0x01] = p.identityObject
	p.Objects[0x02] = func(r *Req) Reply { return Reply{Status: 0x08} }
	p.Objects[0x06] = p.connectionManager
	p.Objects[0x6B] = func(r *Req) Reply { return Reply{Status: 0x08} }
	p.Objects[0x6C] = p.templateObject
	p.Objects[0x68] = func(r *Req) Reply { return Reply{Status: 0x08} }
	p.Objects[0xB2] = p.dataTableObject
	p.Objects[0xAC] = p.controllerInfo
}

func (p *PLC) identityObject(r *Req) Reply {
	i := p.Identity
	if len(r.Path) < 2 || r.Path[1].Kind != 'i' || r.Path[1].Num != 1 {
		return Reply{Status: 0x05}
	}
	attr := func(n uint32) ([]byte, bool) {
		var b bytes.Buffer
		switch n {
		case 1:
			binary.Write(&b, le, i.Vendor)
		case 2:
			binary.Write(&b, le, i.DeviceType)
		case 3:
			binary.Write(&b, le, i.ProductCode)
		case 4:
			b.Write([]byte{i.Major, i.Minor})
		case 5:
			binary.Write(&b, le, i.Status)
		case 6:
			binary.Write(&b, le, i.Serial)
		case 7:
			b.WriteByte(byte(len(i.Name)))
			b.WriteString(i.Name)
		default:
			return nil, false
		}
		return b.Bytes(), true
	}
	switch r.Service {
	case 0x0E:
		if len(r.Path) != 3 || r.Path[2].Kind != 'a' {
			return Reply{Status: 0x05}
		}
		b, ok := attr(r.Path[2].Num)
		if !ok {
			return Reply{Status: 0x14}
		}
		return Reply{Data: b}
	case 0x03:
		return getAttrList(r, attr)
	}
	return Reply{Status: 0x08}
}

func getAttrList(r *Req, attr func(uint32) ([]byte, bool)) Reply {
	if len(r.Data) < 2 {
		return Reply{Status: 0x13}
	}
	n := int(le.Uint16(r.Data))
	if len(r.Data) != 2+2*n {
		return Reply{Status: 0x13}
	}
	var b bytes.Buffer
	binary.Write(&b, le, uint16(n))
	st := byte(0)
	for k := 0; k < n; k++ {
		a := le.Uint16(r.Data[2+2*k:])
		binary.Write(&b, le, a)
		v, ok := attr(uint32(a))
		if !ok {
			binary.Write(&b, le, uint16(0x14))
			st = 0x0A
			continue
		}
		binary.Write(&b, le, uint16(0))
		b.Write(v)
	}
	return Reply{Status: st, Data: b.Bytes()}
}

// controllerInfo is the object polled by keep-alive.
func (p *PLC) controllerInfo(r *Req) Reply {
	if r.Service != 0x03 {
		return Reply{Status: 0x08}
	}
	return getAttrList(r, func(n uint32) ([]byte, bool) {
		switch n {
		case 1, 2:
			return []byte{byte(n), 0}, true
		case 3, 4, 10:
			return []byte{byte(n), 1, 2, 3}, true
		}
		return nil, false
	})
}

func (p *PLC) connectionManager(r *Req) Reply {
	if r.Connected {
		return Reply{Status: 0x08}
	}
	if len(r.Path) != 2 || r.Path[1].Kind != 'i' || r.Path[1].Num != 1 {
		return Reply{Status: 0x05}
	}
	d := r.Data
	switch r.Service {
	case 0x54, 0x5B:
		large := r.Service == 0x5B
		w := 2
		if large {
			w = 4
		}
		fixed := 2 + 4 + 4 + 2 + 2 + 4 + 4 + 4 + w + 4 + w + 1 + 1
		if len(d) < fixed {
			p.errf("forward open of %d bytes", len(d))
			return Reply{Status: 0x13}
		}
		get := func(o int) uint32 {
			if large {
				return le.Uint32(d[o:])
			}
			return uint32(le.Uint16(d[o:]))
		}
		ot := get(26)
		to := get(26 + w + 4)
		mask := uint32(0x1FF)
		typeShift := 13
		if large {
			mask = 0xFFFF
			typeShift = 29
		}
		c := &Conn{TO: le.Uint32(d[6:]), Serial: le.Uint16(d[10:]), Vendor: le.Uint16(d[12:]), Orig: le.Uint32(d[14:]),
			Large: large, Size: int(ot & mask), TOSize: int(to & mask), lastSeq: -1, session: r.peer}
		plen := int(d[fixed-1]) * 2
		if len(d) != fixed+plen {
			p.errf("forward open path of %d bytes in %d", plen, len(d)-fixed)
			return Reply{Status: 0x15}
		}
		path, err := ParsePath(d[fixed:])
		if err != nil {
			p.errf("forward open path: %v", err)
			return Reply{Status: 0x04}
		}
		c.Path = path
		if ot>>typeShift&3 != 2 || to>>typeShift&3 != 2 {
			p.errf("forward open connection type %x/%x", ot, to)
		}
		if d[fixed-2] != 0xA3 {
			p.errf("forward open transport trigger %#x", d[fixed-2])
		}
		p.Opens = append(p.Opens, *c)
		if large && (!p.AllowLarge || c.Size > p.MaxLarge) {
			return Reply{Status: 0x08}
		}
		if !large && !p.AllowStandard {
			return Reply{Status: 0x01, Ext: []uint16{0x0113}}
		}
		for _, o := range p.conns {
			if o.Serial == c.Serial && o.Vendor == c.Vendor && o.Orig == c.Orig {
				return Reply{Status: 0x01, Ext: []uint16{0x0100}}
			}
		}
		for _, o := range p.Orphans {
			if o.Serial == c.Serial && o.Vendor == c.Vendor && o.Orig == c.Orig {
				p.Reused++
			}
		}
		for {
			p.nextID += p.IDStep
			c.OT = p.nextID
			if _, taken := p.conns[c.OT]; c.OT != 0 && !taken {
				break
			}
		}
		c.pathRaw = append([]byte(nil), d[fixed:]...)
		p.conns[c.OT] = c
		p.granted++
		var b bytes.Buffer
		binary.Write(&b, le, c.OT)
		binary.Write(&b, le, c.TO)
		binary.Write(&b, le, c.Serial)
		binary.Write(&b, le, c.Vendor)
		binary.Write(&b, le, c.Orig)
		b.Write(d[22:26])
		b.Write(d[26+w : 26+w+4])
		b.Write([]byte{0, 0})
		return Reply{Data: b.Bytes()}
	case 0x4E:
		if len(d) < 12 {
			p.errf("forward close of %d bytes", len(d))
			return Reply{Status: 0x13}
		}
		serial, vendor, orig := le.Uint16(d[2:]), le.Uint16(d[4:]), le.Uint32(d[6:])
		if plen := int(d[10]) * 2; len(d) != 12+plen {
			p.errf("forward close path of %d bytes in %d", plen, len(d)-12)
			return Reply{Status: 0x15}
		}
		for id, o := range p.conns {
			if o.Serial == serial && o.Vendor == vendor && o.Orig == orig {
				if !bytes.Equal(d[12:], o.pathRaw) {
					p.errf("forward close path %x of a connection opened with %x", d[12:], o.pathRaw)
				}
				p.Closes++
				delete(p.conns, id)
				var b bytes.Buffer
				binary.Write(&b, le, serial)
				binary.Write(&b, le, vendor)
				binary.Write(&b, le, orig)
				b.Write([]byte{0, 0})
				return Reply{Data: b.Bytes()}
			}
		}
		p.errf("forward close of connection %d/%d/%d which is not open", serial, vendor, orig)
		return Reply{Status: 0x01, Ext: []uint16{0x0107}}
	}
	return Reply{Status: 0x08}
}

// listed is one entry of the symbol list of a scope.
type listed struct {
	inst uint32
	name string
	typ  uint16
	dims [3]uint32
}

// SymbolType is the type word the symbol object reports for a tag.
func (t *Tag) SymbolType() uint16 {
	if t.RawType != 0 {
		return t.RawType
	}
	w := uint16(t.Type)
	if t.Type == STRUCT {
		w = 0x8000 | t.Tmpl.ID
	}
	w |= uint16(len(t.Dims)) << 13
	if t.System {
		w |= 0x1000
	}
	return w
}

// symbols are the entries of a scope in the order of their instances.
func (p *PLC) symbols(program string) []listed {
	var l []listed
	for _, t := range p.order {
		if !strings.EqualFold(t.Program, program) {
			continue
		}
		e := listed{inst: t.Instance, name: t.Name, typ: t.SymbolType()}
		for i, d := range t.Dims {
			e.dims[i] = uint32(d)
		}
		l = append(l, e)
	}
	if program == "" {
		taken := map[uint32]bool{}
		for _, e := range l {
			taken[e.inst] = true
		}
		for _, q := range p.Programs {
			inst := 0x8000 + q.ID
			for taken[inst] {
				inst++
			}
			taken[inst] = true
			l = append(l, listed{inst: inst, name: "Program:" + q.Name, typ: 0x1068})
		}
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].inst < l[j].inst })
	return l
}

// symbolList answers the service that lists instances and their attributes,
// for the symbols of a scope and for the programs.
func (p *PLC) symbolList(r *Req, limit int) Reply {
	segs := r.Path
	program := ""
	if len(segs) == 2 && segs[0].Kind == 'c' && segs[0].Num == 0x68 && segs[1].Kind == 'i' {
		return p.programList(r, segs[1].Num, limit)
	}
	switch {
	case len(segs) > 2 && segs[0].Kind == 's' && strings.HasPrefix(strings.ToLower(segs[0].Name), "program:"):
		program = segs[0].Name[8:]
		if !p.hasProgram(program) {
			return Reply{Status: 0x05}
		}
		segs = segs[1:]
	case len(segs) > 2 && segs[0].Kind == 'c' && segs[0].Num == 0x68 && segs[1].Kind == 'i':
		q := p.programByID(segs[1].Num)
		if q == nil {
			return Reply{Status: 0x05}
		}
		program = q.Name
		segs = segs[2:]
	}
	if len(segs) != 2 || segs[0].Kind != 'c' || segs[0].Num != 0x6B || segs[1].Kind != 'i' {
		p.errf("instance list of %s", SegsString(r.Path))
		return Reply{Status: 0x05}
	}
	if !bytes.Equal(r.Data, []byte{3, 0, 1, 0, 2, 0, 8, 0}) {
		p.errf("instance list of symbols with attributes %x", r.Data)
		return Reply{Status: 0x13}
	}
	var entries [][]byte
	for _, e := range p.symbols(program) {
		if e.inst < segs[1].Num {
			continue
		}
		var b bytes.Buffer
		binary.Write(&b, le, e.inst)
		binary.Write(&b, le, uint16(len(e.name)))
		b.WriteString(e.name)
		binary.Write(&b, le, e.typ)
		binary.Write(&b, le, e.dims)
		entries = append(entries, b.Bytes())
	}
	return p.cutList(r, entries, limit)
}

func (p *PLC) programList(r *Req, from uint32, limit int) Reply {
	if !p.DirectPrograms {
		return Reply{Status: 0x08}
	}
	if !bytes.Equal(r.Data, []byte{1, 0, 28, 0}) {
		p.errf("instance list of programs with attributes %x", r.Data)
		return Reply{Status: 0x13}
	}
	l := append([]Program(nil), p.Programs...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	var entries [][]byte
	for _, q := range l {
		if q.ID < from {
			continue
		}
		var b bytes.Buffer
		binary.Write(&b, le, q.ID)
		binary.Write(&b, le, uint32(len(q.Name)))
		b.WriteString(q.Name)
		entries = append(entries, b.Bytes())
	}
	return p.cutList(r, entries, limit)
}

// cutList sends as many entries as fit or as the plan allows.
func (p *PLC) cutList(r *Req, entries [][]byte, limit int) Reply {
	n := len(entries)
	if p.ListPlan != nil {
		if q := p.ListPlan(n); q < n && q >= 1 {
			n = q
		}
	}
	var b []byte
	for i := 0; i < n; i++ {
		if len(b)+len(entries[i])+4 > limit {
			n = i
			break
		}
		b = append(b, entries[i]...)
	}
	st := byte(0)
	if n < len(entries) {
		st = 0x06
	}
	return Reply{Status: st, Data: b}
}

// allTemplates finds every template reachable from the tags.
func (p *PLC) allTemplates() map[uint16]*Template {
	m := map[uint16]*Template{}
	var walk func(t *Template)
	walk = func(t *Template) {
		if t == nil || m[t.ID] != nil {
			return
		}
		m[t.ID] = t
		for _, x := range t.Members {
			walk(x.Tmpl)
		}
	}
	for _, t := range p.order {
		walk(t.Tmpl)
	}
	for _, t := range p.Templates {
		walk(t)
	}
	return m
}

// Definition is the text and member table of a template as the template
// object stores it.
func (t *Template) Definition() []byte {
	var b bytes.Buffer
	for _, m := range t.Members {
		info, typ := uint16(0), uint16(m.Type)
		switch {
		case m.Type == STRUCT:
			typ = 0x8000 | m.Tmpl.ID
		case m.Type == BOOL && m.Count == 0:
			info = uint16(m.Bit)
		}
		if m.Count > 0 {
			typ |= 0x2000
			info = uint16(m.Count)
		}
		binary.Write(&b, le, info)
		binary.Write(&b, le, typ)
		binary.Write(&b, le, uint32(m.Offset))
	}
	b.WriteString(t.Name)
	b.WriteString(t.NameTail)
	b.WriteByte(0)
	for _, m := range t.Members {
		b.WriteString(m.Name)
		b.WriteByte(0)
	}
	return b.Bytes()
}

// DefWords is the size attribute that goes with Definition.
func (t *Template) DefWords() uint32 { return uint32((len(t.Definition()) + 23 + 3) / 4) }

func (p *PLC) templateObject(r *Req) Reply {
	if len(r.Path) != 2 || r.Path[1].Kind != 'i' {
		return Reply{Status: 0x05}
	}
	t := p.allTemplates()[uint16(r.Path[1].Num)]
	if t == nil || r.Path[1].Num > 0xFFFF {
		return Reply{Status: 0x05}
	}
	switch r.Service {
	case 0x03:
		return getAttrList(r, func(n uint32) ([]byte, bool) {
			b := make([]byte, 4)
			switch n {
			case 1:
				le.PutUint16(b, t.Handle)
				return b[:2], true
			case 2:
				le.PutUint16(b, uint16(len(t.Members)))
				return b[:2], true
			case 4:
				le.PutUint32(b, t.DefWords())
				return b, true
			case 5:
				le.PutUint32(b, uint32(t.Size))
				return b, true
			}
			return nil, false
		})
	case 0x4C:
		if len(r.Data) != 6 {
			p.errf("template read with data %x", r.Data)
			return Reply{Status: 0x13}
		}
		off, n := int(le.Uint32(r.Data)), int(le.Uint16(r.Data[4:]))
		d := p.defs[t]
		if d == nil {
			d = t.Definition()
			for n := (len(d)+23+3)/4*4 - 23; len(d) < n; {
				d = append(d, 0)
			}
			if p.defs == nil {
				p.defs = map[*Template][]byte{}
			}
			p.defs[t] = d
		}
		if off > len(d) || n == 0 {
			return Reply{Status: 0xFF, Ext: []uint16{0x2104}}
		}
		if off+n > len(d) {
			p.errf("template read beyond the definition: %d+%d of %d", off, n, len(d))
			n = len(d) - off
		}
		k := n
		if max := 480; k > max {
			k = max
		}
		if p.TemplatePlan != nil {
			if q := p.TemplatePlan(off, k); q < k && q >= 1 {
				k = q
			}
		}
		st := byte(0)
		if k < n {
			st = 0x06
		}
		return Reply{Status: st, Data: d[off : off+k]}
	}
	return Reply{Status: 0x08}
}

// --- data tables

// dataTable is a buffer of tags that is read in one go. Tags are numbered in
// the order they were added, a number is never given out twice.
type dataTable struct {
	batches []*batch
	next    uint16
	nextB   uint16
}
type batch struct {
	id    uint16
	slots []*slot
}
type slot struct {
	index uint16
	rf    ref
}

// TableSlots lists what a data table holds: tag names by their number.
func (p *PLC) TableSlots(inst uint16) (m map[uint16]string, exists bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	t := p.tables[inst]
	if t == nil {
		return nil, false
	}
	m = map[uint16]string{}
	for _, b := range t.batches {
		for _, s := range b.slots {
			m[s.index] = fmt.Sprintf("%s/%s@%d", strings.ToLower(s.rf.tag.Program), strings.ToLower(s.rf.tag.Name), s.rf.off)
		}
	}
	return m, true
}

// Tables counts the data tables that exist.
func (p *PLC) Tables() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.tables) }

func (p *PLC) dataTableObject(r *Req) Reply {
	if p.RejectTab != nil {
		if rep := p.RejectTab(r); rep != nil {
			return *rep
		}
	}
	if len(r.Path) != 2 || r.Path[1].Kind != 'i' {
		return Reply{Status: 0x05}
	}
	inst := r.Path[1].Num
	if r.Service == 0x08 {
		if inst != 0 || !bytes.Equal(r.Data, []byte{1, 0, 3, 0, 3, 0}) {
			p.errf("data table create: %v", r)
			return Reply{Status: 0x13}
		}
		if p.nextTab += 0x101; p.nextTab == 0 {
			p.nextTab = 0x101
		}
		p.tables[p.nextTab] = &dataTable{}
		return Reply{Data: []byte{byte(p.nextTab), byte(p.nextTab >> 8)}}
	}
	t := p.tables[uint16(inst)]
	if t == nil || inst == 0 || inst > 0xFFFF {
		return Reply{Status: 0x05}
	}
	switch r.Service {
	case 0x09:
		delete(p.tables, uint16(inst))
		return Reply{}
	case 0x4E:
		d := r.Data
		if len(d) < 5 || !bytes.Equal(d[:4], []byte{2, 0, 1, 1}) {
			p.errf("data table add: %v", r)
			return Reply{Status: 0x13}
		}
		n := int(d[4])
		d = d[5:]
		if n == 0 {
			p.errf("data table add without tags")
			return Reply{Status: 0x13}
		}
		b := &batch{id: t.nextB + 1}
		if inst&1 == 1 {
			b.id = t.nextB<<8 + 7
		}
		for i := 0; i < n; i++ {
			if len(d) < 3 || len(d) < 3+2*int(d[2]) {
				p.errf("data table add with %d tags ends in tag %d: %x", n, i, r.Data)
				return Reply{Status: 0x13}
			}
			size := int(le.Uint16(d))
			path, err := ParsePath(d[3 : 3+2*int(d[2])])
			d = d[3+2*int(d[2]):]
			if err != nil {
				p.errf("data table add path: %v", err)
				return Reply{Status: 0x04}
			}
			rf, st := p.resolve(path)
			if st != 0 {
				return Reply{Status: st}
			}
			if size != rf.esize {
				return Reply{Status: 0xFF, Ext: []uint16{0x2107}}
			}
			b.slots = append(b.slots, &slot{index: t.next + uint16(i) + 1, rf: rf})
		}
		if len(d) != 0 {
			p.errf("data table add with %d tags and %d trailing bytes", n, len(d))
			return Reply{Status: 0x15}
		}
		t.nextB++
		t.next += uint16(n)
		t.batches = append(t.batches, b)
		return Reply{Data: []byte{byte(b.id), byte(b.id >> 8)}}
	case 0x4F:
		if len(r.Data) != 2 {
			p.errf("data table remove: %v", r)
			return Reply{Status: 0x13}
		}
		ix := le.Uint16(r.Data)
		for _, b := range t.batches {
			for k, s := range b.slots {
				if s.index == ix {
					b.slots = append(b.slots[:k], b.slots[k+1:]...)
					return Reply{}
				}
			}
		}
		p.errf("data table remove of tag %d which does not exist", ix)
		return Reply{Status: 0x05}
	case 0x4C:
		var out []byte
		for _, b := range t.batches {
			if len(b.slots) == 0 {
				continue
			}
			out = append(out, byte(b.id), byte(b.id>>8))
			for _, s := range b.slots {
				if s.rf.bit >= 0 && s.rf.typ == BOOL && s.rf.tag.Type == STRUCT {
					out = append(out, s.rf.tag.Data[s.rf.off]>>uint(s.rf.bit)&1)
					continue
				}
				out = append(out, s.rf.tag.Data[s.rf.off:s.rf.off+s.rf.esize]...)
			}
		}
		if r.conn != nil && len(out)+6 > r.conn.TOSize {
			return Reply{Status: 0x11}
		}
		return Reply{Data: out}
	}
	return Reply{Status: 0x08}
}
