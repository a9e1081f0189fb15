package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// frameEdit is one way to spoil a reply frame.
type frameEdit struct {
	kind string
	cut  bool // the reply is shorter than it should be, and consistent with itself
	dead bool // the reply is not complete on the stream
	do   func(fr []byte) ([]byte, plc.Action)
}

// dataItem finds the last item of a frame with common packet format: offset of its length field and of its data.
func dataItem(fr []byte) (lenAt, at int) {
	le := binary.LittleEndian
	cmd := le.Uint16(fr)
	at = 24
	switch cmd {
	case 0x6F, 0x70:
		at += 6
	case 0x63, 0x04:
	default:
		return -1, 24
	}
	if len(fr) < at+2 {
		return -1, 24
	}
	n := int(le.Uint16(fr[at:]))
	at += 2
	for i := 0; i < n; i++ {
		if len(fr) < at+4 {
			return -1, 24
		}
		l := int(le.Uint16(fr[at+2:]))
		if i == n-1 {
			if at+4+l != len(fr) {
				return -1, 24
			}
			return at + 2, at + 4
		}
		at += 4 + l
	}
	return -1, 24
}

// resize makes the last item and the frame fit data of a new length.
func resize(fr []byte, lenAt, at int, data []byte) []byte {
	out := append(append([]byte{}, fr[:at]...), data...)
	le := binary.LittleEndian
	if lenAt > 0 {
		le.PutUint16(out[lenAt:], uint16(len(data)))
	}
	le.PutUint16(out[2:], uint16(len(out)-24))
	return out
}

var oddWords = []uint32{0, 1, 2, 3, 6, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}

func genEdit(t *rapid.T) frameEdit {
	le := binary.LittleEndian
	pos := func(n int, label string) int { // biased towards the front
		if n <= 0 {
			return 0
		}
		if rapid.Bool().Draw(t, label+".front") && n > 24 {
			n = 24
		}
		return rapid.IntRange(0, 1<<20).Draw(t, label) % n
	}
	// everything is drawn here: the frame is edited on the controller's goroutine
	raw := rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(t, "raw")
	a, b := rapid.IntRange(0, 1<<20).Draw(t, "a"), rapid.IntRange(0, 1<<20).Draw(t, "b")
	word := rapid.SampledFrom(oddWords).Draw(t, "word")
	width := rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "width")
	_ = pos
	kind := rapid.SampledFrom([]string{"cut", "cut", "cut", "cut", "tail", "tail", "broken", "stall", "flip", "flip", "word", "word", "word", "demand", "demand", "longer", "items", "items", "noise", "answer", "answer", "length"}).Draw(t, "edit")
	e := frameEdit{kind: fmt.Sprintf("%s(%d,%d,%#x/%d,%x)", kind, a, b, word, width, raw)}
	switch kind {
	case "cut", "tail": // the data item ends early, all lengths agree
		e.cut = true
		e.do = func(fr []byte) ([]byte, plc.Action) {
			lenAt, at := dataItem(fr)
			n := len(fr) - at
			if n == 0 {
				return fr, plc.Send
			}
			k := a % n
			if kind == "tail" {
				k = n - 1 - a%min(n, 12)
			}
			return resize(fr, lenAt, at, fr[at:at+k]), plc.Send
		}
	case "broken":
		e.dead = true
		e.do = func(fr []byte) ([]byte, plc.Action) { return fr[:a%len(fr)], plc.Close }
	case "stall":
		e.dead = true
		e.do = func(fr []byte) ([]byte, plc.Action) { return fr[:a%len(fr)], plc.Send }
	case "flip":
		e.do = func(fr []byte) ([]byte, plc.Action) {
			i := a % len(fr)
			if b&1 == 0 && len(fr) > 24 {
				i = 24 + a%(len(fr)-24)
			}
			fr[i] ^= byte(1 << (b >> 1 & 7))
			if b>>4&1 == 1 {
				fr[(i+b>>5)%len(fr)] ^= byte(b >> 8)
			}
			return fr, plc.Send
		}
	case "word":
		e.do = func(fr []byte) ([]byte, plc.Action) {
			_, at := dataItem(fr)
			n := len(fr) - at
			if b&3 == 0 {
				at, n = 0, len(fr)
			}
			if n < width {
				return fr, plc.Send
			}
			if b>>2&1 == 0 && n > 30 {
				n = 30
			}
			i := at + a%(n-width+1)
			switch width {
			case 1:
				fr[i] = byte(word)
			case 2:
				le.PutUint16(fr[i:], uint16(word))
			case 4:
				le.PutUint32(fr[i:], word)
			}
			return fr, plc.Send
		}
	case "demand": // a huge number where there may be a length
		e.do = func(fr []byte) ([]byte, plc.Action) {
			_, at := dataItem(fr)
			if le.Uint16(fr) == 0x70 {
				at += 2
			}
			at += 4 + a%9
			if b&1 == 0 {
				at = 24 + a%max(1, len(fr)-24-4)
			}
			if at+4 <= len(fr) {
				le.PutUint32(fr[at:], []uint32{0x80000000, 0xFFFFFFFF, 0x7FFFFFFF, 0x40000000, 0xC0000000, 0x10000000, 0x80000004}[(b>>1)%7])
			}
			return fr, plc.Send
		}
	case "longer":
		e.do = func(fr []byte) ([]byte, plc.Action) {
			lenAt, at := dataItem(fr)
			return resize(fr, lenAt, at, append(append([]byte{}, fr[at:]...), raw...)), plc.Send
		}
	case "items":
		e.do = func(fr []byte) ([]byte, plc.Action) {
			cmd := le.Uint16(fr)
			at := 24
			if cmd == 0x6F || cmd == 0x70 {
				at = 30
			}
			if len(fr) < at+2 {
				return fr, plc.Send
			}
			switch b % 4 {
			case 0: // another count
				le.PutUint16(fr[at:], uint16(word))
			case 1: // no items at all
				fr = append(fr[:at:at], 0, 0)
			case 2: // only the first n
				lenAt, _ := dataItem(fr)
				if lenAt > 0 {
					fr = append([]byte{}, fr[:lenAt-2]...)
					le.PutUint16(fr[at:], le.Uint16(fr[at:])-1)
				}
			case 3: // another kind of item
				lenAt, _ := dataItem(fr)
				if lenAt > 0 {
					le.PutUint16(fr[lenAt-2:], uint16(word))
				}
			}
			le.PutUint16(fr[2:], uint16(len(fr)-24))
			return fr, plc.Send
		}
	case "noise": // the whole body
		e.do = func(fr []byte) ([]byte, plc.Action) { return resize(fr, -1, 24, raw), plc.Send }
	case "answer": // what follows the CIP status
		e.do = func(fr []byte) ([]byte, plc.Action) {
			lenAt, at := dataItem(fr)
			keep := 4
			if le.Uint16(fr) == 0x70 {
				keep = 6
			}
			if lenAt < 0 || len(fr) < at+keep {
				return fr, plc.Send
			}
			if b&1 == 0 { // keep the type or count too
				keep += b >> 1 % 5
			}
			if len(fr) < at+keep {
				return fr, plc.Send
			}
			return resize(fr, lenAt, at, append(append([]byte{}, fr[at:at+keep]...), raw...)), plc.Send
		}
	case "length": // the frame says another length than it has
		e.dead = false
		e.do = func(fr []byte) ([]byte, plc.Action) {
			le.PutUint16(fr[2:], uint16(word))
			return fr, plc.Send
		}
	}
	return e
}

// prefixOK are operations that hand out the bytes of the reply: a shorter reply gives shorter bytes.
var prefixOK = map[string]bool{"GetAttrSingle": true, "GetAttrList": true, "GenericCIPMessage": true}

// subset says whether every line of got is in want.
func subset(got, want string) bool {
	w := map[string]bool{}
	for _, l := range strings.Split(want, "\n") {
		w[l] = true
		if i := strings.Index(l, "] "); i > 0 {
			w[l[:i+1]] = true
		}
	}
	for _, l := range strings.Split(got, "\n") {
		if l != "" && !w[l] {
			return false
		}
	}
	return true
}

// TestC16: whatever a reply looks like, the operation returns in time, does not
// panic, does not ask for much memory, and a cut reply is not a value.
func TestC16(t *testing.T) {
	rec := hx.For("C16")
	rec.Rule("one reply frame of one operation (or of connecting or disconnecting) is cut, broken off, stalled, lengthened, flipped, given odd words, counts, items or lengths; the edited frame differs from the original")
	rec.Assume("a listing cut exactly between two entries, and the bytes of a generic reply, do not show that they were cut: a shorter listing or shorter bytes are then accepted",
		"flipped or rewritten bytes may pass as another value; only crashes, hangs and memory are judged there")
	const timeout = 150 * time.Millisecond
	hx.Check(t, "C16", 1800, func(t *rapid.T) {
		p := shared.Get()
		f := newFix(p, rapid.Uint64().Draw(t, "seed"))
		o := opTable[rapid.IntRange(0, len(opTable)-1).Draw(t, "op")]
		if rapid.IntRange(0, 5).Draw(t, "with lengths") == 0 {
			name := rapid.SampledFrom([]string{"Read STRING", "Read STRING", "ReadMap", "ReadList", "ReadTagGroup", "ListAllTags", "ListMembers", "Read lgxtypes.STRING"}).Draw(t, "which")
			for _, x := range opTable {
				if x.name == name {
					o = x
				}
			}
		}
		size := rapid.SampledFrom([]uint16{4000, 4000, 504}).Draw(t, "size")
		phase := rapid.SampledFrom([]string{"op", "op", "op", "op", "op", "op", "op", "connect", "disconnect"}).Draw(t, "phase")
		salt := rapid.Uint64().Draw(t, "salt")
		edit := genEdit(t)
		atN := rapid.IntRange(0, 1<<16).Draw(t, "at")
		c := hx.NewClient(p)
		c.ConnectionSize = size
		frames := 2
		if phase != "connect" {
			if err := c.Connect(); err != nil {
				t.Fatalf("connect: %v", err)
			}
			var d int32
			if err := c.Read("D", &d); err != nil {
				t.Fatalf("plain read: %v", err)
			}
			frames = 1
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		base := uint64(0)
		if phase == "op" {
			f0 := p.FrameCount()
			got, err, bad := o.do(f, c, salt^1)
			if bad == "" && err != nil {
				bad = err.Error()
			}
			if bad == "" {
				bad = o.right(f, got, salt^1)
			}
			if bad != "" {
				t.Fatalf("without any damage: %s: %s", o.name, bad)
			}
			frames = p.FrameCount() - f0
			runtime.ReadMemStats(&m1)
			base = m1.TotalAlloc - m0.TotalAlloc
			m0 = m1
		}
		at := atN % frames
		first := p.FrameCount()
		var orig, sent []byte
		p.Frame = func(n int, cmd uint16, fr []byte) ([]byte, plc.Action) {
			if n-first != at {
				return fr, plc.Send
			}
			orig = append([]byte{}, fr...)
			out, act := edit.do(fr)
			sent = append([]byte{}, out...)
			return out, act
		}
		c.SocketTimeout = timeout
		c.AutoConnect = rapid.Bool().Draw(t, "auto")
		desc := fmt.Sprintf("%s %s size=%d frame %d of %d %s", phase, o.name, size, at, frames, edit.kind)
		start := time.Now()
		var got any
		var err error
		var bad string
		switch phase {
		case "connect":
			bad = hx.Within(opLimit, func() { err = c.Connect() })
		case "disconnect":
			bad = hx.Within(opLimit, func() { err = c.Disconnect() })
		default:
			got, err, bad = o.do(f, c, salt)
		}
		took := time.Since(start)
		runtime.ReadMemStats(&m1)
		p.Lock()
		p.Frame = nil
		p.Unlock()
		if bad != "" {
			t.Fatalf("%s: reply %x sent as %x: %s", desc, orig, sent, hx.Short(bad, 1500))
		}
		if limit := time.Duration(frames+4)*timeout + 5*time.Second; took > limit {
			t.Fatalf("%s: took %v with a timeout of %v", desc, took, timeout)
		}
		if used := m1.TotalAlloc - m0.TotalAlloc; used > 4*base+(24<<20) {
			t.Fatalf("%s: reply %x sent as %x made the client allocate %d bytes", desc, orig, sent, used)
		}
		changed := orig != nil && !bytes.Equal(orig, sent)
		if changed && err == nil && (edit.cut || edit.dead) {
			switch {
			case phase == "disconnect":
			case phase == "connect":
				// it may have connected in another way, then the connection has to work
				var d int32
				c.SocketTimeout = 10 * time.Second
				c.AutoConnect = false
				if err := c.Read("D", &d); edit.dead || err != nil || d != f.val("D", 0, 1)[0] {
					t.Fatalf("%s: reply %x sent as %x: connected, and a read gave %d, %v", desc, orig, sent, d, err)
				}
			case edit.dead:
				t.Fatalf("%s: reply %x sent as %x: success, result %s", desc, orig, sent, hx.Short(show(got), 300))
			case prefixOK[o.name]:
				w := o.want(f).([]byte)
				if g, ok := got.([]byte); !ok || !bytes.HasPrefix(w, g) {
					t.Fatalf("%s: reply %x sent as %x: result %x, the reply holds a prefix of %x", desc, orig, sent, got, w)
				}
			default:
				if bad := o.rightL(f, got, salt, true); bad != "" {
					if o.list && (o.name == "ListSubTags" && len(got.([]string)) < len(o.want(f).([]string)) || subset(show(got), show(o.want(f)))) {
						break
					}
					t.Fatalf("%s: reply %x sent as %x: success but %s", desc, orig, sent, bad)
				}
			}
		}
		// and it can be used again
		c.SocketTimeout = timeout
		if bad := hx.Within(opLimit, func() { c.Disconnect() }); bad != "" {
			t.Fatalf("%s: disconnecting afterwards: %s", desc, bad)
		}
		if c.Connected() {
			t.Fatalf("%s: still connected after disconnecting", desc)
		}
		c.SocketTimeout = 10 * time.Second
		c.AutoConnect = true
		if changed && !edit.cut && !edit.dead {
			// it may have learned that D is somewhere else
			clear(c.KnownTags)
		}
		var d int32
		var rerr error
		if bad := hx.Within(opLimit, func() { rerr = c.Read("D", &d) }); bad != "" || rerr != nil || d != f.val("D", 0, 1)[0] {
			t.Fatalf("%s: a read after connecting again gave %d, %v %s", desc, d, rerr, bad)
		}
		hx.Within(opLimit, func() { c.Disconnect() })
		cl := strings.SplitN(edit.kind, "(", 2)[0]
		rec.Case(desc, changed, cl, "phase "+phase)
	})
}

var _ = gologix.NewClient
