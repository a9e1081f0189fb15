package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"strings"
	"testing"

	"github.com/danomagnum/gologix/canned"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

// faultKinds is what each kind of fault of a summary is called.
var faultKinds = []struct {
	name string
	bit  canned.FaultType
	has  func(canned.FaultType) bool
}{
	{"power up", canned.FaultType_Powerup, canned.FaultType.PowerupFault},
	{"I/O", canned.FaultType_IO, canned.FaultType.IOFault},
	{"program", canned.FaultType_Program, canned.FaultType.ProgramFault},
	{"watchdog", canned.FaultType_Watchdog, canned.FaultType.WatchdogFault},
	{"memory", canned.FaultType_NVMemory, canned.FaultType.NVMemoryFault},
	{"mode change", canned.FaultType_ModeChange, canned.FaultType.ModeChangeFault},
	{"serial port", canned.FaultType_SerialPort, canned.FaultType.SerialPortFault},
	{"energy storage", canned.FaultType_EnergyStorage, canned.FaultType.EnergyStorageFault},
	{"motion", canned.FaultType_Motion, canned.FaultType.MotionFault},
	{"redundancy", canned.FaultType_Redundancy, canned.FaultType.RedundancyFault},
	{"clock", canned.FaultType_RTC, canned.FaultType.RTCFault},
	{"non-recoverable", canned.FaultType_NonRecoverable, canned.FaultType.NonRecoverableFault},
	{"communication", canned.FaultType_Communication, canned.FaultType.CommunicationFault},
	{"diagnostics", canned.FaultType_Diagnostics, canned.FaultType.DiagnosticsFault},
	{"CIP motion", canned.FaultType_CIPMotion, canned.FaultType.CIPMotionFault},
	{"Ethernet", canned.FaultType_Ethernet, canned.FaultType.EthernetFault},
	{"license", canned.FaultType_License, canned.FaultType.LicenseFault},
	{"alarm", canned.FaultType_Alarm, canned.FaultType.AlarmFault},
	{"OPC UA", canned.FaultType_OPCUA, canned.FaultType.OPCUAFault},
}

// TestC34: what the controller says of its faults, its forces and its program
// arrives as it said it.
func TestC34(t *testing.T) {
	rec := hx.For("C34")
	rec.Rule("a summary with at least one fault or a force or a property other than zero, a refusal, or a reply that is cut short")
	rec.Assume("the layouts of the replies are those the package documents; bits of a force status beyond the first two are not judged")
	oneBit := hx.Finding("C34:forces-one-bit")
	hx.Probe(t, "C34", "forces-one-bit", func() string {
		for f := canned.ForceStatus(1); f <= 2; f++ {
			if f.Enabled() == f.Exist() {
				return fmt.Sprintf("force status %d: enabled %v, existing %v", f, f.Enabled(), f.Exist())
			}
		}
		return ""
	})
	hx.Check(t, "C34", 6000, func(t *rapid.T) {
		p := shared.Get()
		p.Reset()
		p.Lock()
		p.RawPaths = true
		p.Unlock()
		c := hx.NewClient(p)
		if err := c.Connect(); err != nil {
			hx.Harness("connect: %v", err)
		}
		defer c.Disconnect()
		for i := rapid.IntRange(1, 4).Draw(t, "requests"); i > 0; i-- {
			kind := rapid.SampledFrom([]string{"faults", "faults", "forces", "program"}).Draw(t, "kind")
			status := byte(0)
			if rapid.IntRange(0, 5).Draw(t, "refuse") == 0 {
				status = rapid.SampledFrom([]byte{1, 4, 5, 8, 0x0A, 0x0F, 0x13, 0x1E, 0xFF}).Draw(t, "status")
			}
			le := binary.LittleEndian
			var answer, data []byte
			var service byte
			var segs []plc.Seg
			var sum canned.FaultSummary
			var forces uint16
			var props [5]uint32
			interesting := false
			switch kind {
			case "faults":
				service, segs = 0x01, pathOf(0x73, 1, -1)
				// a few bits of each word
				word := func(l string) (w uint32) {
					for k := rapid.IntRange(0, 3).Draw(t, l); k > 0; k-- {
						w |= 1 << rapid.IntRange(0, 31).Draw(t, l+" bit")
					}
					return w
				}
				sum.MajorType, sum.MinorType = canned.FaultType(word("major")), canned.FaultType(word("minor"))
				sum.MajorCount, sum.MinorCount = rapid.Uint16().Draw(t, "majors"), rapid.Uint16().Draw(t, "minors")
				for k := range sum.Events {
					e := &sum.Events[k]
					if rapid.IntRange(0, 3).Draw(t, "no event") == 0 {
						continue
					}
					e.Timestamp = rapid.Uint64().Draw(t, "time")
					e.FaultClass = uint16(rapid.OneOf(rapid.IntRange(0, 23), rapid.IntRange(0, 65535)).Draw(t, "class"))
					e.FaultCode = uint16(rapid.OneOf(rapid.IntRange(0, 110), rapid.IntRange(0, 65535)).Draw(t, "code"))
					if rapid.IntRange(0, 5).Draw(t, "far") == 0 { // like a known one, but for a bit far up
						e.FaultCode |= 1 << rapid.IntRange(8, 15).Draw(t, "code bit")
						if rapid.Bool().Draw(t, "class too") {
							e.FaultClass |= 1 << rapid.IntRange(8, 15).Draw(t, "class bit")
						}
					}
					fillBytes(e.Detail[:], rapid.Byte().Draw(t, "detail"))
				}
				interesting = sum.MajorType|sum.MinorType != 0
				answer = le.AppendUint32(le.AppendUint32(nil, uint32(sum.MajorType)), uint32(sum.MinorType))
				answer = le.AppendUint16(le.AppendUint16(answer, sum.MajorCount), sum.MinorCount)
				for _, e := range sum.Events {
					answer = le.AppendUint16(le.AppendUint16(le.AppendUint64(answer, e.Timestamp), e.FaultClass), e.FaultCode)
					answer = append(answer, e.Detail[:]...)
				}
			case "forces":
				service, segs = 0x03, pathOf(0x69, 0, -1)
				data = []byte{1, 0, 9, 0}
				forces = uint16(rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 65535)).Draw(t, "forces"))
				interesting = forces != 0
				answer = le.AppendUint16([]byte{1, 0, 9, 0, 0, 0}, forces)
			case "program":
				service, segs = 0x03, pathOf(0xAC, 1, -1)
				data = le.AppendUint16(nil, 5)
				answer = le.AppendUint16(nil, 5)
				for k, a := range []uint16{1, 2, 3, 4, 10} {
					data = le.AppendUint16(data, a)
					props[k] = rapid.Uint32().Draw(t, "property")
					answer = le.AppendUint16(le.AppendUint16(answer, a), 0)
					if k < 2 {
						props[k] &= 0xFFFF
						answer = le.AppendUint16(answer, uint16(props[k]))
					} else {
						answer = le.AppendUint32(answer, props[k])
					}
				}
				interesting = true
			}
			// the reply ends before its last byte
			cut := false
			if status == 0 && rapid.IntRange(0, 7).Draw(t, "cut") == 0 {
				cut = true
				answer = answer[:rapid.IntRange(0, len(answer)-1).Draw(t, "at")]
			}
			desc := fmt.Sprintf("%s answered with status %#x and %x", kind, status, answer)
			var seen []*plc.Req
			p.Lock()
			p.Intercept = func(r *plc.Req) *plc.Reply {
				seen = append(seen, r)
				if status != 0 {
					return &plc.Reply{Status: status}
				}
				return &plc.Reply{Data: answer}
			}
			p.Unlock()
			var gotF canned.FaultSummary
			var gotS canned.ForceStatus
			var gotP [5]uint32
			var match [2]bool
			var err error
			other := rapid.IntRange(0, 4).Draw(t, "changed")
			bad := hx.Within(opLimit, func() {
				switch kind {
				case "faults":
					gotF, err = canned.GetFaults(c)
				case "forces":
					gotS, err = canned.GetForces(c)
				case "program":
					l, e := c.GetControllerPropList()
					err = e
					gotP = [5]uint32{uint32(l.Attr1), uint32(l.Attr2), l.Attr3, l.Attr4, l.Attr5}
					m := l
					switch other {
					case 0:
						m.Attr1++
					case 1:
						m.Attr2 += 0x100
					case 2:
						m.Attr3 ^= 1 << 31
					case 3:
						m.Attr4--
					case 4:
						m.Attr5 ^= 1 << 16
					}
					match = [2]bool{l.Match(l), l.Match(m) || m.Match(l)}
				}
			})
			p.Lock()
			p.Intercept = nil
			p.Unlock()
			if bad != "" {
				t.Fatalf("%s: %s", desc, bad)
			}
			if e := p.TakeErrors(); len(e) > 0 {
				t.Fatalf("%s: the controller noted %v", desc, e)
			}
			if len(seen) != 1 || seen[0].Service != service || plc.SegsString(seen[0].Path) != plc.SegsString(segs) || !bytes.Equal(seen[0].Data, data) {
				t.Fatalf("%s: %d requests were sent (%v); expected service %#x of %s with %x", desc, len(seen), seen, service, plc.SegsString(segs), data)
			}
			if status != 0 || cut {
				if err == nil {
					t.Fatalf("%s: taken for a success: %v %v %v", desc, gotF, gotS, gotP)
				}
				rec.Case(desc, true, kind, "failure")
				continue
			}
			if err != nil {
				t.Fatalf("%s: %v", desc, err)
			}
			switch kind {
			case "faults":
				if gotF != sum {
					t.Fatalf("%s: got %+v instead of %+v", desc, gotF, sum)
				}
				judgeFaults(t, desc, gotF)
			case "forces":
				if uint16(gotS) != forces {
					t.Fatalf("%s: got force status %#x", desc, uint16(gotS))
				}
				if forces&3 == 0 && (gotS.Enabled() || gotS.Exist()) || forces&3 == 3 && !(gotS.Enabled() && gotS.Exist()) {
					t.Fatalf("%s: enabled %v, existing %v", desc, gotS.Enabled(), gotS.Exist())
				}
				if x := forces & 3; (x == 1 || x == 2) && gotS.Enabled() == gotS.Exist() {
					if !oneBit {
						t.Fatalf("%s: status %#x has one of enabled and existing, reported enabled %v, existing %v", desc, forces, gotS.Enabled(), gotS.Exist())
					}
				}
			case "program":
				if gotP != props {
					t.Fatalf("%s: got %v instead of %v", desc, gotP, props)
				}
				if !match[0] || match[1] {
					t.Fatalf("%s: matches itself: %v, matches one with property %d changed: %v", desc, match[0], other, match[1])
				}
			}
			rec.Case(desc, interesting, kind)
		}
	})
}

func fillBytes(b []byte, seed byte) {
	for k := range b {
		b[k] = byte(k)*29 + seed
	}
}

// TestC34Table: the table of faults is keyed by what it says.
func TestC34Table(t *testing.T) {
	hx.Probe(t, "C34", "fault-table", func() string {
		for class, codes := range canned.FaultDescriptions {
			for code, d := range codes {
				e := canned.FaultEvent{FaultClass: uint16(class), FaultCode: uint16(code)}
				if d.Type != class || d.Code != code || class < 0 || class > 65535 || code < 0 || code > 65535 {
					return fmt.Sprintf("the entry of T%d:C%d is of T%d:C%d", class, code, d.Type, d.Code)
				}
				if e.Description() != d || d.Display == "" {
					return fmt.Sprintf("the entry of T%d:C%d is not what an event of it is described as, or says nothing", class, code)
				}
			}
		}
		return ""
	})
}

// judgeFaults: each kind of fault has a bit of its own, and each event is told apart.
func judgeFaults(t *rapid.T, desc string, s canned.FaultSummary) {
	for _, w := range []canned.FaultType{s.MajorType, s.MinorType} {
		var all canned.FaultType
		for _, k := range faultKinds {
			if bits.OnesCount32(uint32(k.bit)) != 1 || all&k.bit != 0 {
				t.Fatalf("kind of fault %s has bits %#x, others %#x", k.name, k.bit, all)
			}
			all |= k.bit
			if k.has(w) != (w&k.bit != 0) {
				t.Fatalf("%s: a summary word %#x has a %s fault: %v", desc, uint32(w), k.name, k.has(w))
			}
		}
	}
	for _, e := range s.Events {
		d := e.Description()
		if d.Type != int(e.FaultClass) || d.Code != int(e.FaultCode) {
			t.Fatalf("%s: event T%d:C%d is described as T%d:C%d", desc, e.FaultClass, e.FaultCode, d.Type, d.Code)
		}
		table, known := canned.FaultDescriptions[int(e.FaultClass)][int(e.FaultCode)]
		if known && d != table {
			t.Fatalf("%s: event T%d:C%d is described as %+v, not %+v", desc, e.FaultClass, e.FaultCode, d, table)
		}
		str := e.String()
		switch {
		case e.FaultClass == 0 && e.FaultCode == 0:
			if str != "No Fault" {
				t.Fatalf("%s: an event with no fault says %q", desc, str)
			}
		case known:
			if str != table.Display {
				t.Fatalf("%s: event T%d:C%d says %q", desc, e.FaultClass, e.FaultCode, str)
			}
		default:
			if !strings.Contains(str, fmt.Sprintf("T%02d:C%02d", e.FaultClass, e.FaultCode)) || d.Description != string(e.Detail[:]) {
				t.Fatalf("%s: an unknown event T%d:C%d says %q, described as %+v", desc, e.FaultClass, e.FaultCode, str, d)
			}
		}
	}
}
