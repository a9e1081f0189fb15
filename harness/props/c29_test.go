package props

import (
	"encoding/xml"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/danomagnum/gologix/l5x"
	"pgregory.net/rapid"

	"verifharness/hx"
)

// lxDoc builds a project export together with what should be found in it.
type lxDoc struct {
	t     *rapid.T
	n     int
	bad   int // position of the value that does not fit its type, or 0
	at    int
	types []*lxType
}

type lxType struct {
	name, desc string
	members    []lxMember
}

type lxMember struct {
	name, ty, desc string
	dim, bit       int
	number         string
}

var lxInts = map[string]struct {
	bits   int
	signed bool
}{"SINT": {8, true}, "INT": {16, true}, "DINT": {32, true}, "LINT": {64, true}, "USINT": {8, false}, "UINT": {16, false}, "UDINT": {32, false}, "ULINT": {64, false},
	"BYTE": {8, false}, "WORD": {16, false}, "DWORD": {32, false}, "LWORD": {64, false}}

var lxAtoms = []string{"BOOL", "SINT", "INT", "DINT", "LINT", "REAL", "BOOL", "DINT", "REAL", "USINT", "UINT", "UDINT", "ULINT", "LREAL", "BYTE", "WORD", "DWORD", "LWORD"}

func (d *lxDoc) name(p string) string {
	d.n++
	return fmt.Sprintf("%s%s_%d", p, rapid.SampledFrom([]string{"", "Motor", "x", "LEN", "Value"}).Draw(d.t, "nm"), d.n)
}

func lxAttr(s string) string {
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func lxGroup(s string) string { // 0000_0000
	var o []string
	for len(s) > 4 {
		o = append([]string{s[len(s)-4:]}, o...)
		s = s[:len(s)-4]
	}
	return strings.Join(append([]string{s}, o...), "_")
}

// atom gives the text of a value and the value.
func (d *lxDoc) atom(ty string) (radix, text string, val any) {
	t := d.t
	d.at++
	bad := d.at == d.bad
	bits := hx.GenBits(t, "bits")
	if ty == "BOOL" {
		if bad {
			return "Decimal", rapid.SampledFrom([]string{"2", "x", "-1", "16#2"}).Draw(t, "badbool"), nil
		}
		if rapid.IntRange(0, 5).Draw(t, "rx") == 0 {
			return "Binary", fmt.Sprintf("2#%d", bits&1), bits&1 == 1
		}
		return "Decimal", fmt.Sprint(bits & 1), bits&1 == 1
	}
	if ty == "REAL" || ty == "LREAL" {
		if bad {
			if ty == "REAL" {
				return "Float", rapid.SampledFrom([]string{"3.5e+38", "-1e39", "abc"}).Draw(t, "badreal"), nil
			}
			return "Float", rapid.SampledFrom([]string{"1e309", "12..5"}).Draw(t, "badlreal"), nil
		}
		switch rapid.IntRange(0, 14).Draw(t, "special") {
		case 0:
			return "Float", "1.#QNAN", math.NaN()
		case 1:
			return "Float", "-1.#INF", math.Inf(-1)
		}
		f, prec := math.Float64frombits(bits), 64
		if ty == "REAL" {
			f, prec = float64(math.Float32frombits(uint32(bits))), 32
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = float64(int32(bits)) / 8
			if ty == "REAL" {
				f = float64(float32(f))
			}
		}
		format := byte('g')
		if math.Abs(f) < 1e9 && math.Abs(f) > 1e-4 && rapid.Bool().Draw(t, "fixed") {
			format = 'f'
		}
		s := strconv.FormatFloat(f, format, -1, prec)
		return "Float", s, f
	}
	in := lxInts[ty]
	bits &= 1<<in.bits - 1
	if in.bits == 64 {
		bits = hx.GenBits(t, "bits64")
	}
	if bad {
		if in.signed {
			lim := new(strings.Builder)
			fmt.Fprintf(lim, "%d", uint64(1)<<(in.bits-1))
			return "Decimal", rapid.SampledFrom([]string{lim.String(), "-" + lim.String()[:len(lim.String())-1] + "9", "1.5", "", "16#1" + strings.Repeat("0", in.bits/4)}).Draw(t, "badint"), nil
		}
		return "Decimal", rapid.SampledFrom([]string{"-1", "16#1" + strings.Repeat("0", in.bits/4), "18446744073709551616"}).Draw(t, "baduint"), nil
	}
	var v any
	switch {
	case in.signed:
		s := int64(bits<<(64-in.bits)) >> (64 - in.bits)
		v = map[int]any{8: int8(s), 16: int16(s), 32: int32(s), 64: s}[in.bits]
	default:
		v = map[int]any{8: uint8(bits), 16: uint16(bits), 32: uint32(bits), 64: bits}[in.bits]
	}
	switch rapid.IntRange(0, 9).Draw(t, "radix") {
	case 0:
		return "Hex", "16#" + lxGroup(fmt.Sprintf("%0*x", in.bits/4, bits)), v
	case 1:
		return "Binary", "2#" + lxGroup(fmt.Sprintf("%0*b", in.bits, bits)), v
	case 2:
		return "Octal", "8#" + fmt.Sprintf("%o", bits), v
	}
	return "Decimal", fmt.Sprint(v), v
}

// text gives a string member's content and what it means.
func (d *lxDoc) text() (raw, val string) {
	var a, b strings.Builder
	for i := rapid.IntRange(0, 8).Draw(d.t, "len"); i > 0; i-- {
		c := rapid.SampledFrom([]string{"a", "Z", "7", " ", "<", "&", "\"", "é", "$$", "$'", "$N", "$R", "$L", "$T", "$P", "$n", "$r", "$l", "$t", "$p", "$7f", "$C1", "$00", "$7F", "$c1", "]", "hello"}).Draw(d.t, "c")
		a.WriteString(c)
		switch {
		case c[0] != '$':
			b.WriteString(c)
		case len(c) == 3:
			x, _ := strconv.ParseUint(c[1:], 16, 8)
			b.WriteByte(byte(x))
		default:
			b.WriteString(map[string]string{"$$": "$", "$'": "'", "$N": "\n", "$L": "\n", "$R": "\r", "$T": "\t", "$P": "\f"}[strings.ToUpper(c)])
		}
	}
	return a.String(), b.String()
}

// structure gives the inner XML of a structure and its value.
func (d *lxDoc) structure(depth int) (string, map[string]any) {
	var x strings.Builder
	out := map[string]any{}
	if rapid.IntRange(0, 5).Draw(d.t, "string") == 0 {
		raw, val := d.text()
		ty := rapid.SampledFrom([]string{"STRING", "BigString"}).Draw(d.t, "sty")
		fmt.Fprintf(&x, "<DataValueMember Name=\"LEN\" DataType=\"DINT\" Radix=\"Decimal\" Value=\"%d\"/>\n<DataValueMember Name=\"DATA\" DataType=\"%s\" Radix=\"ASCII\">\n<![CDATA['%s']]>\n</DataValueMember>\n", len(val), ty, raw)
		out["LEN"], out["DATA"] = int32(len(val)), val
		return x.String(), out
	}
	for i := rapid.IntRange(1, 4).Draw(d.t, "members"); i > 0; i-- {
		n := d.name("m")
		switch k := rapid.IntRange(0, 5).Draw(d.t, "mk"); {
		case k == 0 && depth > 0:
			in, v := d.structure(depth - 1)
			fmt.Fprintf(&x, "<StructureMember Name=\"%s\" DataType=\"Sub\">\n%s</StructureMember>\n", n, in)
			out[n] = v
		case k == 1 && depth > 0:
			in, attrs, v := d.array(depth - 1)
			fmt.Fprintf(&x, "<ArrayMember Name=\"%s\" %s>\n%s</ArrayMember>\n", n, attrs, in)
			out[n] = v
		default:
			ty := rapid.SampledFrom(lxAtoms).Draw(d.t, "ty")
			r, s, v := d.atom(ty)
			fmt.Fprintf(&x, "<DataValueMember Name=\"%s\" DataType=\"%s\" Radix=\"%s\" Value=\"%s\"/>\n", n, ty, r, lxAttr(s))
			out[n] = v
		}
	}
	return x.String(), out
}

func (d *lxDoc) array(depth int) (inner, attrs string, v []any) {
	var dims []int
	total := 1
	for i := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(d.t, "nd"); i > 0; i-- {
		k := rapid.IntRange(1, 4).Draw(d.t, "dim")
		dims, total = append(dims, k), total*k
	}
	var ds []string
	for _, k := range dims {
		ds = append(ds, fmt.Sprint(k))
	}
	ty := rapid.SampledFrom(lxAtoms).Draw(d.t, "aty")
	if depth > 0 && rapid.IntRange(0, 2).Draw(d.t, "structs") == 0 {
		ty = "Sub"
	}
	var x strings.Builder
	v = []any{}
	for i := 0; i < total; i++ {
		ix := make([]string, len(dims))
		for k, r := len(dims)-1, i; k >= 0; k-- {
			ix[k], r = fmt.Sprint(r%dims[k]), r/dims[k]
		}
		idx := "[" + strings.Join(ix, ",") + "]"
		if ty == "Sub" {
			in, sv := d.structure(depth - 1)
			fmt.Fprintf(&x, "<Element Index=\"%s\">\n<Structure DataType=\"Sub\">\n%s</Structure>\n</Element>\n", idx, in)
			v = append(v, sv)
			continue
		}
		_, s, av := d.atom(ty)
		fmt.Fprintf(&x, "<Element Index=\"%s\" Value=\"%s\"/>\n", idx, lxAttr(s))
		v = append(v, av)
	}
	sep := rapid.SampledFrom([]string{" ", ","}).Draw(d.t, "sep")
	return x.String(), fmt.Sprintf("DataType=\"%s\" Dimensions=\"%s\" Radix=\"Decimal\"", ty, strings.Join(ds, sep)), v
}

// tags writes some tags, puts their values in into and their descriptions in said.
func (d *lxDoc) tags(into map[string]any, prefix string, said map[string]string) string {
	var x strings.Builder
	for i := rapid.IntRange(0, 5).Draw(d.t, "ntags"); i > 0; i-- {
		n := d.name("t")
		ty, dims, dec := "", "", ""
		decorated := true
		switch rapid.IntRange(0, 5).Draw(d.t, "tk") {
		case 0, 1:
			ty = rapid.SampledFrom(lxAtoms).Draw(d.t, "tty")
			r, s, v := d.atom(ty)
			dec = fmt.Sprintf("<DataValue DataType=\"%s\" Radix=\"%s\" Value=\"%s\"/>\n", ty, r, lxAttr(s))
			into[n] = v
		case 2:
			ty = "Sub"
			in, v := d.structure(2)
			dec = "<Structure DataType=\"Sub\">\n" + in + "</Structure>\n"
			into[n] = v
		case 3, 4:
			in, at, v := d.array(2)
			ty = strings.Split(at, `"`)[1]
			dims = fmt.Sprintf("Dimensions=\"%s\" ", strings.ReplaceAll(strings.Split(at, `"`)[3], ",", " "))
			dec = "<Array " + at + ">\n" + in + "</Array>\n"
			into[n] = v
		case 5:
			decorated = false
			ty = "MESSAGE"
		}
		fmt.Fprintf(&x, "<Tag Name=\"%s\" TagType=\"Base\" DataType=\"%s\" %sConstant=\"false\" ExternalAccess=\"Read/Write\">\n", n, ty, dims)
		desc := ""
		if rapid.IntRange(0, 2).Draw(d.t, "desc") == 0 {
			desc = rapid.SampledFrom([]string{"some tag", "", "two\nlines", "a <tag> & more", "'quoted'", "x", "ends in ]"}).Draw(d.t, "text") + d.words("tagtext")
			x.WriteString(lxDesc("Description", desc))
		}
		l5k := "<Data Format=\"L5K\">\n<![CDATA[0]]>\n</Data>\n"
		dec = "<Data Format=\"Decorated\">\n" + dec + "</Data>\n"
		switch {
		case !decorated:
			u := rapid.SampledFrom([]string{"", l5k, "<Data Format=\"Message\">\n<MessageParameters MessageType=\"CIP Data Table Read\"/>\n</Data>\n", l5k + "<Data Format=\"Alarm\">\n</Data>\n"}).Draw(d.t, "undec")
			x.WriteString(u)
			if u == "" {
				desc = "" // those of tags without any data may be left out
			}
		case rapid.IntRange(0, 3).Draw(d.t, "order") == 0:
			x.WriteString(rapid.SampledFrom([]string{dec, dec + l5k, l5k + "<Data Format=\"Other\"></Data>\n" + dec}).Draw(d.t, "ord"))
		default:
			x.WriteString(l5k + dec)
		}
		if desc != "" {
			said[prefix+n] = desc
		}
		x.WriteString("</Tag>\n")
	}
	return x.String()
}

// lxEqual compares a loaded value with the one written; "" is equality.
func lxEqual(got, want any, at string) string {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s is %T %v", at, got, got)
		}
		for k := range w {
			if _, ok := g[k]; !ok {
				return fmt.Sprintf("%s.%s is missing", at, k)
			}
			if s := lxEqual(g[k], w[k], at+"."+k); s != "" {
				return s
			}
		}
		for k := range g {
			if _, ok := w[k]; !ok {
				return fmt.Sprintf("%s.%s should not exist (%v)", at, k, g[k])
			}
		}
		return ""
	case []any:
		g := reflect.ValueOf(got)
		if g.Kind() != reflect.Slice || g.Len() != len(w) {
			return fmt.Sprintf("%s is %T %v, should have %d elements", at, got, got, len(w))
		}
		for i := range w {
			if s := lxEqual(g.Index(i).Interface(), w[i], fmt.Sprintf("%s[%d]", at, i)); s != "" {
				return s
			}
		}
		return ""
	case float64:
		f := math.NaN()
		switch g := got.(type) {
		case float32:
			f = float64(g)
		case float64:
			f = g
		default:
			return fmt.Sprintf("%s is %T %v, should be %v", at, got, got, w)
		}
		if f == w || math.IsNaN(f) && math.IsNaN(w) || float64(float32(w)) == w && float32(f) == float32(w) {
			return ""
		}
		return fmt.Sprintf("%s is %v, should be %v", at, f, w)
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("%s is %T %#v, should be %T %#v", at, got, got, want, want)
	}
	return ""
}

func (d *lxDoc) words(l string) string {
	if rapid.IntRange(0, 2).Draw(d.t, l+"?") == 0 {
		return ""
	}
	d.n++
	return fmt.Sprintf("%s %d", rapid.SampledFrom([]string{"pump", "the main valve's", "'quoted'", "a < b & c", "Größe"}).Draw(d.t, l), d.n)
}

// modules writes some modules and puts the comments of their data in said.
func (d *lxDoc) modules(said map[string]string) string {
	var x strings.Builder
	for i := rapid.IntRange(0, 3).Draw(d.t, "nmod"); i > 0; i-- {
		n := d.name("M")
		fmt.Fprintf(&x, "<Module Name=\"%s\" CatalogNumber=\"1756-IB16\">\n", n)
		if rapid.IntRange(0, 4).Draw(d.t, "comms") > 0 {
			x.WriteString("<Communications>\n")
			if rapid.IntRange(0, 4).Draw(d.t, "conns") > 0 {
				x.WriteString("<Connections>\n")
				op := 0
				for j := rapid.IntRange(0, 2).Draw(d.t, "nconn"); j > 0; j-- {
					fmt.Fprintf(&x, "<Connection Name=\"c%d\">\n", j)
					for _, way := range []string{"I", "O"} {
						if rapid.IntRange(0, 2).Draw(d.t, "way"+way) == 0 {
							continue
						}
						el := map[string]string{"I": "InputTag", "O": "OutputTag"}[way]
						x.WriteString("<" + el + " ExternalAccess=\"Read/Write\">\n")
						if rapid.IntRange(0, 4).Draw(d.t, "comments") > 0 {
							x.WriteString("<Comments>\n")
							for k := rapid.IntRange(0, 3).Draw(d.t, "nc"); k > 0; k-- {
								op++
								operand, c := fmt.Sprintf(".DATA.%d", op), d.words("mc")
								fmt.Fprintf(&x, "<Comment Operand=\"%s\">\n<![CDATA[%s]]>\n</Comment>\n", operand, c)
								if c != "" {
									said[n+":"+way+operand] = c
								}
							}
							x.WriteString("</Comments>\n")
						}
						x.WriteString("<Data Format=\"L5K\">\n<![CDATA[[0]]]>\n</Data>\n</" + el + ">\n")
					}
					x.WriteString("</Connection>\n")
				}
				x.WriteString("</Connections>\n")
			}
			x.WriteString("</Communications>\n")
		}
		x.WriteString("</Module>\n")
	}
	return x.String()
}

func lxDesc(tag, s string) string {
	if s == "" {
		return ""
	}
	return "<" + tag + ">\n<![CDATA[" + s + "]]>\n</" + tag + ">\n"
}

// typeComments lists path -> text for the members of type ty below prefix.
func (d *lxDoc) typeComments(ty string, prefix string, parts []string, bit map[string]bool, out map[string]string) {
	for _, tt := range d.types {
		if tt.name != ty {
			continue
		}
		parts := append(parts[:len(parts):len(parts)], tt.desc)
		for _, m := range tt.members {
			p := append(parts[:len(parts):len(parts)], m.desc)
			k := prefix + "." + m.name
			out[k] = strings.Join(strings.Fields(strings.Join(p, " ")), " ")
			if m.ty == "BIT" {
				if m.number != "" { // known which
					out[k+m.number] = out[k]
					delete(out, k)
					continue
				}
				bit[k] = true
				continue
			}
			d.typeComments(m.ty, k, p, bit, out)
		}
	}
}

func TestC29(t *testing.T) {
	r := hx.For("C29")
	r.Rule("a project with at least one structure or array among its values, or at least one comment")
	r.Assume("string tags whose only readable form is Format=String are not decorated data; ASCII and date/time radix are not generated; the number in the key of a bit member's comment is judged for types of up to 64 bits and nothing else")
	hx.Check(t, "C29", 4500, func(rt *rapid.T) {
		d := &lxDoc{t: rt}
		if rapid.IntRange(0, 5).Draw(rt, "withbad") == 0 {
			d.bad = rapid.IntRange(1, 12).Draw(rt, "bad")
		}
		want := map[string]any{}
		var x strings.Builder
		x.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<RSLogix5000Content SchemaRevision=\"1.0\" SoftwareRevision=\"35.01\" TargetType=\"Controller\">\n<Controller Use=\"Context\" Name=\"C\">\n")
		// types
		comments := map[string]string{}
		said := map[string]string{}
		bits := map[string]bool{}
		if rapid.IntRange(0, 4).Draw(rt, "hastypes") > 0 {
			x.WriteString("<DataTypes Use=\"Context\">\n")
			for i := rapid.IntRange(0, 3).Draw(rt, "ntypes"); i > 0; i-- {
				ty := &lxType{name: d.name("Ty"), desc: d.words("td")}
				fmt.Fprintf(&x, "<DataType Name=\"%s\" Family=\"NoFamily\" Class=\"User\">\n%s<Members>\n", ty.name, lxDesc("Description", ty.desc))
				bitHome, bn := "", 0
				if rapid.IntRange(0, 4).Draw(rt, "flags") == 0 { // nothing but bits: eight to a hidden member, counted through
					for j, n := 0, rapid.IntRange(1, 64).Draw(rt, "nbits"); j < n; j++ {
						if j%8 == 0 {
							bitHome = fmt.Sprintf("ZZZZZZZZZZ%s%d", ty.name[:2], j/8*9)
							fmt.Fprintf(&x, "<Member Name=\"%s\" DataType=\"SINT\" Dimension=\"0\" Radix=\"Decimal\" Hidden=\"true\"/>\n", bitHome)
						}
						m := lxMember{name: fmt.Sprintf("b%d_%d", j, d.n), ty: "BIT", number: fmt.Sprintf("<%d>", j)}
						if j%8 == 7 || rapid.IntRange(0, 3).Draw(rt, "bit said") == 0 {
							m.desc = fmt.Sprintf("bit number %d", j)
						}
						ty.members = append(ty.members, m)
						fmt.Fprintf(&x, "<Member Name=\"%s\" DataType=\"BIT\" Dimension=\"0\" Radix=\"Decimal\" Hidden=\"false\" Target=\"%s\" BitNumber=\"%d\">\n%s</Member>\n", m.name, bitHome, j%8, lxDesc("Description", m.desc))
					}
					x.WriteString("</Members>\n</DataType>\n")
					d.types = append(d.types, ty)
					continue
				}
				for j := rapid.IntRange(0, 4).Draw(rt, "nm"); j > 0; j-- {
					m := lxMember{name: d.name("f"), ty: rapid.SampledFrom([]string{"DINT", "REAL", "BIT", "INT"}).Draw(rt, "mty"), desc: d.words("md")}
					if len(d.types) > 0 && rapid.IntRange(0, 2).Draw(rt, "nest") == 0 {
						m.ty = d.types[rapid.IntRange(0, len(d.types)-1).Draw(rt, "which")].name
					}
					extra := ""
					if m.ty == "BIT" {
						if bitHome == "" || bn > 7 {
							bitHome, bn = fmt.Sprintf("ZZZZZZZZZZ%s%d", ty.name[:2], len(ty.members)), 0
							fmt.Fprintf(&x, "<Member Name=\"%s\" DataType=\"SINT\" Dimension=\"0\" Radix=\"Decimal\" Hidden=\"true\"/>\n", bitHome)
						}
						extra = fmt.Sprintf(" Target=\"%s\" BitNumber=\"%d\"", bitHome, bn)
						bn++
					}
					ty.members = append(ty.members, m)
					fmt.Fprintf(&x, "<Member Name=\"%s\" DataType=\"%s\" Dimension=\"0\" Radix=\"Decimal\" Hidden=\"false\"%s>\n%s</Member>\n", m.name, m.ty, extra, lxDesc("Description", m.desc))
				}
				x.WriteString("</Members>\n</DataType>\n")
				d.types = append(d.types, ty)
			}
			x.WriteString("</DataTypes>\n")
		}
		if rapid.IntRange(0, 3).Draw(rt, "hasmods") == 0 {
			x.WriteString("<Modules Use=\"Context\">\n" + d.modules(said) + "</Modules>\n")
		}
		if rapid.IntRange(0, 9).Draw(rt, "hastags") > 0 {
			x.WriteString("<Tags Use=\"Context\">\n" + d.tags(want, "", said))
			for _, ty := range d.types { // a tag of each type, for its comments
				n, desc := d.name("c"), d.words("tagdesc")
				fmt.Fprintf(&x, "<Tag Name=\"%s\" TagType=\"Base\" DataType=\"%s\" Constant=\"false\">\n%s<Data Format=\"L5K\">\n<![CDATA[[0]]]>\n</Data>\n</Tag>\n", n, ty.name, lxDesc("Description", desc))
				d.typeComments(ty.name, n, []string{desc}, bits, comments)
				// the tag's own description goes in front only where there is something to add to
				delete(comments, n)
			}
			x.WriteString("</Tags>\n")
		}
		// programs
		rungs := map[string]string{}
		var tasks strings.Builder
		if rapid.IntRange(0, 9).Draw(rt, "hasprogs") > 0 {
			x.WriteString("<Programs Use=\"Context\">\n")
			for i := rapid.IntRange(0, 3).Draw(rt, "nprog"); i > 0; i-- {
				pn := d.name("P")
				fmt.Fprintf(&x, "<Program Name=\"%s\" Type=\"Normal\">\n", pn)
				pt := map[string]any{}
				if rapid.IntRange(0, 6).Draw(rt, "ptags") > 0 {
					x.WriteString("<Tags>\n" + d.tags(pt, "program:"+pn+".", said) + "</Tags>\n")
				}
				want["program:"+pn] = pt
				task := ""
				if rapid.IntRange(0, 3).Draw(rt, "sched") > 0 {
					task = d.name("Task")
					fmt.Fprintf(&tasks, "<Task Name=\"%s\" Type=\"CONTINUOUS\">\n<ScheduledPrograms>\n<ScheduledProgram Name=\"%s\"/>\n</ScheduledPrograms>\n</Task>\n", task, pn)
				}
				if rapid.IntRange(0, 6).Draw(rt, "routines") > 0 {
					x.WriteString("<Routines>\n")
					for j := rapid.IntRange(0, 3).Draw(rt, "nr"); j > 0; j-- {
						rn := d.name("R")
						if rapid.IntRange(0, 4).Draw(rt, "st") == 0 {
							fmt.Fprintf(&x, "<Routine Name=\"%s\" Type=\"ST\">\n<STContent>\n<Line Number=\"0\">\n<![CDATA[x := 1;]]>\n</Line>\n</STContent>\n</Routine>\n", rn)
							continue
						}
						fmt.Fprintf(&x, "<Routine Name=\"%s\" Type=\"RLL\">\n<RLLContent>\n", rn)
						for k, rc := 0, rapid.IntRange(0, 3).Draw(rt, "rungs"); k < rc; k++ {
							c := d.words("rc")
							if c != "" && rapid.IntRange(0, 2).Draw(rt, "odd") == 0 {
								c = rapid.SampledFrom([]string{" padded  ", "two\nlines", "'all in quotes'", "ends with '", "''", "[x]", "tab\tbed"}).Draw(rt, "oddc")
							}
							fmt.Fprintf(&x, "<Rung Number=\"%d\" Type=\"N\">\n%s<Text>\n<![CDATA[NOP();]]>\n</Text>\n</Rung>\n", k, lxDesc("Comment", c))
							if c != "" {
								rungs[fmt.Sprintf("%s/%s/%s[%d]", task, pn, rn, k)] = c
							}
						}
						x.WriteString("</RLLContent>\n</Routine>\n")
					}
					x.WriteString("</Routines>\n")
				}
				x.WriteString("</Program>\n")
			}
			x.WriteString("</Programs>\n")
		}
		if tasks.Len() > 0 || rapid.Bool().Draw(rt, "hastasks") {
			x.WriteString("<Tasks Use=\"Context\">\n" + tasks.String() + "</Tasks>\n")
		}
		x.WriteString("</Controller>\n</RSLogix5000Content>\n")
		doc := x.String()
		bad := d.bad > 0 && d.bad <= d.at

		var proj l5x.RSLogix5000Content
		if err := xml.Unmarshal([]byte(doc), &proj); err != nil {
			rt.Fatalf("not decoded: %v\n%s", err, doc)
		}
		var got map[string]any
		var gotC, gotR map[string]string
		var err, errC, errR error
		if p := hx.Within(opLimit, func() {
			got, err = l5x.LoadTags(proj)
			gotC, errC = l5x.LoadTagComments(proj)
			gotR, errR = l5x.LoadRungComments(proj)
		}); p != "" {
			rt.Fatalf("%s\n%s", p, doc)
		}
		if bad {
			if err == nil {
				rt.Fatalf("a value that does not fit was accepted: %v\n%s", got, doc)
			}
		} else {
			if err != nil {
				rt.Fatalf("tags: %v\n%s", err, doc)
			}
			if s := lxEqual(got, want, ""); s != "" {
				rt.Fatalf("%s\n%s", s, doc)
			}
		}
		if errR != nil || !reflect.DeepEqual(gotR, rungs) && len(gotR)+len(rungs) > 0 {
			rt.Fatalf("rung comments %q %v, should be %q\n%s", gotR, errR, rungs, doc)
		}
		if errC != nil {
			rt.Fatalf("comments: %v", errC)
		}
		norm := func(s string) string { return strings.Join(strings.Fields(s), " ") }
		for k, w := range comments {
			found := norm(gotC[k])
			if bits[k] {
				for gk, gv := range gotC {
					if strings.HasPrefix(gk, k+"<") {
						found = norm(gv)
					}
				}
			}
			if found != w {
				// a member nothing is said about may be left out
				if owner := strings.SplitN(k, ".", 2)[0]; found == "" && norm(gotC[owner]) == w {
					continue
				}
				rt.Fatalf("comment of %s is %q, should be %q (all: %q)\n%s", k, found, w, gotC, doc)
			}
		}

		for k, w := range said {
			if g, ok := gotC[k]; !ok || g != w {
				rt.Fatalf("description of %s is %q (%v), should be %q (all: %q)\n%s", k, g, ok, w, gotC, doc)
			}
		}

		// what a tag itself says of its description
		if proj.Controller != nil && proj.Controller.Tags != nil {
			for _, tg := range proj.Controller.Tags.Tag {
				if w, ok := said[tg.NameAttr]; ok && tg.Descriptions() != w {
					rt.Fatalf("tag %s describes itself as %q, should be %q\n%s", tg.NameAttr, tg.Descriptions(), w, doc)
				}
			}
		}

		// leave out any one element: still well formed, never a crash
		for i := 0; i < 4; i++ {
			cut := lxCut(rt, doc)
			var p2 l5x.RSLogix5000Content
			if xml.Unmarshal([]byte(cut), &p2) != nil {
				continue
			}
			if p := hx.Within(opLimit, func() {
				l5x.LoadTags(p2)
				l5x.LoadTagComments(p2)
				l5x.LoadRungComments(p2)
			}); p != "" {
				rt.Fatalf("%s\n%s", p, cut)
			}
		}
		cls := "plain"
		if bad {
			cls = "bad value"
		}
		r.Case(doc, strings.Contains(doc, "<Array ") || strings.Contains(doc, "<Structure ") || len(rungs)+len(comments) > 0, cls)
	})
}

// lxCut removes one element, or all its content, or one attribute.
func lxCut(t *rapid.T, doc string) string {
	type span struct{ a, b, ia, ib int }
	var spans []span
	dec := xml.NewDecoder(strings.NewReader(doc))
	var stack []span
	for {
		at := int(dec.InputOffset())
		tok, err := dec.Token()
		if err != nil {
			break
		}
		switch tok.(type) {
		case xml.StartElement:
			stack = append(stack, span{a: at, ia: int(dec.InputOffset())})
		case xml.EndElement:
			s := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			s.ib, s.b = at, int(dec.InputOffset())
			spans = append(spans, s)
		}
	}
	if len(spans) == 0 {
		return doc
	}
	s := rapid.SampledFrom(spans).Draw(t, "cut")
	switch rapid.IntRange(0, 2).Draw(t, "cuthow") {
	case 0:
		return doc[:s.a] + doc[s.b:]
	case 1:
		return doc[:s.ia] + doc[s.ib:]
	default:
		head := doc[s.a:s.ia]
		if i := strings.LastIndex(head, " "); i > 0 && strings.Contains(head[i:], "=") {
			end := strings.LastIndex(head, `"`) + 1
			return doc[:s.a] + head[:i] + head[end:] + doc[s.ia:]
		}
		return doc[:s.a] + doc[s.b:]
	}
}

// TestC29Odd loads files that are well formed but unusual.
func TestC29Odd(t *testing.T) {
	head, tail := "<RSLogix5000Content SchemaRevision=\"1.0\"><Controller Name=\"C\">", "</Controller></RSLogix5000Content>"
	self := func(a, b string) string {
		return head + "<DataTypes><DataType Name=\"A\"><Members><Member Name=\"x\" DataType=\"" + a + "\"/></Members></DataType><DataType Name=\"B\"><Members><Member Name=\"y\" DataType=\"" + b + "\"/></Members></DataType></DataTypes><Tags><Tag Name=\"t\" DataType=\"A\"/></Tags>" + tail
	}
	ring := func(n int) string {
		s := head + "<DataTypes>"
		for i := 0; i < n; i++ {
			s += fmt.Sprintf("<DataType Name=\"T%d\"><Members><Member Name=\"x%d\" DataType=\"T%d\"/></Members></DataType>", i, i, (i+1)%n)
		}
		return s + "</DataTypes><Tags><Tag Name=\"t\" DataType=\"T0\"/></Tags>" + tail
	}
	for name, doc := range map[string]string{
		"recursive type":            self("A", "DINT"),
		"mutual types":              self("B", "A"),
		"ring of 3":                 ring(3),
		"ring of 4":                 ring(4),
		"ring of 9":                 ring(9),
		"no controller":             "<RSLogix5000Content SchemaRevision=\"1.0\"/>",
		"no tags":                   head + tail,
		"module":                    head + "<Modules><Module Name=\"M\"><Communications><Connections><Connection/></Connections></Communications></Module><Module Name=\"N\"/></Modules>" + tail,
		"bit without target":        head + "<DataTypes><DataType Name=\"A\"><Members><Member Name=\"x\" DataType=\"BIT\"/><Member Name=\"y\" DataType=\"BIT\" Target=\"Z\"/></Members></DataType></DataTypes><Tags><Tag Name=\"t\" DataType=\"A\"/></Tags>" + tail,
		"element without structure": head + "<Tags/><Programs><Program Name=\"P\"><Tags><Tag Name=\"a\" DataType=\"DINT\" Dimensions=\"x\"><Data/><Data><Array><Element/></Array></Data></Tag></Tags></Program></Programs>" + tail,
	} {
		doc := doc
		hx.Probe(t, "C29", name, func() string {
			var p l5x.RSLogix5000Content
			if err := xml.Unmarshal([]byte(doc), &p); err != nil {
				return err.Error()
			}
			return hx.Within(opLimit, func() {
				l5x.LoadTags(p)
				l5x.LoadTagComments(p)
				l5x.LoadRungComments(p)
			})
		})
	}
	// comments of module data
	doc := head + "<Modules><Module Name=\"M\"><Communications><Connections><Connection Name=\"c\"><InputTag><Comments><Comment Operand=\".DATA.0\"><![CDATA[door]]></Comment></Comments></InputTag><OutputTag><Comments><Comment Operand=\".DATA.1\"><![CDATA['lamp']]></Comment></Comments></OutputTag></Connection></Connections></Communications></Module></Modules><Tags/><Programs/>" + tail
	hx.Probe(t, "C29", "module comments", func() string {
		var p l5x.RSLogix5000Content
		if err := xml.Unmarshal([]byte(doc), &p); err != nil {
			return err.Error()
		}
		got, err := l5x.LoadTagComments(p)
		if err != nil || got["M:I.DATA.0"] != "door" || got["M:O.DATA.1"] != "'lamp'" {
			return fmt.Sprintf("%q %v", got, err)
		}
		return ""
	})
}
