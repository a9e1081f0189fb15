package props

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/lgxtypes"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/plc"
)

func lgxTemplate(x lgxType) *plc.Template {
	t := &plc.Template{ID: x.id, Handle: x.id, Name: x.t.Name(), Size: 12}
	for n, b := range x.bits {
		t.Members = append(t.Members, plc.Member{Name: n, Type: plc.BOOL, Offset: b / 8, Bit: b % 8})
	}
	for i, n := range x.ints {
		t.Members = append(t.Members, plc.Member{Name: n, Type: plc.DINT, Offset: 4 + 4*i})
	}
	return t
}

func c30wire(t *rapid.T, r *hx.Rec, p *plc.PLC) {
	x := rapid.SampledFrom(lgxTypes).Draw(t, "type")
	n := rapid.IntRange(1, 5).Draw(t, "n")
	tag := p.AddTag(&plc.Tag{Name: "tmr", Type: plc.STRUCT, Tmpl: lgxTemplate(x), Dims: []int{n}})
	str := p.AddTag(&plc.Tag{Name: "str", Type: plc.STRUCT, Tmpl: plc.StringTemplate})
	vals := reflect.MakeSlice(reflect.SliceOf(x.t), n, n)
	for i := 0; i < n; i++ {
		hx.Fill(t, vals.Index(i), "v")
		p.Set(tag, 12*i, lgxImage(x)(vals.Index(i)))
	}
	s := hx.GenString(t, "s", 82)
	p.Set(str, 0, plc.EncodeString(s))
	c := hx.Connected(t, p, nil)
	defer c.Disconnect()
	k := rapid.IntRange(0, n-1).Draw(t, "k")
	r.Case(fmt.Sprintf("wire %v %x %q", x.t, p.Get(tag), s), true, "wire")
	one := reflect.New(x.t)
	all := reflect.MakeSlice(reflect.SliceOf(x.t), n, n)
	nv := reflect.New(x.t).Elem()
	hx.Fill(t, nv, "new")
	var ls lgxtypes.STRING
	ns := lgxtypes.STRING{Len: 3, Data: [82]int8{'a', 'b', 'c'}}
	var errs [6]error
	if e := hx.Within(opLimit, func() {
		errs[0] = c.Read(fmt.Sprintf("tmr[%d]", k), one.Interface())
		errs[1] = c.Read("tmr[0]", all.Interface())
		errs[2] = c.Read("str", &ls)
		errs[3] = c.Write(fmt.Sprintf("tmr[%d]", k), nv.Interface())
		errs[4] = c.Write("str", ns)
	}); e != "" {
		t.Fatalf("%v: %s", x.t, e)
	}
	for i, err := range errs {
		if err != nil {
			t.Fatalf("step %d with %v: %v (%v)", i, x.t, err, p.TakeErrors())
		}
	}
	if one.Elem().Interface() != vals.Index(k).Interface() {
		t.Fatalf("read %+v, the controller has %+v", one.Elem(), vals.Index(k))
	}
	if !reflect.DeepEqual(all.Interface(), vals.Interface()) {
		t.Fatalf("read %+v, the controller has %+v", all, vals)
	}
	got := make([]byte, ls.Len&0xFF)
	for i := range got {
		got[i] = byte(ls.Data[i])
	}
	if string(got) != s {
		t.Fatalf("read %q, the controller has %q", got, s)
	}
	want := p.Get(tag)
	copy(want[12*k:], lgxImage(x)(nv))
	if b := p.Get(tag); !bytes.Equal(b, want) {
		t.Fatalf("after writing %+v to element %d the controller has %x, want %x", nv, k, b, want)
	}
	if b := p.Get(str); plc.DecodeString(b) != "abc" {
		t.Fatalf("after writing abc the controller has %x", b)
	}
	v, err := gologix.ReadPacked[lgxtypes.STRING](c, "str")
	if err != nil || v != ns {
		t.Fatalf("ReadPacked of str is %+v, %v", v, err)
	}
	if e := p.TakeErrors(); len(e) > 0 {
		t.Fatalf("%v: %v", x.t, e)
	}
}

var _ = testing.Short
