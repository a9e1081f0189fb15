package props

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
)

var c22Elems = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
}

// c22Convert says what becomes of a value put in an element of type et:
// exact (must be stored), lossless (may be stored, and then as conv), or unsuitable.
func c22Convert(v any, et reflect.Type) (conv any, exact, lossless bool) {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() {
		return nil, false, false
	}
	if rv.Type() == et {
		return v, true, true
	}
	num := func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Float64 && k != reflect.Uintptr }
	if !num(rv.Kind()) || !num(et.Kind()) {
		return nil, false, false
	}
	// by value, through exact arithmetic
	switch {
	case rv.CanFloat() && (et.Kind() == reflect.Float32 || et.Kind() == reflect.Float64):
		c := rv.Convert(et)
		if math.IsInf(c.Float(), 0) && !math.IsInf(rv.Float(), 0) {
			return nil, false, false
		}
		return c.Interface(), false, true
	case rv.CanFloat(): // to an integer
		f := rv.Float()
		if math.IsInf(f, 0) || math.IsNaN(f) || f != math.Trunc(f) {
			return nil, false, false
		}
		b, _ := big.NewFloat(f).Int(nil)
		return c22Int(b, et)
	case rv.CanInt():
		return c22Int(big.NewInt(rv.Int()), et)
	default:
		return c22Int(new(big.Int).SetUint64(rv.Uint()), et)
	}
}

// c22Int puts an integer in type et.
func c22Int(b *big.Int, et reflect.Type) (any, bool, bool) {
	o := reflect.New(et).Elem()
	switch {
	case o.CanInt():
		if !b.IsInt64() || o.OverflowInt(b.Int64()) {
			return nil, false, false
		}
		o.SetInt(b.Int64())
	case o.CanUint():
		if !b.IsUint64() || o.OverflowUint(b.Uint64()) {
			return nil, false, false
		}
		o.SetUint(b.Uint64())
	default:
		bf := new(big.Float).SetInt(b)
		f, acc := bf.Float64()
		if et.Kind() == reflect.Float32 {
			var g float32
			g, acc = bf.Float32()
			f = float64(g)
		}
		if acc != big.Exact {
			return nil, false, false
		}
		o.SetFloat(f)
	}
	return o.Interface(), false, true
}

func c22Same(a, b any) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if !x.IsValid() || !y.IsValid() {
		return x.IsValid() == y.IsValid()
	}
	if x.Type() != y.Type() {
		return false
	}
	if x.Kind() == reflect.Slice {
		if x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			if !sameVal(x.Index(i).Interface(), y.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	return sameVal(a, b)
}

func c22Copy(v any) any {
	x := reflect.ValueOf(v)
	if x.IsValid() && x.Kind() == reflect.Slice {
		o := reflect.MakeSlice(x.Type(), x.Len(), x.Len())
		reflect.Copy(o, x)
		return o.Interface()
	}
	return v
}

// c22Edges are where the types end.
var c22Edges = []any{
	math.MaxFloat64, -math.MaxFloat64, 1e39, -1e39, 3.5e38, -3.5e38, math.Inf(1), math.Inf(-1), math.MaxFloat32, -math.MaxFloat32,
	1e-50, 0.5, -0.5, 255.0, 256.0, -1.0, 9.3e18, -9.3e18, 1.9e19, float64(1 << 53), float32(16777216), float32(-1), float32(1e20), float32(math.Inf(-1)),
	int64(math.MaxInt64), int64(math.MinInt64), int64(1<<53 + 1), int64(-1 << 31), int64(-1<<31 - 1), int64(1 << 32), uint64(math.MaxUint64), uint64(1 << 63), uint64(1<<53 + 1),
	int32(-1), int32(-129), int32(128), int32(65536), uint32(math.MaxUint32), uint32(1 << 31), int16(-1), int16(256), uint16(65535), uint16(32768), int8(-1), uint8(255), uint8(128),
}

// c22Model is the typed map the provider should be.
type c22Model map[string]any

// locate finds the entry an access addresses.
func (m c22Model) locate(tag string) (key string, idx int, elem bool) {
	tag = strings.ToLower(tag)
	if _, ok := m[tag]; ok {
		return tag, 0, false
	}
	if i := strings.LastIndex(tag, "["); i >= 0 && strings.HasSuffix(tag, "]") {
		var n int
		if s := tag[i+1 : len(tag)-1]; s != "" && strings.Trim(s, "0123456789") == "" {
			fmt.Sscanf(s, "%d", &n)
			return tag[:i], n, true
		} else if arr := reflect.ValueOf(m[tag[:i]]); strings.HasPrefix(s, "-") && arr.IsValid() && arr.Kind() == reflect.Slice {
			return tag[:i], math.MaxInt32, true // in front of the array is outside of it
		}
	}
	return tag, 0, false
}

type c22Out struct {
	must  string // "ok", "err" or "either"
	val   any    // what the entry holds when the write succeeded
	loose bool   // the stored type is not judged
}

// put works out what writing v to elements start... of arr means.
func c22Put(arr any, start int, v any) c22Out {
	a := reflect.ValueOf(c22Copy(arr))
	et := a.Type().Elem()
	vals := []any{v}
	if r := reflect.ValueOf(v); r.IsValid() && r.Kind() == reflect.Slice {
		vals = nil
		for i := 0; i < r.Len(); i++ {
			vals = append(vals, r.Index(i).Interface())
		}
	}
	if start >= a.Len() || len(vals) > a.Len()-start {
		return c22Out{must: "err"}
	}
	must := "ok"
	for i, x := range vals {
		c, exact, ok := c22Convert(x, et)
		if !ok {
			return c22Out{must: "err"}
		}
		if !exact {
			must = "either"
		}
		a.Index(start + i).Set(reflect.ValueOf(c))
	}
	if len(vals) == 0 {
		must = "either"
	}
	return c22Out{must: must, val: a.Interface()}
}

func (m c22Model) write(tag string, v any) (key string, o c22Out) {
	key, idx, elem := m.locate(tag)
	old, exists := m[key]
	ov, nv := reflect.ValueOf(old), reflect.ValueOf(v)
	oldSlice, newSlice := exists && ov.IsValid() && ov.Kind() == reflect.Slice, nv.IsValid() && nv.Kind() == reflect.Slice
	if elem {
		if !oldSlice {
			return key, c22Out{must: "err"}
		}
		return key, c22Put(old, idx, v)
	}
	if !newSlice {
		if oldSlice {
			if ov.Len() == 0 {
				return key, c22Out{must: "either", val: v, loose: true}
			}
			return key, c22Put(old, 0, v)
		}
		if exists && reflect.TypeOf(old) != reflect.TypeOf(v) {
			return key, c22Out{must: "either", val: v, loose: true}
		}
		return key, c22Out{must: "ok", val: v}
	}
	anys, isAny := v.([]any)
	if !isAny { // the hosting program replaces the array
		if exists && !oldSlice || oldSlice && ov.Type() != nv.Type() {
			return key, c22Out{must: "either", val: c22Copy(v)}
		}
		return key, c22Out{must: "ok", val: c22Copy(v)}
	}
	if oldSlice && ov.Len() > 0 && len(anys) <= ov.Len() {
		return key, c22Put(old, 0, v)
	}
	// a new array, or a longer one: if stored, with the elements given
	et := reflect.Type(nil)
	if oldSlice {
		et = ov.Type().Elem()
	} else if len(anys) > 0 {
		et = reflect.TypeOf(anys[0])
	}
	if et == nil {
		return key, c22Out{must: "either", val: c22Copy(v), loose: true}
	}
	out := reflect.MakeSlice(reflect.SliceOf(et), len(anys), len(anys))
	same := true
	for i, x := range anys {
		c, exact, ok := c22Convert(x, et)
		if !ok {
			if oldSlice {
				return key, c22Out{must: "err"}
			}
			return key, c22Out{must: "either", val: nil, loose: true}
		}
		same = same && exact
		out.Index(i).Set(reflect.ValueOf(c))
	}
	if !exists && same {
		return key, c22Out{must: "ok", val: out.Interface()}
	}
	return key, c22Out{must: "either", val: out.Interface()}
}

func (m c22Model) keys() []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func TestC22(t *testing.T) {
	r := hx.For("C22")
	r.Rule("a history of at least 4 writes and reads with an array element or range among them")
	r.Assume("converting between numeric types may be refused or done when the value survives; a scalar of another type may replace a scalar or be refused",
		"an array that arrives longer than the stored one may replace it or be refused")
	hx.Check(t, "C22", 10000, func(rt *rapid.T) {
		p := &gologix.MapTagProvider{}
		m := c22Model{}
		names := []string{"Alpha", "BETA", "gamma", "mixedCase_1", "udt.Member", "lit[3]", "two[1,2]", "Program:Main.x", "arr.in[2].y", "aTagWithA_LongerNameThanMostOthersHave_ButWithinLimits"}
		gen := func(et reflect.Type, l string) any {
			v := reflect.New(et).Elem()
			hx.Fill(rt, v, l)
			return v.Interface()
		}
		genTyped := func(et reflect.Type, n int, l string) any {
			// slices a program hands over may have room to grow
			s := reflect.MakeSlice(reflect.SliceOf(et), n, n+rapid.SampledFrom([]int{0, 0, 1, 7}).Draw(rt, l+" room"))
			for i := 0; i < n; i++ {
				if i > 8 { // long ones repeat
					s.Index(i).Set(s.Index(i % 8))
					continue
				}
				s.Index(i).Set(reflect.ValueOf(gen(et, l)))
			}
			return s.Interface()
		}
		etype := func(l string) reflect.Type { return rapid.SampledFrom(c22Elems).Draw(rt, l) }
		if rapid.Bool().Draw(rt, "preload") {
			p.Data = map[string]any{}
			for i := rapid.IntRange(1, 4).Draw(rt, "npre"); i > 0; i-- {
				n := rapid.SampledFrom(names).Draw(rt, "prename")
				if _, dup := m[strings.ToLower(n)]; dup {
					continue
				}
				var v any
				if rapid.Bool().Draw(rt, "preslice") {
					n := rapid.IntRange(1, 6).Draw(rt, "pl")
					if rapid.IntRange(0, 9).Draw(rt, "long") == 0 {
						n = rapid.IntRange(50, 400).Draw(rt, "pl2")
					}
					v = genTyped(etype("pt"), n, "pv")
				} else {
					v = gen(etype("pt"), "pv")
				}
				p.Data[n] = v
				m[strings.ToLower(n)] = c22Copy(v)
			}
		}
		hist := ""
		ranged := false
		type held struct{ live, was any }
		var handed []held
		verify := func() {
			for _, k := range m.keys() {
				want := m[k]
				qty := 1
				if rv := reflect.ValueOf(want); rv.IsValid() && rv.Kind() == reflect.Slice {
					qty = rv.Len()
				}
				got, err := p.TagRead(hx.RandCase(rt, k, "case"), int16(qty))
				if err != nil {
					rt.Fatalf("reading %s (%d) after %s: %v", k, qty, hist, err)
				}
				if !c22Same(got, want) {
					rt.Fatalf("%s reads %T %#v, should be %T %#v, after %s", k, got, got, want, want, hist)
				}
			}
			for _, h := range handed {
				if !c22Same(h.live, h.was) {
					rt.Fatalf("a value read before changed from %#v to %#v after %s", h.was, h.live, hist)
				}
			}
		}
		steps := rapid.IntRange(2, 14).Draw(rt, "steps")
		for s := 0; s < steps; s++ {
			name := rapid.SampledFrom(names).Draw(rt, "name")
			key, _, _ := m.locate(name)
			cur, exists := m[key]
			cv := reflect.ValueOf(cur)
			curSlice := exists && cv.IsValid() && cv.Kind() == reflect.Slice
			if rapid.IntRange(0, 2).Draw(rt, "idx") > 0 && (curSlice || rapid.IntRange(0, 4).Draw(rt, "odd") == 0) {
				hi := 3
				if curSlice {
					hi = cv.Len() + 1
				}
				i := rapid.IntRange(0, hi).Draw(rt, "i")
				if rapid.IntRange(0, 15).Draw(rt, "huge") == 0 {
					i = rapid.SampledFrom([]int{255, 256, 65536, math.MaxInt32}).Draw(rt, "bigi")
				}
				// other ways of writing a number are part of the name, but for zeros in front
				form := rapid.SampledFrom([]string{"%s[%d]", "%s[%d]", "%s[%d]", "%s[%d]", "%s[%d]", "%s[%d]", "%s[%02d]", "%s[%04d]", "%s[0x%x]", "%s[0b%b]", "%s[1_%d]", "%s[ %d]", "%s[-%d]"}).Draw(rt, "form")
				if form == "%s[-%d]" {
					if i++; !curSlice {
						form = "%s[%d]"
					}
				}
				name = fmt.Sprintf(form, name, i)
				ranged = true
			}
			name = hx.RandCase(rt, name, "rc")
			if rapid.IntRange(0, 2).Draw(rt, "read") == 0 {
				qty := rapid.IntRange(-1, 8).Draw(rt, "qty")
				if curSlice && rapid.Bool().Draw(rt, "exact") {
					qty = rapid.IntRange(1, cv.Len()+1).Draw(rt, "q2")
				}
				if rapid.IntRange(0, 20).Draw(rt, "hugeq") == 0 {
					qty = rapid.SampledFrom([]int{32767, -32768}).Draw(rt, "bigq")
				}
				hist += fmt.Sprintf("; read %s x%d", name, qty)
				var got any
				var err error
				if pr := hx.Within(opLimit, func() { got, err = p.TagRead(name, int16(qty)) }); pr != "" {
					rt.Fatalf("%s: %s", hist, pr)
				}
				k, i, el := m.locate(name)
				v, ok := m[k]
				rv := reflect.ValueOf(v)
				switch {
				case !ok:
					if err == nil {
						rt.Fatalf("%s: a missing tag reads %#v", hist, got)
					}
				case !rv.IsValid() || rv.Kind() != reflect.Slice:
					if el {
						if err == nil {
							rt.Fatalf("%s: element of %#v reads %#v", hist, v, got)
						}
					} else if qty == 1 && err != nil {
						rt.Fatalf("%s: %v", hist, err)
					} else if err == nil && !c22Same(got, v) {
						rt.Fatalf("%s: reads %#v, holds %#v", hist, got, v)
					}
				default:
					if qty <= 0 || i+qty > rv.Len() {
						if err == nil && !(qty == 0 && reflect.ValueOf(got).Kind() == reflect.Slice && reflect.ValueOf(got).Len() == 0) {
							rt.Fatalf("%s: reads %#v from %d elements", hist, got, rv.Len())
						}
						break
					}
					if err != nil {
						rt.Fatalf("%s: %v (holds %#v)", hist, err, v)
					}
					want := rv.Slice(i, i+qty).Interface()
					if el && qty == 1 {
						want = rv.Index(i).Interface()
					}
					if !c22Same(got, want) {
						rt.Fatalf("%s: reads %T %#v, holds %#v", hist, got, got, want)
					}
					if g := reflect.ValueOf(got); g.Kind() == reflect.Slice {
						if rapid.Bool().Draw(rt, "scribble") {
							g.Index(0).Set(reflect.ValueOf(gen(g.Type().Elem(), "sc"))) // the caller's own copy
						} else {
							handed = append(handed, held{got, c22Copy(got)})
						}
					}
				}
				verify()
				continue
			}
			et := etype("et")
			if curSlice && rapid.IntRange(0, 3).Draw(rt, "fit") > 0 {
				et = cv.Type().Elem()
			} else if exists && cv.IsValid() && !curSlice && rapid.IntRange(0, 3).Draw(rt, "fit") > 0 {
				et = cv.Type()
			}
			var v any
			switch rapid.IntRange(0, 7).Draw(rt, "shape") {
			case 0, 1, 2:
				v = gen(et, "v")
				if rapid.IntRange(0, 4).Draw(rt, "edge") == 0 {
					v = rapid.SampledFrom(c22Edges).Draw(rt, "ev")
				} else if rapid.IntRange(0, 3).Draw(rt, "small") == 0 { // a value other types can hold
					small := rapid.IntRange(0, 127).Draw(rt, "sv")
					if k := et.Kind(); k >= reflect.Int && k <= reflect.Float64 {
						v = reflect.ValueOf(small).Convert(et).Interface()
					}
				}
			case 3, 4:
				v = genTyped(et, rapid.IntRange(1, 7).Draw(rt, "len"), "v")
			case 5, 6:
				var a []any
				for i := rapid.IntRange(1, 7).Draw(rt, "len"); i > 0; i-- {
					e := et
					if rapid.IntRange(0, 12).Draw(rt, "mix") == 0 {
						e = etype("me")
					}
					a = append(a, gen(e, "v"))
				}
				v = a
			case 7:
				if k, _, el := m.locate(name); rapid.Bool().Draw(rt, "nil") && (el || m[k] != nil && reflect.TypeOf(m[k]).Kind() == reflect.Slice) {
					v = nil
				} else {
					v = gen(et, "v")
				}
			}
			hist += fmt.Sprintf("; write %s = %T %v", name, v, v)
			k, o := m.write(name, v)
			before := m[k]
			var err error
			if pr := hx.Within(opLimit, func() { err = p.TagWrite(name, v) }); pr != "" {
				rt.Fatalf("%s: %s", hist, pr)
			}
			switch {
			case err == nil && o.must == "err":
				rt.Fatalf("%s: accepted, holds %T %#v", hist, before, before)
			case err != nil && o.must == "ok":
				rt.Fatalf("%s: refused: %v (holds %T %#v)", hist, err, before, before)
			case err == nil:
				if o.loose { // only the value itself is judged, later
					if o.val == nil {
						// what was taken has to be there, whatever type it is kept in
						if a, is := v.([]any); is {
							got, gerr := p.TagRead(name, int16(len(a)))
							g := reflect.ValueOf(got)
							if gerr != nil || !g.IsValid() || g.Kind() != reflect.Slice || g.Len() != len(a) {
								rt.Fatalf("%s: accepted, then read as %T %v, %v", hist, got, got, gerr)
							}
							for i, x := range a {
								e := g.Index(i).Interface()
								c, _, ok := c22Convert(x, reflect.TypeOf(e))
								if x == nil && e == nil {
									continue
								}
								if e == nil || !ok || !c22Same(c, e) {
									rt.Fatalf("%s: accepted, then element %d is %T %v", hist, i, e, e)
								}
							}
						}
						delete(m, k)
						delete(p.Data, k)
						break
					}
				}
				m[k] = c22Copy(o.val)
			}
			if g := reflect.ValueOf(v); g.IsValid() && g.Kind() == reflect.Slice && g.Len() > 0 && rapid.IntRange(0, 2).Draw(rt, "reuse") == 0 {
				if e := g.Type().Elem(); e.Kind() != reflect.Interface { // the caller reuses its buffer
					g.Index(0).Set(reflect.ValueOf(gen(e, "rv")))
				}
			}
			verify()
		}
		// the list of tags
		seen := map[string]gologix.CIPType{}
		for _, ti := range p.TagList() {
			k := strings.ToLower(ti.Name)
			if _, dup := seen[k]; dup {
				rt.Fatalf("%s listed twice after %s", k, hist)
			}
			seen[k] = ti.Type
		}
		for k, v := range m {
			ty, ok := seen[k]
			if !ok || len(seen) != len(m) {
				rt.Fatalf("tags listed %v, held %v after %s", seen, m, hist)
			}
			e := reflect.ValueOf(v)
			et := e.Type()
			if e.Kind() == reflect.Slice {
				et = et.Elem()
			}
			if et.Kind() != reflect.Interface {
				want := byte(gologix.CIPTypeSTRING)
				if et.Kind() != reflect.String {
					want = hx.CIPTypeOf(et.Kind())
				}
				// bits of the same width; an array of booleans has no code of its own
				same := byte(ty) == want || et.Kind() == reflect.Uint8 && ty == gologix.CIPTypeBYTE || et.Kind() == reflect.Uint64 && ty == gologix.CIPTypeLWORD
				if !same && !(e.Kind() == reflect.Slice && et.Kind() == reflect.Bool) {
					rt.Fatalf("%s of type %T is listed with type %v", k, v, ty)
				}
			}
		}
		r.Case(hist, steps >= 4 && ranged, fmt.Sprintf("steps%d", steps/5*5))
	})
}

// Writers fill whole ranges with one number each; a read must never see a mixture.
func TestC22Concurrent(t *testing.T) {
	r := hx.For("C22")
	rounds := 12
	if hx.Tier() == "thorough" {
		rounds = 200
	}
	rnd := rand.New(rand.NewSource(int64(hx.Seed())))
	for i := 0; i < rounds; i++ {
		n := 2 + rnd.Intn(12)
		p := &gologix.MapTagProvider{}
		if err := p.TagWrite("Arr", make([]int32, n)); err != nil {
			t.Fatal(err)
		}
		var bad sync.Map
		var wg sync.WaitGroup
		for w := 0; w < 3; w++ {
			wg.Add(2)
			go func(w int) {
				defer wg.Done()
				for j := 0; j < 60; j++ {
					v := make([]any, n)
					s := make([]int32, n)
					for k := range v {
						v[k], s[k] = int32(w*1000+j), int32(w*1000+j)
					}
					var err error
					switch j % 3 {
					case 0:
						err = p.TagWrite("arr", v)
					case 1:
						err = p.TagWrite("ARR", s)
					case 2:
						err = p.TagWrite("arr[0]", v)
					}
					if err == nil {
						err = p.TagWrite(fmt.Sprintf("own%d", w), int32(j))
					}
					if err != nil {
						bad.Store(err.Error(), true)
					}
					if own, err := p.TagRead(fmt.Sprintf("Own%d", w), 1); err != nil || own != any(int32(j)) {
						bad.Store(fmt.Sprintf("own tag reads %v %v, wrote %d", own, err, j), true)
					}
				}
			}(w)
			go func() {
				defer wg.Done()
				for j := 0; j < 120; j++ {
					got, err := p.TagRead("aRR", int16(n))
					a, ok := got.([]int32)
					if err != nil || !ok || len(a) != n {
						bad.Store(fmt.Sprintf("%T %v", got, err), true)
						continue
					}
					for _, x := range a {
						if x != a[0] {
							bad.Store(fmt.Sprintf("mixture %v", a), true)
						}
					}
					p.TagList()
				}
			}()
		}
		wg.Wait()
		bad.Range(func(k, _ any) bool { r.Fail(); t.Errorf("concurrent use: %v", k); return true })
		r.Case(fmt.Sprintf("concurrent %d", i), true, "concurrent")
	}
}
