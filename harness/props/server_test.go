package props

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/danomagnum/gologix"
	"pgregory.net/rapid"

	"verifharness/hx"
	"verifharness/raw"
)

// call is one call of an endpoint by the server.
type call struct {
	op  string // "read", "write", "iowrite"
	tag string
	qty int
	val any // written value, or the value read
	err error
	raw [][]byte // items of an I/O message
}

func (c call) String() string {
	return fmt.Sprintf("%s(%s,%d)=%T %v %v", c.op, c.tag, c.qty, c.val, c.val, c.err)
}

// endpoint is what the server under test has behind each of its paths. It
// passes everything on to an inner provider, which each case sets.
type endpoint struct {
	path  []byte
	mu    sync.Mutex
	inner gologix.CIPEndpoint
	calls []call
}

func (e *endpoint) set(p gologix.CIPEndpoint) {
	e.mu.Lock()
	e.inner, e.calls = p, nil
	e.mu.Unlock()
}

func (e *endpoint) get() gologix.CIPEndpoint {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.inner
}

// take returns the calls since the last time.
func (e *endpoint) take() []call {
	e.mu.Lock()
	defer e.mu.Unlock()
	c := e.calls
	e.calls = nil
	return c
}

func (e *endpoint) note(c call) {
	e.mu.Lock()
	e.calls = append(e.calls, c)
	e.mu.Unlock()
}

func (e *endpoint) TagRead(tag string, qty int16) (any, error) {
	p := e.get()
	if p == nil {
		return nil, errors.New("no provider")
	}
	v, err := p.TagRead(tag, qty)
	e.note(call{op: "read", tag: tag, qty: int(qty), val: v, err: err})
	return v, err
}

func (e *endpoint) TagWrite(tag string, value any) error {
	p := e.get()
	if p == nil {
		return errors.New("no provider")
	}
	err := p.TagWrite(tag, value)
	e.note(call{op: "write", tag: tag, val: c22Copy(value), err: err})
	return err
}

func (e *endpoint) IORead() ([]byte, error) {
	p := e.get()
	if p == nil {
		return nil, errors.New("no provider")
	}
	return p.IORead()
}

func (e *endpoint) IOWrite(items []gologix.CIPItem) error {
	p := e.get()
	if p == nil {
		return errors.New("no provider")
	}
	c := call{op: "iowrite"}
	for _, i := range items {
		c.raw = append(c.raw, append([]byte{}, i.Data...))
	}
	c.err = p.IOWrite(items)
	e.note(c)
	return c.err
}

func (e *endpoint) TagList() []gologix.ServerTagInfo {
	if l, ok := e.get().(gologix.TagLister); ok {
		return l.TagList()
	}
	return nil
}

const (
	tcpAddr = "127.0.0.1:44818"
	udpAddr = "127.0.0.1:2222"
)

// theServer is the server under test in this process: its ports are fixed, so
// there can be one.
var theServer struct {
	once sync.Once
	srv  *gologix.Server
	eps  []*endpoint
	err  error
}

// serverPaths are the registered paths. The last ones are longer than a port
// and a slot: two hops, link addresses of odd and even length, some over 15
// bytes, and a port number in a word of its own with a link byte and with a
// link address.
var serverPaths = [][]byte{{1, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 0, 2, 7}, linkPath(2, "10.0.0.21"),
	linkPath(2, "192.168.100.200.41"), {0x0F, 5, 1, 2}, append(linkPath(0x201, "10.0.0.21"), 1, 0), linkPath(2, "plc.cell4.example")}

// linkPath is a port segment with a link address of several bytes. A port of
// 15 or more is in a word between the size of the link and the link.
func linkPath(port int, link string) []byte {
	var b []byte
	if port < 15 {
		b = []byte{0x10 | byte(port), byte(len(link))}
	} else {
		b = []byte{0x1F, byte(len(link)), byte(port), byte(port >> 8)}
	}
	b = append(b, link...)
	if len(b)%2 == 1 {
		b = append(b, 0)
	}
	return b
}

func startServer() (*gologix.Server, []*endpoint) {
	s := &theServer
	s.once.Do(func() {
		r := gologix.NewRouter()
		for _, p := range serverPaths {
			e := &endpoint{path: p}
			s.eps = append(s.eps, e)
			r.Handle(p, e)
		}
		s.srv = gologix.NewServer(r)
		s.srv.Logger = hx.Quiet()
		s.srv.ConnMgr.Logger = hx.Quiet()
		done := make(chan error, 1)
		go func() { done <- s.srv.Serve() }()
		for i := 0; ; i++ {
			select {
			case err := <-done:
				hx.Harness("the server does not start: %v", err)
			default:
			}
			c, err := net.Dial("tcp", tcpAddr)
			if err == nil {
				c.Close()
				break
			}
			if i > 500 {
				hx.Harness("the server does not listen: %v", err)
			}
			time.Sleep(10 * time.Millisecond)
		}
	})
	for _, e := range s.eps {
		e.set(nil)
	}
	return s.srv, s.eps
}

// serverClient makes a client of the library for the server's path.
func serverClient(route []byte) *gologix.Client {
	c := gologix.NewClient("127.0.0.1")
	c.Logger = hx.Quiet()
	c.Controller.Path = pathBuf(route)
	c.SocketTimeout = 10 * time.Second
	return c
}

// memStore is a simple tag store with a behaviour fixed here, for checks that
// are not about the built-in provider. Arrays are slices; names are exact.
type memStore struct {
	mu sync.Mutex
	m  map[string]any
}

var errStore = errors.New("refused by the store")

func (s *memStore) split(tag string) (string, int, bool) {
	if i := strings.LastIndexByte(tag, '['); i > 0 && strings.HasSuffix(tag, "]") {
		n := 0
		if _, err := fmt.Sscanf(tag[i:], "[%d]", &n); err == nil {
			return tag[:i], n, true
		}
	}
	return tag, 0, false
}

func (s *memStore) TagRead(tag string, qty int16) (any, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.read(tag, int(qty))
}

func (s *memStore) read(tag string, qty int) (any, error) {
	if v, ok := s.m[tag]; ok && reflect.ValueOf(v).Kind() != reflect.Slice {
		if qty != 1 {
			return nil, errStore
		}
		return v, nil
	}
	name, i, _ := s.split(tag)
	v, ok := s.m[name]
	r := reflect.ValueOf(v)
	if !ok || r.Kind() != reflect.Slice || qty < 1 || i+qty > r.Len() {
		return nil, errStore
	}
	if qty == 1 {
		return r.Index(i).Interface(), nil
	}
	return c22Copy(r.Slice(i, i+qty).Interface()), nil
}

func (s *memStore) TagWrite(tag string, value any) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.write(tag, value)
}

// write wants the exact type.
func (s *memStore) write(tag string, value any) error {
	vals, many := value.([]any)
	if old, ok := s.m[tag]; ok && reflect.ValueOf(old).Kind() != reflect.Slice {
		if many || reflect.TypeOf(old) != reflect.TypeOf(value) {
			return errStore
		}
		s.m[tag] = value
		return nil
	}
	if !many {
		vals = []any{value}
	}
	name, i, _ := s.split(tag)
	old, ok := s.m[name]
	r := reflect.ValueOf(old)
	if !ok || r.Kind() != reflect.Slice || i+len(vals) > r.Len() || len(vals) == 0 {
		return errStore
	}
	for _, v := range vals {
		if reflect.TypeOf(v) != r.Type().Elem() {
			return errStore
		}
	}
	for k, v := range vals {
		r.Index(i + k).Set(reflect.ValueOf(v))
	}
	return nil
}

func (s *memStore) IORead() ([]byte, error)         { return nil, errStore }
func (s *memStore) IOWrite([]gologix.CIPItem) error { return errStore }

func (s *memStore) TagList() []gologix.ServerTagInfo {
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []gologix.ServerTagInfo
	for n, v := range s.m {
		t, _ := gologix.GoVarToCIPType(v)
		l = append(l, gologix.ServerTagInfo{Name: n, Type: t})
	}
	return l
}

func (s *memStore) clone() *memStore {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := &memStore{m: map[string]any{}}
	for k, v := range s.m {
		n.m[k] = c22Copy(v)
	}
	return n
}

func (s *memStore) same(o *memStore) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k, v := range s.m {
		if !c22Same(v, o.m[k]) {
			return fmt.Sprintf("%s is %T %v, should be %T %v", k, v, v, o.m[k], o.m[k])
		}
	}
	if len(s.m) != len(o.m) {
		return "other tags than before"
	}
	return ""
}

// srvElems are the element types the server can carry.
var srvElems = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
}

// srvType is the CIP type code of an element type, with what follows it for structures.
func srvType(t reflect.Type) []byte {
	switch t.Kind() {
	case reflect.Bool:
		return []byte{0xC1, 0}
	case reflect.Int8:
		return []byte{0xC2, 0}
	case reflect.Int16:
		return []byte{0xC3, 0}
	case reflect.Int32:
		return []byte{0xC4, 0}
	case reflect.Int64:
		return []byte{0xC5, 0}
	case reflect.Uint8:
		return []byte{0xD1, 0}
	case reflect.Uint16:
		return []byte{0xC7, 0}
	case reflect.Uint32:
		return []byte{0xC8, 0}
	case reflect.Uint64:
		return []byte{0xD4, 0}
	case reflect.Float32:
		return []byte{0xCA, 0}
	case reflect.Float64:
		return []byte{0xCB, 0}
	case reflect.String:
		return []byte{0xA0, 2, 0xCE, 0x0F}
	}
	panic("no type code")
}

// srvData is the value of an element, or of each element of a slice, as tag data.
func srvData(v any) []byte {
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Slice {
		var b []byte
		for i := 0; i < r.Len(); i++ {
			b = append(b, srvData(r.Index(i).Interface())...)
		}
		return b
	}
	switch x := v.(type) {
	case string:
		b := make([]byte, 88)
		b[0] = byte(len(x))
		copy(b[4:], x)
		return b
	case bool:
		if x {
			return []byte{1}
		}
		return []byte{0}
	}
	return hx.EncodeAny(r)
}

// srvGen draws a value of an element type. Strings fit a STRING.
func srvGen(t *rapid.T, et reflect.Type, l string) any {
	if et.Kind() == reflect.String {
		return hx.GenString(t, l, 82)
	}
	v := reflect.New(et).Elem()
	hx.Fill(t, v, l)
	return v.Interface()
}

// srvRand makes a value from a random source, for long arrays.
func srvRand(r *rand.Rand, et reflect.Type) any {
	v := reflect.New(et).Elem()
	switch {
	case v.CanInt():
		v.SetInt(int64(r.Uint64()))
	case v.CanUint():
		v.SetUint(r.Uint64())
	case v.CanFloat():
		v.SetFloat(float64(float32(r.NormFloat64())))
	case v.Kind() == reflect.Bool:
		v.SetBool(r.Intn(2) == 1)
	default:
		b := make([]byte, r.Intn(83))
		for i := range b {
			b[i] = byte(32 + r.Intn(95))
		}
		v.SetString(string(b))
	}
	return v.Interface()
}

// srvSlice makes a slice of n values.
func srvSlice(t *rapid.T, et reflect.Type, n int, l string) any {
	s := reflect.MakeSlice(reflect.SliceOf(et), n, n)
	var r *rand.Rand
	if n > 8 {
		r = rand.New(rand.NewSource(rapid.Int64().Draw(t, l+"seed")))
	}
	for i := 0; i < n; i++ {
		if r != nil {
			s.Index(i).Set(reflect.ValueOf(srvRand(r, et)))
		} else {
			s.Index(i).Set(reflect.ValueOf(srvGen(t, et, l)))
		}
	}
	return s.Interface()
}

// pathBuf is a route as the client's configuration holds it.
func pathBuf(route []byte) *bytes.Buffer { return bytes.NewBuffer(append([]byte{}, route...)) }

var _ = raw.NOP
