package vdrv

import (
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"reflect"
	"runtime"
	"strings"
	"time"
	"unsafe"

	"github.com/fakeyanss/jt808-server-go/internal/server"
	"github.com/fakeyanss/jt808-server-go/internal/storage"
	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
)

// Env is the in-process platform.
type Env struct {
	Srv *server.TCPServer
	L   *listener
}

// ErrInject: the listener could not be injected.
var ErrInject = errors.New("no net.Listener field in TCPServer")

// NewEnv starts the platform's real accept loop on an in-memory listener.
func NewEnv() (*Env, error) {
	e := &Env{Srv: server.NewTCPServer(), L: newListener()}
	ok := inject(reflect.ValueOf(e.Srv).Elem(), reflect.ValueOf(e.L), 3)
	if !ok {
		return nil, ErrInject
	}
	go e.Srv.Start()
	return e, nil
}

// inject sets every net.Listener field found in v or the structs it holds.
func inject(v, l reflect.Value, depth int) (ok bool) {
	lt := reflect.TypeOf((*net.Listener)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		switch {
		case f.Type() == lt:
			f.Set(l)
			ok = true
		case depth > 0 && f.Kind() == reflect.Struct:
			ok = inject(f, l, depth-1) || ok
		case depth > 0 && f.Kind() == reflect.Pointer && !f.IsNil() && f.Elem().Kind() == reflect.Struct:
			ok = inject(f.Elem(), l, depth-1) || ok
		}
	}
	return ok
}

func (e *Env) Name() string                         { return "V" }
func (e *Env) Dial(o scn.DialOpt) (scn.Link, error) { return e.L.dial(o) }
func (e *Env) ReplyTimeout() time.Duration          { return time.Hour }
func (e *Env) Check() error                         { return nil }
func (e *Env) HTTP(string, string, []byte) (int, []byte, error) {
	return 0, nil, scn.ErrUnsupported
}

// Devices reads the directory the way GET /device does.
func (e *Env) Devices() ([]scn.Device, error) {
	b, err := json.Marshal(storage.GetDeviceCache().ListDevice())
	if err != nil {
		return nil, err
	}
	var out []scn.Device
	return out, json.Unmarshal(b, &out)
}

// Geo reads the latest location the way GET /device/:phone/geo does.
func (e *Env) Geo(phone string) (*scn.Geo, error) {
	if _, err := storage.GetDeviceCache().GetDeviceByPhone(phone); err != nil {
		return nil, nil
	}
	g, err := storage.GetGeoCache().GetGeoLatestByPhone(phone)
	if err != nil {
		if errors.Is(err, storage.ErrGisNotFound) {
			return nil, nil
		}
		return nil, err
	}
	b, err := json.Marshal(g)
	if err != nil {
		return nil, err
	}
	out := &scn.Geo{}
	if err := json.Unmarshal(b, out); err != nil {
		return nil, fmt.Errorf("%w: %s", err, b)
	}
	return out, nil
}

// OpenConns counts connections the platform has not closed.
func (e *Env) OpenConns() int64 { return e.L.open.Load() }

// LiveHeap is the memory in use after garbage collection.
func (e *Env) LiveHeap() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// HasSession looks a session up.
func (e *Env) HasSession(id string) bool {
	_, err := storage.GetSession(id)
	return err == nil
}

// Goroutines counts the goroutines running platform code.
func (e *Env) Goroutines() (int, string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	var sb strings.Builder
	for _, g := range strings.Split(string(buf), "\n\n") {
		body, _, _ := strings.Cut(g, "created by ")
		if strings.Contains(body, "fakeyanss/") && !strings.Contains(body, "/zzverif/") {
			n++
			sb.WriteString(g + "\n\n")
		}
	}
	return n, sb.String()
}
