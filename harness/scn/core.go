// Package scn holds the workloads and oracles. They observe the platform only
// through Env: its connections, its directory and its HTTP interface.
package scn

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

// Link is one transport connection to the platform, terminal side.
type Link interface {
	io.ReadWriteCloser
	CloseWrite() error // half close
	Reset()            // abortive close
	ID() string        // remote address as the platform sees it
}

// DialOpt are transport faults (honoured by V; S honours Addr and RcvBuf).
type DialOpt struct {
	ReadChunk func(avail int) int // how many bytes one platform Read gets
	Partial   func(n int) int     // how many bytes one platform Write accepts
	Addr      string              // terminal address to use ("" = fresh)
	SmallBuf  bool                // tiny buffer towards the terminal
}

// Device is the directory view of a device.
type Device struct {
	ID              string `json:"id"`
	Plate           string `json:"plate"`
	Phone           string `json:"phone"`
	SessionID       string `json:"sessionId"`
	TransProto      string `json:"transProto"`
	Status          int    `json:"status"`
	VersionDesc     int    `json:"versionDesc"`
	ProtocolVersion int    `json:"protocolVersion"`
	AuthCode        string `json:"authcode"`
	IMEI            string `json:"imei"`
	SoftwareVersion string `json:"softwareVersion"`
	LastComTime     string `json:"lastComTime"`
}

// Geo is the location view.
type Geo struct {
	Phone    string         `json:"phone"`
	Gis      map[string]any `json:"gis"`
	Location struct {
		Latitude  float64 `json:"latitude"`
		Longitude float64 `json:"longitude"`
		Altitude  int     `json:"altitude"`
	} `json:"location"`
	Drive struct {
		Speed     float64 `json:"speed"`
		Direction int     `json:"direction"`
	} `json:"drive"`
	Time time.Time `json:"time"`
}

// ErrUnsupported is returned by an Env that lacks a facility.
var ErrUnsupported = errors.New("not supported by this environment")

// Env is the platform under observation.
type Env interface {
	Name() string // "V" or "S"
	Dial(o DialOpt) (Link, error)
	Devices() ([]Device, error)
	Geo(phone string) (*Geo, error) // nil, nil: no location
	HTTP(method, path string, body []byte) (status int, resp []byte, err error)
	ReplyTimeout() time.Duration // after this long without reaction there is none
	Check() error                // platform still alive
}

// Harness error: the run is inconclusive.
type HarnessErr struct{ Err error }

func (h HarnessErr) Error() string { return h.Err.Error() }

// Violation is a refutation witnessed by this run.
type Violation struct {
	Prop   string `json:"property"`
	Msg    string `json:"what"`
	Detail any    `json:"detail,omitempty"`
}

// Rec collects what the monitors observed.
type Rec struct {
	mu       sync.Mutex
	Evals    int64            `json:"evals"`
	Distinct map[string]bool  `json:"-"`
	Hashes   []string         `json:"hashes"`
	Events   map[string]int64 `json:"events"`
	Samples  []any            `json:"samples"`
	Viol     []Violation      `json:"violations"`
	Stats    map[string]int64 `json:"stats"`
	trivial  int64
}

func NewRec() *Rec {
	return &Rec{Distinct: map[string]bool{}, Events: map[string]int64{}, Stats: map[string]int64{}}
}

// Case records one evaluated case identified by key.
func (r *Rec) Case(format string, a ...any) {
	h := sha256.Sum256([]byte(fmt.Sprintf(format, a...)))
	k := hex.EncodeToString(h[:6])
	r.mu.Lock()
	r.Evals++
	r.Distinct[k] = true
	r.mu.Unlock()
}

// Event counts an observation.
func (r *Rec) Event(k string, n int64) {
	r.mu.Lock()
	r.Events[k] += n
	r.mu.Unlock()
}

// Sample keeps a few written-out cases.
func (r *Rec) Sample(v any) {
	r.mu.Lock()
	if len(r.Samples) < 4 {
		r.Samples = append(r.Samples, v)
	}
	r.mu.Unlock()
}

// NViol is the number of violations so far.
func (r *Rec) NViol() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Viol)
}

func (r *Rec) violate(prop, msg string, detail any) {
	r.mu.Lock()
	if len(r.Viol) < 20 {
		r.Viol = append(r.Viol, Violation{prop, msg, detail})
	}
	r.mu.Unlock()
}

// Finish prepares the record for serialisation.
func (r *Rec) Finish() []byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k := range r.Distinct {
		r.Hashes = append(r.Hashes, k)
	}
	sort.Strings(r.Hashes)
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	return b
}

// Ctx is what a scenario gets.
type Ctx struct {
	Env    Env
	Prop   string
	R      *rand.Rand
	Rec    *Rec
	Scale  int // amount of work
	Worker int
	Race   bool
	noTwin bool // the scenario makes look-alike numbers itself
	lanes  uint64
	terms  sync.Map
}

// Violate records a violation of the property being checked.
func (c *Ctx) Violate(format string, a ...any) {
	c.Rec.violate(c.Prop, fmt.Sprintf(format, a...), nil)
}

// ViolateD is Violate with a detail object.
func (c *Ctx) ViolateD(detail any, format string, a ...any) {
	c.Rec.violate(c.Prop, fmt.Sprintf(format, a...), detail)
}

// Failed reports whether a violation was recorded.
func (c *Ctx) Failed() bool { return c.Rec.NViol() > 0 }

// Fork derives a context with an independent deterministic random source.
func (c *Ctx) Fork() *Ctx {
	n := &Ctx{Env: c.Env, Prop: c.Prop, R: rand.New(rand.NewSource(c.R.Int63())), Rec: c.Rec, Scale: c.Scale, Worker: c.Worker, Race: c.Race, noTwin: c.noTwin}
	return n
}

var uniq atomic.Uint64

// Uniq returns a process-wide unique number.
func Uniq() uint64 { return uniq.Add(1) }

// Harness aborts the run as inconclusive.
func Harness(format string, a ...any) {
	panic(HarnessErr{fmt.Errorf(format, a...)})
}

// Rx is one received frame.
type Rx struct {
	*jt.Msg
	Raw []byte
	At  time.Time
}

// Term is a terminal side connection with a monitoring reader.
type Term struct {
	c     *Ctx
	L     Link
	sig   chan struct{} // something was queued
	done  chan struct{} // reader finished
	mu    sync.Mutex
	q     []Rx  // received, not yet taken
	bad   error // malformed stream
	rderr error
	n     int
	wmu   sync.Mutex
	all   []Rx
	keep  bool
}

// Dial opens a connection with default behaviour.
func (c *Ctx) Dial() *Term { return c.DialOpt(DialOpt{}) }

// DialOpt opens a connection.
func (c *Ctx) DialOpt(o DialOpt) *Term {
	l, err := c.Env.Dial(o)
	if err != nil {
		if e := c.Env.Check(); e != nil {
			c.Violate("platform is gone: %v", e)
			panic(abort{})
		}
		// one patient retry: a loaded machine may refuse transiently
		time.Sleep(time.Second)
		l, err = c.Env.Dial(o)
		if err != nil {
			if e := c.Env.Check(); e != nil {
				c.Violate("platform is gone: %v", e)
				panic(abort{})
			}
			Harness("dial: %v", err)
		}
	}
	return c.Wrap(l)
}

// Wrap monitors an existing connection.
func (c *Ctx) Wrap(l Link) *Term {
	t := &Term{c: c, L: l, sig: make(chan struct{}, 1), done: make(chan struct{})}
	go t.read()
	return t
}

type abort struct{}

// IsAbort tells whether a recovered value ends a scenario after a violation.
func IsAbort(v any) bool { _, ok := v.(abort); return ok }

// Abort ends the scenario (a violation has been recorded).
func Abort() { panic(abort{}) }

func (t *Term) read() {
	defer close(t.done)
	var sp jt.Splitter
	buf := make([]byte, 8192)
	for {
		n, err := t.L.Read(buf)
		if n > 0 {
			frames, e := sp.Feed(buf[:n])
			for _, f := range frames {
				m, pe := jt.Parse(f)
				if pe != nil {
					e = pe
					break
				}
				t.mu.Lock()
				t.n++
				if t.keep {
					t.all = append(t.all, Rx{m, f, time.Now()})
				}
				t.q = append(t.q, Rx{m, f, time.Now()})
				t.mu.Unlock()
				t.wake()
			}
			if e != nil {
				t.mu.Lock()
				t.bad = e
				t.mu.Unlock()
				t.wake()
				// keep draining so the platform is not blocked, but stop delivering
				for {
					if _, err := t.L.Read(buf); err != nil {
						return
					}
				}
			}
		}
		if err != nil {
			t.mu.Lock()
			t.rderr = err
			if p := sp.Partial(); p != nil && t.bad == nil && errors.Is(err, io.EOF) {
				t.bad = fmt.Errorf("connection ended inside a frame: %x", p)
			}
			t.mu.Unlock()
			return
		}
	}
}

func (t *Term) wake() {
	select {
	case t.sig <- struct{}{}:
	default:
	}
}

// take returns the oldest frame not yet taken.
func (t *Term) take() (r Rx, ok bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.q) == 0 {
		return
	}
	r = t.q[0]
	t.q[0] = Rx{}
	if t.q = t.q[1:]; len(t.q) == 0 {
		t.q = nil
	} else {
		t.wake() // for other readers
	}
	return r, true
}

// wait is take with patience.
func (t *Term) wait(tm <-chan time.Time) (Rx, Outcome) {
	for {
		if r, ok := t.take(); ok {
			return r, Got
		}
		select {
		case <-t.done:
			if r, ok := t.take(); ok {
				return r, Got
			}
			if t.Bad() != nil {
				return Rx{}, Malformed
			}
			return Rx{}, Closed
		default:
		}
		if t.Bad() != nil {
			return Rx{}, Malformed
		}
		select {
		case <-t.sig:
		case <-t.done:
		case <-tm:
			return Rx{}, Silent
		}
	}
}

// Bad reports a malformed emitted stream, if any.
func (t *Term) Bad() error {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.bad
}

// Count is the number of frames received.
func (t *Term) Count() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.n
}

// Raw writes bytes to the platform.
func (t *Term) Raw(b []byte) error {
	t.wmu.Lock()
	defer t.wmu.Unlock()
	_, err := t.L.Write(b)
	return err
}

// Send writes messages in one go.
func (t *Term) Send(ms ...*jt.Msg) error {
	var b []byte
	for _, m := range ms {
		b = append(b, m.Frame()...)
	}
	return t.Raw(b)
}

// Outcome of waiting for a frame.
type Outcome int

const (
	Got Outcome = iota
	Closed
	Silent
	Malformed
)

func (o Outcome) String() string {
	return [...]string{"frame", "connection closed", "no reaction", "malformed stream"}[o]
}

// Next waits for the next frame, the close of the connection, or the decision
// that neither will come.
func (t *Term) Next() (Rx, Outcome) { return t.NextFor(t.c.Env.ReplyTimeout()) }

// NextFor is Next with an explicit patience.
func (t *Term) NextFor(d time.Duration) (Rx, Outcome) {
	if r, ok := t.take(); ok {
		return r, Got
	}
	tm := time.NewTimer(d)
	defer tm.Stop()
	return t.wait(tm.C)
}

// Describe explains an outcome in a violation message.
func (t *Term) Describe(r Rx, o Outcome) string {
	switch o {
	case Got:
		return "frame " + r.Msg.String()
	case Malformed:
		return "malformed stream: " + t.Bad().Error()
	}
	return o.String()
}

// WaitClosed waits until the platform closed the connection; frames received
// meanwhile are returned.
func (t *Term) WaitClosed() (extra []Rx, closed bool) {
	tm := time.NewTimer(t.c.Env.ReplyTimeout())
	defer tm.Stop()
	for {
		r, o := t.wait(tm.C)
		if o != Got {
			return extra, o == Closed
		}
		extra = append(extra, r)
	}
}

// Close closes the terminal side.
func (t *Term) Close() { t.L.Close() }

// Drain returns all frames available without waiting.
func (t *Term) Drain() (out []Rx) {
	for {
		r, ok := t.take()
		if !ok {
			return
		}
		out = append(out, r)
	}
}
