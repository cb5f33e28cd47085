package scn

import (
	"fmt"
	"runtime/debug"
	"sync"
)

// Scenario is a named workload with its oracle.
type Scenario struct {
	Name string
	Fn   func(*Ctx)
}

// Registry of all scenarios by name.
var Registry = map[string]func(*Ctx){}

// Register adds a scenario.
func Register(name string, fn func(*Ctx)) {
	if Registry[name] != nil {
		panic("duplicate scenario " + name)
	}
	Registry[name] = fn
}

// RunSafe runs fn; abort panics are swallowed, anything else is a harness error.
func RunSafe(fn func()) (err error) {
	defer func() {
		switch v := recover().(type) {
		case nil:
		case abort:
		case HarnessErr:
			err = v
		default:
			err = fmt.Errorf("harness panic: %v\n%s", v, debug.Stack())
		}
	}()
	fn()
	return nil
}

// Par runs fn in n goroutines with forked contexts and waits for all.
func (c *Ctx) Par(n int, fn func(i int, c *Ctx)) {
	var wg sync.WaitGroup
	errs := make([]error, n)
	for i := 0; i < n; i++ {
		f := c.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = RunSafe(func() { fn(i, f) })
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			panic(HarnessErr{e})
		}
	}
	if c.Failed() {
		Abort()
	}
}

// Barrier releases n participants at once.
type Barrier struct {
	mu sync.Mutex
	n  int
	ch chan struct{}
}

func NewBarrier(n int) *Barrier { return &Barrier{n: n, ch: make(chan struct{})} }

func (b *Barrier) Wait() {
	b.mu.Lock()
	b.n--
	if b.n == 0 {
		close(b.ch)
	}
	b.mu.Unlock()
	<-b.ch
}

// NoPlatform marks scenarios that drive package APIs directly, in real time.
var NoPlatform = map[string]bool{}
