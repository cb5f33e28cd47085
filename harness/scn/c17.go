package scn

import (
	"bytes"
	"slices"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c17", c17)
	Register("c17mem", c17mem)
	Register("c17churn", c17churn)
	Register("c17lives", c17lives)
}

// Inside is offered by the in-process environment.
type Inside interface {
	OpenConns() int64          // connections the platform has not closed
	HasSession(id string) bool // session lookup by remote address
	Goroutines() (int, string) // platform goroutines
	LiveHeap() int64
}

// Proc is offered by environments with a server process.
type Proc interface {
	FDs() (int, error) // open descriptors, idle HTTP connections excluded
	RSS() (int64, error)
	LiveHeaps() []int                 // MB after each garbage collection
	Goroutines() (int, string, error) // ends the process
}

// c17End drives one connection into some state and ends it; it returns a
// description and the connection.
func (c *Ctx) c17End(virtual bool) (string, *Term) {
	r := c.R
	t := c.DialOpt(DialOpt{ReadChunk: Chunker(r), SmallBuf: r.Intn(6) == 0})
	d := c.RandDev().On(t)
	state := r.Intn(14)
	desc := ""
	reg := func() { must(d.Register()) }
	up := func() { must(d.Register() && d.Auth()) }
	switch state {
	case 0:
		desc = "fresh"
	case 1:
		desc = "registered"
		reg()
	case 2:
		desc = "authenticated"
		up()
	case 3:
		desc = "located"
		up()
		must(d.Locate(c.RandLoc()))
	case 4:
		desc = "logged out"
		up()
		must(d.Logout())
	case 5:
		desc = "failed authentication"
		reg()
		must(d.BadAuth("nope"))
	case 6:
		desc = "inside a frame"
		if r.Intn(2) == 0 {
			up()
		}
		f := d.MLoc(c.RandLoc()).Frame()
		t.Raw(f[:1+r.Intn(len(f)-1)])
	case 7:
		desc = "between fragments"
		up()
		b := c.RandLoc().Body()
		m := d.Cut(0x0200, b, []int{10, 20})[0]
		must(d.do(m, 0))
	case 8:
		desc = "corrupted frame"
		if r.Intn(2) == 0 {
			up()
		}
		t.Raw(c.badFrame(d.MBeat().Frame()))
	case 9:
		desc = "unsupported message"
		if r.Intn(2) == 0 {
			up()
		}
		t.Send(d.Msg(Unsupported[r.Intn(len(Unsupported))], nil))
	case 10:
		desc = "unread answers"
		up()
		var ms []*jt.Msg
		n := 30
		if !virtual { // each costs the platform a second once the peer is gone
			n = 4
		}
		for k := 0; k < n; k++ {
			ms = append(ms, d.MBeat())
		}
		t.Send(ms...)
	case 11: // the platform refuses and closes
		desc = "refused message"
		var m *jt.Msg
		switch r.Intn(4) {
		case 0:
			m = d.MBeat()
		case 1:
			m = d.MAuth("x")
		case 2:
			m = d.MLoc(c.RandLoc())
		case 3:
			m = d.Cut(0x0200, c.RandLoc().Body(), []int{10})[0]
		}
		t.Send(m)
		if _, ok := t.WaitClosed(); !ok {
			c.Violate("connection of a refused terminal is not closed")
			Abort()
		}
	case 12:
		desc = "hostile message"
		if r.Intn(2) == 0 {
			up()
		}
		t.Raw(c.hostile(d))
	case 13:
		desc = "reconnected"
		up()
		n := c.Dial()
		d.On(n)
		must(d.Auth())
		n.Close()
	}
	if r.Intn(3) == 0 {
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
	}
	switch e := r.Intn(5); {
	case e == 0:
		desc += ", reset"
		t.L.Reset()
	case e == 1:
		desc += ", half-closed"
		t.L.CloseWrite()
		if _, ok := t.WaitClosed(); !ok && t.Bad() == nil {
			c.Violate("the platform keeps its side open after a half-close: %s", desc)
			Abort()
		}
		t.Close()
	case e == 2 && virtual && (state >= 1 && state <= 3 || state == 6 || state == 7):
		if state != 6 || d.Code != "" {
			desc += ", expired"
			if _, ok := t.WaitClosed(); !ok && t.Bad() == nil {
				c.Violate("silent device's connection not closed: %s", desc)
				Abort()
			}
		}
		t.Close()
	default:
		desc += ", closed"
		t.Close()
	}
	return desc, t
}

type usage17 struct{ Conns, Goroutines, FDs int }

func (u usage17) within(w usage17) bool {
	return u.Conns <= w.Conns && u.Goroutines <= w.Goroutines && u.FDs <= w.FDs
}

func (u usage17) min(w usage17) usage17 {
	return usage17{min(u.Conns, w.Conns), min(u.Goroutines, w.Goroutines), min(u.FDs, w.FDs)}
}

// c17: usage returns to where it was after any number of ended connections.
func c17(c *Ctx) {
	in, inside := c.Env.(Inside)
	pr, proc := c.Env.(Proc)
	batch := func(n int) (ids []string, descs []string) {
		type res struct{ id, d string }
		ch := make(chan res, n)
		c.Par(8, func(w int, c *Ctx) {
			for k := w; k < n; k += 8 {
				d, t := c.c17End(inside)
				c.Rec.Event("end: "+d, 1)
				ch <- res{t.L.ID(), d}
			}
		})
		close(ch)
		for r := range ch {
			ids, descs = append(ids, r.id), append(descs, r.d)
		}
		return
	}
	usage := func() (u usage17) {
		if inside {
			g, _ := in.Goroutines()
			u.Conns, u.Goroutines = int(in.OpenConns()), g
		}
		if proc {
			n, err := pr.FDs()
			if err != nil {
				if e := c.Env.Check(); e != nil {
					c.Violate("platform ended: %v", e)
					Abort()
				}
				Harness("descriptors: %v", err)
			}
			u.FDs = n
		}
		return u
	}
	settle := func(want usage17) (u usage17) {
		for k := 0; k < 240; k++ {
			if u = usage(); u.within(want) {
				return u
			}
			time.Sleep(250 * time.Millisecond)
		}
		return u
	}
	// warm up: lazily started goroutines and descriptors
	batch(40)
	time.Sleep(3 * time.Second)
	for k := 0; inside && in.OpenConns() != 0 && k < 240; k++ { // a second per frame in error
		time.Sleep(250 * time.Millisecond)
	}
	base := usage()
	for k := 0; k < 6; k++ { // the smallest usage seen is where it starts
		time.Sleep(500 * time.Millisecond)
		base = base.min(usage())
	}
	if inside && in.OpenConns() != 0 {
		c.Violate("%d connections are still open after the warm-up", in.OpenConns())
		return
	}
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		n := 40
		ids, descs := batch(n)
		u := settle(base)
		if !u.within(base) {
			st := ""
			if inside {
				_, st = in.Goroutines()
				if len(st) > 3000 {
					st = st[:3000]
				}
			}
			c.Violate("after %d ended connections the platform still holds %+v, before %+v; endings %v\n%s", n, u, base, descs, st)
			return
		}
		base = base.min(u)
		if inside {
			for k, id := range ids {
				if in.HasSession(id) {
					c.Violate("session %s is still known after its connection ended (%s)", id, descs[k])
					return
				}
			}
		}
		for _, d := range descs {
			c.Rec.Case("%s", d)
		}
		c.Rec.Event("connections_ended", int64(n))
		if i == 0 {
			c.Rec.Sample(map[string]any{"usage_before_and_after": base, "some_endings": descs[:8]})
		}
	}
}

// c17mem: endless frames.
func c17mem(c *Ctx) {
	pr, proc := c.Env.(Proc)
	const conns, mb = 6, 48
	var before int64
	if proc {
		var err error
		if before, err = pr.RSS(); err != nil {
			Harness("rss: %v", err)
		}
	}
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		var ds []*Dev
		for k := 0; k < conns; k++ {
			ds = append(ds, c.Up(c.RandVer()))
		}
		peak := int64(0)
		c.Par(conns, func(w int, c *Ctx) {
			d := ds[w]
			chunk := bytes.Repeat([]byte{[]byte{'A', 0x7d, 0x00, 0x02}[w%4]}, 1<<20)
			total := mb
			if !proc {
				total = 3
			}
			if w > 3 { // without a start delimiter
				if err := d.T.Raw(chunk[:1]); err != nil {
					c.Violate("connection lost: %v", err)
					Abort()
				}
			} else {
				d.T.Raw([]byte{0x7e})
			}
			for k := 0; k < total; k++ {
				if err := d.T.Raw(chunk); err != nil {
					c.Violate("connection lost during a long frame: %v", err)
					Abort()
				}
			}
		})
		if proc {
			for k := 0; k < 20; k++ {
				if m, err := pr.RSS(); err == nil && m > peak {
					peak = m
				}
				time.Sleep(20 * time.Millisecond)
			}
			if peak-before > 64<<20 {
				c.Violate("resident memory grew by %d MB while %d connections sent an endless frame of %d MB each", (peak-before)>>20, conns, mb)
				return
			}
			c.Rec.Event("peak_growth_kb", (peak-before)>>10)
		}
		for w, d := range ds {
			// the long frame ends; frames after it are processed again
			if w <= 3 {
				must(d.T.Raw([]byte{0x7e}) == nil)
			}
			must(d.Beat())
			l := c.RandLoc()
			must(d.Locate(l))
			if err := MatchGeo(c.GetGeo(d.Phone), d.Phone, l); err != nil {
				c.Violate("after an endless frame: %v", err)
				return
			}
			must(d.Logout())
			c.ExpectSilence(d.T, "after an endless frame")
			d.T.Close()
			c.Rec.Case("endless %d %d", w, i)
		}
	}
}

// c17churn: memory of devices and connections that are gone is released.
// Scale is the number of devices.
func c17churn(c *Ctx) {
	pr, proc := c.Env.(Proc)
	if !proc {
		Harness("c17churn needs a process")
	}
	const par, size = 8, 48 << 10
	round := func(n int) {
		c.Par(par, func(w int, c *Ctx) {
			for k := w; k < n && !c.Failed(); k += par {
				t := c.Dial()
				d := c.RandDev().On(t)
				must(d.Register())
				must(d.Auth())
				l := c.RandLoc()
				l.Extra = make([]byte, 900)
				must(d.Locate(l))
				// most of a large message
				var cuts []int
				for at := 1000; at < size; at += 1000 {
					cuts = append(cuts, at)
				}
				ms := d.Cut(0x0200, append(c.RandLoc().Body(), make([]byte, size-28)...), cuts)
				ms = ms[:len(ms)-1]
				must(t.Send(ms...) == nil)
				for _, m := range ms {
					must(d.ExpectAns(m, 0))
				}
				if c.R.Intn(2) == 0 {
					must(d.Logout())
				} else {
					must(d.BadAuth("nope"))
				}
				t.Close()
				c.Rec.Event("devices_come_and_gone", 1)
			}
		})
	}
	rss := func() int64 {
		m, err := pr.RSS()
		if err != nil {
			if e := c.Env.Check(); e != nil {
				c.Violate("platform ended: %v", e)
				Abort()
			}
			Harness("rss: %v", err)
		}
		return m
	}
	round(c.Scale / 4)
	before := rss()
	round(c.Scale)
	after := rss()
	c.Rec.Event("rss_growth_kb", (after-before)>>10)
	c.Rec.Case("churn %d", c.Scale)
	if after-before > int64(c.Scale)*size/2 {
		c.Violate("resident memory grew by %d KB for %d devices that came, sent %d KB each and left", (after-before)>>10, c.Scale, size>>10)
	}
}

// c17lives: a great number of short device lives of all kinds leave no memory,
// no goroutine and no descriptor behind. Scale is the number of lives.
func c17lives(c *Ctx) {
	in, inside := c.Env.(Inside)
	pr, proc := c.Env.(Proc)
	const par = 8
	round := func(n int) {
		c.Par(par, func(w int, c *Ctx) {
			for k := w; k < n && !c.Failed(); k += par {
				c.life17(proc)
				c.Rec.Event("device_lives", 1)
			}
		})
		if inside { // those that did not log out expire
			time.Sleep(5 * time.Minute)
		} else {
			time.Sleep(1500 * time.Millisecond)
		}
	}
	usage := func() (mem int64, fds int) {
		if inside {
			return in.LiveHeap(), int(in.OpenConns())
		}
		var err error
		if fds, err = pr.FDs(); err == nil {
			mem, err = pr.RSS()
		}
		if err != nil {
			if e := c.Env.Check(); e != nil {
				c.Violate("platform ended: %v", e)
				Abort()
			}
			Harness("usage: %v", err)
		}
		return
	}
	// equal batches, so that the peak usage is the same in all of them
	size := min(c.Scale, 1500)
	round(size)
	round(size)
	m0, f0 := usage()
	var heaps []int
	if proc {
		heaps = pr.LiveHeaps()
	}
	for n := 0; n < c.Scale && !c.Failed(); n += size {
		round(size)
	}
	m1, f1 := usage()
	for k := 0; k < 40 && f1 > f0; k++ {
		time.Sleep(500 * time.Millisecond)
		m1, f1 = usage()
	}
	c.Rec.Case("lives %d", c.Scale)
	c.Rec.Event("memory_growth_kb", (m1-m0)>>10)
	limit := int64(c.Scale)*64 + 512<<10 // live heap is exact
	if proc {
		limit = int64(c.Scale)*700 + 12<<20
	}
	if m1-m0 > limit {
		c.Violate("memory grew by %d KB over %d device lives that are all over", (m1-m0)>>10, c.Scale)
	}
	if f1 > f0 {
		c.Violate("%d connections or descriptors more than before after %d device lives that are all over", f1-f0, c.Scale)
	}
	if proc && !c.Failed() {
		// the smallest live heap of the first batches and of the last ones
		if now := pr.LiveHeaps(); len(heaps) >= 4 && len(now) >= len(heaps)+8 {
			h0, h1 := slices.Min(heaps[len(heaps)/2:]), slices.Min(now[len(now)-4:])
			c.Rec.Event("garbage_collections_watched", int64(len(now)))
			c.Rec.Event("live_heap_growth_mb", int64(h1-h0))
			if int64(h1-h0)<<20 > int64(c.Scale)*100+2<<20 {
				c.Violate("live heap grew from %d to %d MB over %d device lives that are all over", h0, h1, c.Scale)
			}
		}
		n, dump, err := pr.Goroutines()
		if err != nil {
			Harness("goroutines: %v", err)
		}
		c.Rec.Event("goroutines_at_the_end", int64(n))
		if n > 60 {
			c.Violate("%d goroutines are left after %d device lives that are all over:\n%.4000s", n, c.Scale, dump)
		}
		if n == 0 {
			Harness("no goroutine dump: %.300s", dump)
		}
	}
}

// life17 is one short life of a device.
func (c *Ctx) life17(proc bool) {
	r := c.R
	t := c.Dial()
	defer t.Close()
	d := c.RandDev().On(t)
	if r.Intn(4) == 0 { // a terminal nobody knows
		must(t.Send([]*jt.Msg{d.MBeat(), d.MLoc(c.RandLoc()), d.MLoc(c.RandLoc()), d.MAuth("1"), d.MOut(), d.Cut(0x0200, c.RandLoc().Body(), []int{9})[0]}[r.Intn(6)]) == nil)
		if x, closed := t.WaitClosed(); !closed || len(x) > 0 {
			c.Violate("message of an unregistered terminal: frames %v closed %v", x, closed)
			Abort()
		}
		return
	}
	must(d.Register())
	stay := !proc && r.Intn(4) == 0
	if r.Intn(8) > 0 {
		must(d.Auth())
	}
	for k := r.Intn(6); k > 0; k-- {
		switch r.Intn(8) {
		case 0:
			must(d.Beat())
		case 1, 2:
			must(d.Locate(c.RandLoc()))
		case 3:
			b := c.RandLoc().Body()
			ms := d.Cut(0x0200, b, []int{5, 9})
			if r.Intn(2) == 0 {
				ms = ms[:1+r.Intn(2)]
			}
			must(t.Send(ms...) == nil)
			for _, m := range ms {
				must(d.ExpectAns(m, 0))
			}
		case 4:
			c.timeQuery(d)
		case 5:
			if res, _ := d.DoReg(); res < 1 {
				if res == 0 {
					c.Violate("second registration of %s accepted", d.Phone)
				}
				Abort()
			}
		case 6:
			must(t.Send(d.MQuiet(r)) == nil)
			must(d.Beat())
		case 7:
			if proc {
				c.Command(d, t, "command")
			} else { // moves to a new connection
				n := c.Dial()
				defer n.Close()
				d.On(n)
				must(d.Auth())
				t = n
			}
		}
	}
	for k := r.Intn(6); proc && k > 0; k-- {
		c.Command(d, t, "command")
	}
	switch {
	case stay && r.Intn(2) == 0:
		t.L.Reset()
	case stay:
	case r.Intn(2) == 0:
		must(d.Logout())
	default:
		must(d.BadAuth("nope"))
	}
}
