package scn

import (
	"fmt"
	"sync"
	"time"
)

func init() { Register("c18", c18) }

const (
	t18 = time.Minute     // keepalive period
	g18 = 3 * time.Second // granularity allowed
)

// dev18 is what the monitor knows about one device.
type dev18 struct {
	*Dev
	mu         sync.Mutex
	ver        int       // changes with every message
	busy       bool      // a message is in flight
	listed     bool      // registered, not removed by a message
	authed     bool      // authenticated in this incarnation
	strict     bool      // authenticated and never silent for T since
	off        bool      // seen offline since it was last known online
	gone       bool      // seen removed by expiry
	sent, ack  time.Time // newest acknowledged message
	other      time.Time // newest exchange that is neither heartbeat, report nor authentication
	registered time.Time
	located    bool
	hist       string
}

type snap18 struct {
	ver                               int
	busy, listed, authed, strict, off bool
	gone                              bool
	sent, ack, other                  time.Time
	term                              *Term
}

func (d *dev18) snap() snap18 {
	d.mu.Lock()
	defer d.mu.Unlock()
	return snap18{d.ver, d.busy, d.listed, d.authed, d.strict, d.off, d.gone, d.sent, d.ack, d.other, d.T}
}

// msg runs one exchange; ok tells whether it was acknowledged.
func (d *dev18) msg(what string, f func() bool, after func()) bool {
	d.mu.Lock()
	d.ver++
	d.busy = true
	t0 := time.Now()
	d.hist += fmt.Sprintf(" +%.2f%s", t0.Sub(d.registered).Seconds(), what)
	d.mu.Unlock()
	ok := f()
	d.mu.Lock()
	defer d.mu.Unlock()
	d.ver++
	d.busy = false
	if ok {
		if t0.Sub(d.ack) > t18 {
			d.strict = false
		}
		d.sent, d.ack = t0, time.Now()
		after()
	}
	return ok
}

func (d *dev18) register() {
	d.mu.Lock()
	d.listed, d.authed, d.strict, d.off, d.gone, d.located = false, false, false, false, false, false
	d.registered, d.ack = time.Now(), time.Now()
	d.hist = "register"
	d.mu.Unlock()
	must(d.msg("reg", d.Register, func() { d.listed = true }))
}
func (d *dev18) auth() {
	must(d.msg("auth", d.Auth, func() { d.authed, d.strict, d.off = true, true, false }))
}
func (d *dev18) talk(c *Ctx) {
	if c.R.Intn(2) == 0 {
		must(d.msg("beat", d.Beat, func() {}))
	} else if c.R.Intn(6) == 0 { // a report in fragments
		l := c.RandLoc()
		b := l.Body()
		ms := d.Cut(0x0200, b, []int{9, 20})
		must(d.msg("locfrag", func() bool {
			for _, m := range ms {
				if !d.do(m, 0) {
					return false
				}
			}
			return true
		}, func() { d.located = true }))
	} else {
		l, what := c.RandLoc(), "loc"
		if c.R.Intn(2) == 0 { // engine off: the device sleeps
			l.Status &^= 1
			what = "loc0"
		}
		must(d.msg(what, func() bool { return d.Locate(l) }, func() { d.located = true }))
	}
}

// chat exchanges something that is neither a heartbeat nor a report: it must not
// shorten the life of the device (whether it prolongs it is left open).
func (d *dev18) chat(c *Ctx) {
	d.mu.Lock()
	d.ver++
	d.busy = true
	d.hist += fmt.Sprintf(" +%.2fchat", time.Since(d.registered).Seconds())
	d.mu.Unlock()
	switch c.R.Intn(4) {
	case 0, 1: // the beginning of a message
		m := d.Cut(0x0200, c.RandLoc().Body(), []int{10, 20})[0]
		must(d.do(m, 0))
	case 2:
		c.timeQuery(d.Dev)
	case 3:
		if res, _ := d.DoReg(); res < 1 {
			if res == 0 {
				c.Violate("second registration of %s accepted", d.Phone)
			}
			Abort()
		}
	}
	c.Rec.Event("other_exchanges", 1)
	d.mu.Lock()
	d.ver++
	d.busy = false
	d.other = time.Now()
	d.mu.Unlock()
}

func (d *dev18) remove(c *Ctx) {
	d.mu.Lock()
	d.listed = false
	d.mu.Unlock()
	if c.R.Intn(2) == 0 {
		must(d.msg("logout", d.Logout, func() {}))
	} else {
		must(d.msg("badauth", func() bool { return d.BadAuth("no") }, func() {}))
	}
}

// gap picks a pause shorter than T; many end near T or near the time of a check.
func (d *dev18) gap(c *Ctx) time.Duration {
	lim := t18 - 100*time.Millisecond
	if c.Env.Name() != "V" {
		lim = t18 - 6*time.Second
	}
	switch c.R.Intn(4) {
	case 0:
		return lim - time.Duration(c.R.Intn(500))*time.Millisecond
	case 1:
		return time.Duration(1+c.R.Intn(3000)) * time.Millisecond
	case 2: // just around a multiple of T after the registration
		since := time.Since(d.registered)
		g := (since/t18+1)*t18 - since + time.Duration(c.R.Intn(3)-1)*time.Duration(c.R.Intn(20))*time.Millisecond
		if g > 0 && g < lim {
			return g
		}
	}
	return time.Duration(c.R.Int63n(int64(lim)))
}

// c18: timelines of many devices against a directory sampled every second.
func c18(c *Ctx) {
	virtual := c.Env.Name() == "V"
	const n = 14
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		var ds []*dev18
		for k := 0; k < n; k++ {
			ds = append(ds, &dev18{Dev: c.RandDev().On(c.Dial())})
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		wg.Add(1)
		mc := c.Fork()
		var merr error
		go func() {
			defer wg.Done()
			merr = RunSafe(func() { monitor18(mc, ds, stop) })
		}()
		err := RunSafe(func() {
			c.Par(n, func(w int, c *Ctx) {
				d := ds[w]
				defer func() { d.T.Close() }()
				time.Sleep(time.Duration(c.R.Intn(61000)) * time.Millisecond)
				gens := 1
				if virtual {
					gens = 1 + c.R.Intn(2)
				}
				for gen := 0; gen < gens; gen++ {
					if !c.life18(d, virtual) {
						return
					}
				}
			})
		})
		close(stop)
		wg.Wait()
		for _, e := range []error{err, merr} {
			if e != nil {
				panic(e)
			}
		}
		if c.Failed() {
			Abort()
		}
		if i == 0 {
			c.Rec.Sample(map[string]any{"last_timeline_of_two_devices": []string{ds[0].hist, ds[1].hist}})
		}
	}
}

func (c *Ctx) life18(d *dev18, virtual bool) bool {
	r := c.R
	d.register()
	if r.Intn(3) == 0 {
		time.Sleep(time.Duration(r.Intn(55000)) * time.Millisecond)
	}
	kind := "never authenticated"
	if r.Intn(4) > 0 {
		d.auth()
		kind = "authenticated"
	}
	// an authenticated device talks for a while
	beats := r.Intn(7)
	if !virtual {
		beats = r.Intn(2)
	}
	if !d.authed {
		beats = r.Intn(2)
	}
	for k := 0; k < beats; k++ {
		g := d.gap(c)
		if r.Intn(4) == 0 {
			h := time.Duration(r.Int63n(int64(g)))
			time.Sleep(h)
			d.chat(c)
			if g -= h; r.Intn(2) == 0 {
				d.chat(c)
			}
		}
		time.Sleep(g)
		if d.authed && r.Intn(6) == 0 { // again, possibly from a new connection
			if r.Intn(2) == 0 {
				old := d.T
				d.mu.Lock()
				d.T = c.Dial()
				d.ver++
				d.mu.Unlock()
				d.auth()
				if r.Intn(2) == 0 {
					old.Close()
				} else {
					go func() { time.Sleep(100 * time.Second); old.Close() }()
				}
			} else {
				d.auth()
			}
			continue
		}
		d.talk(c)
	}
	end := r.Intn(6)
	switch {
	case end == 0: // removal by message, often near a check
		time.Sleep(d.gap(c))
		d.remove(c)
		c.Rec.Case("%s %d removed by message %s", kind, beats, d.hist)
		c.Rec.Event("removed_by_message", 1)
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(70000)) * time.Millisecond)
		}
		return true
	case end == 1 && d.authed: // silent until offline, then talks again
		if !c.wait18(d, func(s snap18) bool { return s.off || s.gone }) {
			return false
		}
		if d.snap().gone {
			c.Violate("device %s was removed without having been reported offline:%s", d.Phone, d.hist)
			return false
		}
		c.Rec.Event("seen_offline", 1)
		time.Sleep(time.Duration(r.Intn(40000)) * time.Millisecond)
		if r.Intn(2) == 0 {
			d.talk(c)
			time.Sleep(d.gap(c))
		}
		d.auth()
		for k := 0; k < r.Intn(4); k++ {
			time.Sleep(d.gap(c))
			d.talk(c)
		}
		kind += ", revived"
	case end == 2 && virtual: // messages at the very moment of a check
		s := time.Since(d.registered)
		at := (s/t18 + 1 + time.Duration(r.Intn(3))) * t18
		time.Sleep(at - s)
		acked := false
		what := "none"
		d.mu.Lock()
		d.busy = true
		d.ver++
		d.mu.Unlock()
		m := d.MBeat()
		what = "beat"
		if r.Intn(3) == 0 && d.authed {
			m, what = d.MAuth(d.Code), "auth"
		}
		t0 := time.Now()
		d.T.Send(m)
		x, o := d.T.Next()
		switch {
		case o == Got:
			if err := d.MatchAns(x.Msg, m, 0); err != nil {
				c.Violate("message at the moment of a check: %v", err)
				return false
			}
			acked = true
		case o == Closed:
		default:
			c.Violate("message at the moment of a check: %s", d.T.Describe(x, o))
			return false
		}
		d.mu.Lock()
		d.hist += fmt.Sprintf(" check+%.2f%s:%v", t0.Sub(d.registered).Seconds(), what, acked)
		d.ver++
		d.busy = false
		if acked {
			if t0.Sub(d.ack) > t18 {
				d.strict = false
			}
			d.sent, d.ack = t0, time.Now()
			if what == "auth" {
				d.strict, d.off = true, false
			}
		}
		d.mu.Unlock()
		c.Rec.Event(fmt.Sprintf("message_at_check_answered_%v", acked), 1)
		kind += ", at check"
	case end == 3: // the connection goes away as well
		time.Sleep(time.Duration(r.Intn(50000)) * time.Millisecond)
		d.T.Close()
		kind += ", disconnected"
	}
	// silence until it is gone
	if !c.wait18(d, func(s snap18) bool { return s.gone }) {
		return false
	}
	c.Rec.Event("expired", 1)
	c.Rec.Case("%s %d %s", kind, beats, d.hist)
	if x, closed := d.T.WaitClosed(); !closed || len(x) > 0 {
		c.Violate("connection of expired device %s: closed %v, %d frames", d.Phone, closed, len(x))
		return false
	}
	d.mu.Lock()
	d.T.Close()
	d.listed = false
	d.T = c.Dial()
	d.ver++
	d.mu.Unlock()
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Intn(65000)) * time.Millisecond)
	}
	return true
}

// wait18 waits until the monitor saw something; the monitor reports what comes too late.
func (c *Ctx) wait18(d *dev18, f func(snap18) bool) bool {
	for k := 0; k < 10*60*10; k++ {
		if c.Failed() {
			return false
		}
		if f(d.snap()) {
			return true
		}
		time.Sleep(100 * time.Millisecond)
	}
	c.Violate("device %s silent for ten minutes:%s", d.Phone, d.hist)
	return false
}

// monitor18 samples the directory and judges every device.
func monitor18(c *Ctx, ds []*dev18, stop chan struct{}) {
	g := g18
	for {
		select {
		case <-stop:
			return
		case <-time.After(time.Duration(300+c.R.Intn(700)) * time.Millisecond):
		}
		before := make([]snap18, len(ds))
		for i, d := range ds {
			before[i] = d.snap()
		}
		t0 := time.Now()
		dir := c.Dir()
		t1 := time.Now()
		for i, d := range ds {
			a, b := before[i], d.snap()
			if a.busy || b.busy || a.ver != b.ver || !a.listed {
				continue
			}
			e, ok := dir[d.Phone]
			// certainly silent for at least / at most
			least, most := t0.Sub(a.ack), t1.Sub(a.sent)
			if a.other.After(a.ack) {
				least = t0.Sub(a.other)
			}
			bad := ""
			switch {
			case a.gone && ok:
				bad = "came back after it expired"
			case a.gone:
			case !ok && most <= t18:
				bad = "removed although it communicated within the keepalive period"
			case !ok && a.authed && !a.off && a.strict:
				bad = "removed without having been reported offline"
			case ok && a.strict && most <= t18 && e.Status == 0:
				bad = "reported offline although it communicated within the keepalive period"
			case ok && least > 2*t18+g && e.Status != 0:
				bad = "still not reported offline"
			case ok && least > 3*t18+g:
				bad = "still not removed"
			}
			c.Rec.Event("samples", 1)
			if bad == "" && !ok && !a.gone {
				c.Rec.Event(fmt.Sprintf("removed_after_%ds", int(least.Seconds())/30*30), 1)
				if gg := c.GetGeo(d.Phone); gg != nil {
					bad = "removed but its location is still there"
				}
			}
			if bad != "" {
				c.Violate("device %s, silent for %v..%v, %s; registered %v ago, status %d:%s", d.Phone, least, most, bad, t1.Sub(d.registered), e.Status, d.hist)
				return
			}
			d.mu.Lock()
			if d.ver == a.ver {
				if !ok {
					d.gone = true
				} else if e.Status == 0 && a.authed {
					d.off = true
				}
			}
			d.mu.Unlock()
		}
	}
}
