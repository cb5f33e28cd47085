package scn

import (
	"fmt"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c08race", c08race)
	Register("c08", c08)
	Register("c08exp", c08exp)
}

// half is a transfer that was cut short by the removal of its device.
type half struct {
	phone string
	ms    []*jt.Msg
	sent  int
}

// halfSend sends some but not all fragments of a location report.
func (c *Ctx) halfSend(d *Dev) *half {
	b := c.RandLoc().Body()
	cuts := []int{1 + c.R.Intn(len(b)-2)}
	if cuts[0] < len(b)-1 && c.R.Intn(2) == 0 {
		cuts = append(cuts, cuts[0]+1+c.R.Intn(len(b)-cuts[0]-1))
	}
	h := &half{phone: d.Phone, ms: d.Cut(0x0200, b, cuts)}
	h.sent = 1 + c.R.Intn(len(h.ms)-1)
	for _, m := range h.ms[:h.sent] {
		must(d.do(m, 0))
	}
	return h
}

// halfRest: a later registration of the phone sends what was missing; nothing
// of the earlier transfer may take effect. hist is for the report.
func (c *Ctx) halfRest(d *Dev, h *half, hist string) {
	if h == nil || h.phone != d.Phone {
		return
	}
	var want *jt.Loc
	if c.R.Intn(2) == 0 {
		must(d.T.Send(h.ms[h.sent:]...) == nil)
	} else { // a whole new message under the same serial numbers
		want = c.RandLoc()
		b := want.Body()
		n := len(h.ms)
		at := 0
		for k := range h.ms {
			m := *h.ms[k]
			end := len(b)
			if k < n-1 {
				end = at + c.R.Intn(len(b)-at)
			}
			m.Ver, m.VerByte, m.Body = d.Ver, d.VerByte, b[at:end]
			at = end
			must(d.T.Send(&m) == nil)
		}
	}
	q := d.MBeat()
	must(d.T.Send(q) == nil)
	for {
		r, o := d.T.Next()
		if o != Got {
			c.Violate("history %s: remaining fragments of a transfer begun before the removal: %s", hist, d.T.Describe(r, o))
			Abort()
		}
		if d.MatchAns(r.Msg, q, 0) == nil {
			break
		}
	}
	g := c.GetGeo(d.Phone)
	if want == nil && g != nil {
		c.Violate("history %s: fragments received before the removal (%d of %d) completed a message of the new registration: %+v", hist, h.sent, len(h.ms), *g)
		Abort()
	}
	if want != nil {
		if err := MatchGeo(g, d.Phone, want); err != nil {
			c.Violate("history %s: fragments received before the removal (%d of %d) disturb a message of the new registration: %v", hist, h.sent, len(h.ms), err)
			Abort()
		}
	}
	c.Rec.Event("interrupted_transfers_continued", 1)
}

// c08: histories of register / use / remove / register again.
func c08(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		d := c.RandDev()
		d.On(c.Dial())
		var olds []*Term
		hist := ""
		var h *half
		for gen := 0; gen < 4; gen++ {
			must(d.Register())
			// clean record
			e := c.Find(d.Phone)
			if err := d.MatchDevice(e, false); err != nil {
				c.Violate("history %s, new registration: %v", hist, err)
				return
			}
			if e.Status != 0 || e.SessionID != d.T.L.ID() {
				c.Violate("history %s, new registration: status %d, connection %s instead of %s", hist, e.Status, e.SessionID, d.T.L.ID())
				return
			}
			if g := c.GetGeo(d.Phone); g != nil {
				c.Violate("history %s: location of an earlier registration shows through: %+v", hist, *g)
				return
			}
			c.Rec.Event("fresh_records_checked", 1)
			if c.R.Intn(2) == 0 {
				c.halfRest(d, h, hist)
			}
			h = nil
			// use
			authed := c.R.Intn(4) > 0
			if authed {
				must(d.Auth())
				hist += "auth,"
			}
			n := []int{0, 1, 2, 3, 3, 3}[c.R.Intn(6)]
			if c.R.Intn(20) == 0 {
				n = 130
			}
			for k := 0; k < n; k++ {
				must(d.Locate(c.RandLoc()))
			}
			if n > 0 {
				hist += "loc,"
				if c.GetGeo(d.Phone) == nil {
					c.Violate("history %s: no location after reports", hist)
					return
				}
			}
			if c.R.Intn(4) == 0 {
				must(d.Beat())
			}
			if c.R.Intn(3) == 0 && gen > 0 && len(olds) > 0 { // old connections disappear late
				olds[0].Close()
				olds = olds[1:]
				must(d.Beat())
				if c.Find(d.Phone) == nil {
					c.Violate("history %s: end of an old connection removed the new registration", hist)
					return
				}
			}
			if authed && c.R.Intn(2) == 0 {
				hist += c.Vary(d)
			}
			if c.R.Intn(3) == 0 {
				h = c.halfSend(d)
				hist += fmt.Sprintf("frag %d/%d,", h.sent, len(h.ms))
			}
			// remove
			via := d.T
			if c.R.Intn(3) == 0 {
				via = c.Dial()
			}
			rm := *d
			rm.On(via)
			if c.R.Intn(2) == 0 {
				must(rm.Logout())
				hist += "logout,"
			} else {
				must(rm.BadAuth("wrong"))
				hist += "badauth,"
			}
			d.serial = rm.serial
			if e := c.Find(d.Phone); e != nil {
				c.Violate("history %s: removed device still listed: %+v", hist, *e)
				return
			}
			if g := c.GetGeo(d.Phone); g != nil {
				c.Violate("history %s: removed device still has a location", hist)
				return
			}
			if via != d.T {
				via.Close()
			}
			c.Rec.Case("%s%d", hist, i)
			// who comes next?
			switch c.R.Intn(5) {
			case 0: // same phone, other plate
				d.Reg.Plate = c.NewPlate()
				hist += "phone,"
			case 1: // same plate, other phone
				n := c.RandDev()
				for n.Ver == jt.V2011 && len(jt.GBK(d.Reg.Plate)) > 12 {
					n = c.RandDev()
				}
				n.Reg.Plate = d.Reg.Plate
				d = n.On(d.T)
				hist += "plate,"
			case 2: // same again
				hist += "same,"
			case 3: // same identity from a new connection, old one closes late
				olds = append(olds, d.T)
				d.On(c.Dial())
				hist += "newconn,"
			case 4: // same identity, old connection closed first
				d.T.Close()
				d.On(c.Dial())
				hist += "reconn,"
			}
		}
		if i < 2 {
			c.Rec.Sample(map[string]any{"history": hist})
		}
		for _, o := range olds {
			o.Close()
		}
		d.T.Close()
	}
}

// c08race: fragments, reports and authentications in flight while the device is removed leave
// nothing that the next registration could see.
func c08race(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		c.Par(4, func(w int, c *Ctx) {
			d := c.RandDev()
			d.On(c.Dial())
			must(d.Register())
			if c.R.Intn(2) == 0 {
				must(d.Auth())
			}
			b := c.RandLoc().Body()
			h := &half{phone: d.Phone, ms: d.Cut(0x0200, b, []int{1 + c.R.Intn(9), 10 + c.R.Intn(len(b)-11)}), sent: 1 + c.R.Intn(2)}
			for _, m := range h.ms[:h.sent-1] {
				must(d.do(m, 0))
			}
			rm := *d
			rm.On(c.Dial())
			kind := []int{0, 1, 2, 3, 3, 3}[c.R.Intn(6)]
			bar := NewBarrier(2)
			c.Par(2, func(k int, c *Ctx) {
				bar.Wait()
				if k == 0 {
					m := h.ms[h.sent-1]
					if kind == 3 { // whole messages
						m = d.MLoc(c.RandLoc())
					}
					if d.T.Send(m) != nil {
						return
					}
					if r, o := d.T.Next(); o == Got {
						if err := d.MatchAns(r.Msg, m, 0); err != nil {
							c.Violate("%s in flight during a removal: %v", m, err)
						}
					} else if o != Closed {
						c.Violate("%s in flight during a removal: %s", m, d.T.Describe(r, o))
					}
					return
				}
				if c.R.Intn(2) == 0 {
					must(rm.Logout())
				} else {
					must(rm.BadAuth("wrong"))
				}
			})
			d.serial = rm.serial + 5
			d.T.Close()
			d.On(c.Dial())
			must(d.Register())
			if g := c.GetGeo(d.Phone); g != nil {
				c.Violate("a report in flight at the removal shows under the next registration: %+v", *g)
				Abort()
			}
			c.halfRest(d, h, "removed with a fragment in flight,")
			c.Rec.Case("race %d %d %d %s", i, w, kind, d.Phone)
			c.Rec.Event("races_with_removal", 1)
			must(d.Logout())
			d.T.Close()
			rm.T.Close()
		})
	}
}

// c08exp (virtual time): the expiry of a re-registered device runs like that
// of a device registered for the first time at the same moment.
func c08exp(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		d := c.RandDev()
		d.On(c.Dial())
		incs := 1 + c.R.Intn(3)
		var h *half
		clean := func() {
			if g := c.GetGeo(d.Phone); g != nil {
				c.Violate("location of an earlier registration shows through: %+v", *g)
				Abort()
			}
			if err := d.MatchDevice(c.Find(d.Phone), false); err != nil {
				c.Violate("new registration: %v", err)
				Abort()
			}
		}
		for k := 0; k < incs; k++ {
			must(d.Register())
			clean()
			c.halfRest(d, h, "")
			h = nil
			if c.R.Intn(2) == 0 {
				must(d.Auth())
			}
			if c.R.Intn(2) == 0 {
				must(d.Locate(c.RandLoc()))
			}
			if c.R.Intn(2) == 0 {
				h = c.halfSend(d)
			}
			switch c.R.Intn(3) {
			case 0, 1:
				time.Sleep(time.Duration(c.R.Intn(58000)) * time.Millisecond)
				if c.R.Intn(2) == 0 {
					must(d.Logout())
				} else {
					must(d.BadAuth("wrong"))
				}
			case 2: // expires
				x, closed := d.T.WaitClosed()
				if !closed || len(x) > 0 {
					c.Violate("silent device not expired: closed %v frames %d", closed, len(x))
					return
				}
				time.Sleep(50 * time.Millisecond) // the removal is under way
				if e := c.Find(d.Phone); e != nil {
					c.Violate("connection closed by expiry but the device is still listed")
					return
				}
				if g := c.GetGeo(d.Phone); g != nil {
					c.Violate("expired device still has a location")
					return
				}
				d.T.Close()
				d.On(c.Dial())
			}
			if c.R.Intn(2) == 0 {
				time.Sleep(time.Duration(c.R.Intn(90000)) * time.Millisecond)
			}
		}
		// now the last incarnation and the control, side by side
		ctl := c.NewDev(d.Ver).On(c.Dial())
		must(d.Register())
		clean()
		must(ctl.Register())
		auth := c.R.Intn(3) > 0
		if auth {
			must(d.Auth())
			must(ctl.Auth())
		}
		beats := []int{0, 1, 2, 3, 3, 3}[c.R.Intn(6)]
		for k := 0; k < beats; k++ {
			time.Sleep(time.Duration(20000+c.R.Intn(39000)) * time.Millisecond)
			if d.c.Find(d.Phone) == nil {
				c.Violate("re-registered device removed although it talked within the keepalive period (beat %d)", k)
				return
			}
			must(d.Beat())
			must(ctl.Beat())
			if auth {
				for _, x := range []*Dev{d, ctl} {
					if e := c.Find(x.Phone); e == nil || e.Status != 1 {
						c.Violate("talking device not online: %+v", e)
						return
					}
				}
			}
		}
		var offD, offC, goneD, goneC time.Duration
		t0 := time.Now()
		for goneD == 0 || goneC == 0 {
			time.Sleep(500 * time.Millisecond)
			el := time.Since(t0)
			if el > 6*time.Minute {
				c.Violate("silent devices not removed: %v/%v after %v", goneD, goneC, el)
				return
			}
			l := c.Dir()
			for _, x := range []struct {
				d         *Dev
				off, gone *time.Duration
			}{{d, &offD, &goneD}, {ctl, &offC, &goneC}} {
				e, ok := l[x.d.Phone]
				if *x.gone == 0 && !ok {
					*x.gone = el
				} else if ok && *x.gone != 0 {
					c.Violate("removed device %s came back", x.d.Phone)
					return
				}
				if *x.off == 0 && ok && e.Status == 0 {
					*x.off = el
				}
			}
		}
		diff := func(a, b time.Duration) bool { return a-b > 2*time.Second || b-a > 2*time.Second }
		if diff(goneD, goneC) || diff(offD, offC) {
			c.Violate("re-registered device offline/removed after %v/%v, a fresh one registered at the same time after %v/%v", offD, goneD, offC, goneC)
			return
		}
		c.Rec.Case("%d %v %d %v %v", incs, auth, beats, goneD, offD)
		c.Rec.Event("timelines_compared", 1)
		if i < 2 {
			c.Rec.Sample(map[string]any{"incarnations": incs + 1, "authenticated": auth, "beats": beats, "removed_after_s": goneD.Seconds(), "control_s": goneC.Seconds()})
		}
		d.T.Close()
		ctl.T.Close()
	}
}
