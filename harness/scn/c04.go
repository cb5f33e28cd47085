package scn

import (
	"fmt"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c04", c04)
}

func now() time.Time { return time.Now() }

// MatchTime checks a 0x8004 answer to a query sent at t0.
func (d *Dev) MatchTime(r Rx, req *jt.Msg, t0 time.Time) error {
	if r.ID != 0x8004 {
		return fmt.Errorf("expected time answer, got %s", r.Msg)
	}
	if err := d.CheckHeader(r.Msg); err != nil {
		return err
	}
	if len(r.Body) != 6 {
		return fmt.Errorf("time answer body %x", r.Body)
	}
	s, ok := jt.UnBCD(r.Body)
	if !ok {
		return fmt.Errorf("time answer not BCD: %x", r.Body)
	}
	ts, err := time.Parse("060102150405", s)
	if err != nil {
		return fmt.Errorf("time answer %s: %v", s, err)
	}
	if ts.Before(t0.UTC().Add(-2*time.Second)) || ts.After(r.At.UTC().Add(2*time.Second)) {
		return fmt.Errorf("time answer %s, asked between %s and %s", ts, t0.UTC(), r.At.UTC())
	}
	return nil
}

type c04req struct {
	d  *Dev
	m  *jt.Msg
	t0 time.Time
	k  string // expected answer kind: ans, reg, time, none
	rs int    // result; -1 = conflict (1 or 3)
}

// c04: pipelined mixes on several connections at once.
func c04(c *Ctx) {
	conns := 6
	rounds := c.Scale
	real := c.Env.Name() == "S"
	c.Par(conns, func(i int, c *Ctx) {
		for rd := 0; rd < rounds && !c.Failed(); rd++ {
			o := DialOpt{ReadChunk: Chunker(c.R)}
			own := c.UpOpt(c.RandVer(), o)
			t := own.T
			// a second accepted terminal whose requests travel on the first one's connection
			guest := c.Up(c.RandVer())
			gt := guest.T
			var reqs []c04req
			n := 5 + c.R.Intn(40)
			burst := c.R.Intn(40) == 0
			if burst { // more than the platform takes in with one read
				n = 300 + c.R.Intn(150)
			}
			slow := 0
			for len(reqs) < n {
				d := own
				if c.R.Intn(5) == 0 {
					d = guest
				}
				q := c04req{d: d, k: "ans"}
				switch c.R.Intn(9) {
				case 0, 1:
					q.m = d.MBeat()
				case 2, 3:
					l := c.RandLoc()
					if c.R.Intn(2) == 0 { // ACC on or off
						l.Status = c.R.Uint32()
					}
					q.m = d.MLoc(l)
				case 4:
					if d == guest {
						continue // would move the guest's connection; covered by C11
					}
					q.m = d.MAuth(d.Code)
				case 5:
					q.m, q.k = d.Msg(0x0004, nil), "time"
				case 6:
					q.m, q.k, q.rs = d.MReg(), "reg", -1
				case 7:
					q.m, q.k = d.MQuiet(c.R), "none"
				case 8:
					if real && slow >= 1 || slow >= 20 {
						continue
					}
					slow++
					b := make([]byte, c.R.Intn(40))
					c.R.Read(b)
					q.m, q.k = d.Msg(Unsupported[c.R.Intn(len(Unsupported))], b), "none"
				}
				reqs = append(reqs, q)
				switch c.R.Intn(12) {
				case 0: // the same message once more, as a retransmission
					if q.k != "none" {
						reqs = append(reqs, q)
					}
				case 1: // a different message under a serial number used before
					reqs[len(reqs)-1].m.Serial = reqs[c.R.Intn(len(reqs))].m.Serial
				}
			}
			if c.R.Intn(3) == 0 {
				reqs = append(reqs, c04req{d: own, m: own.MOut(), k: "ans"})
			}
			var wire []byte
			for k := range reqs {
				reqs[k].t0 = now()
				f := reqs[k].m.Frame()
				if wire = append(wire, f...); c.R.Intn(3) > 0 || burst {
					continue
				}
				if err := t.Raw(wire); err != nil {
					c.Violate("requests could not be sent: %v", err)
					return
				}
				wire = nil
			}
			if len(wire) > 1 && !real && c.R.Intn(4) == 0 { // the stream pauses, even in the middle of a frame
				n := 1 + c.R.Intn(len(wire)-1)
				if err := t.Raw(wire[:n]); err != nil {
					c.Violate("requests could not be sent: %v", err)
					return
				}
				wire = wire[n:]
				time.Sleep(time.Duration([]int{1, 3, 6, 11, 16, 21, 31, 46, 55}[c.R.Intn(9)]) * time.Second)
				c.Rec.Event("pauses_in_the_stream", 1)
			}
			if len(wire) > 0 {
				if err := t.Raw(wire); err != nil {
					c.Violate("requests could not be sent: %v", err)
					return
				}
			}
			for k, q := range reqs {
				if q.k == "none" {
					continue
				}
				r, out := t.Next()
				if out != Got {
					c.Violate("request %d of %d (%s): expected answer, got %s", k, len(reqs), q.m, t.Describe(r, out))
					return
				}
				var err error
				switch q.k {
				case "ans":
					err = q.d.MatchAns(r.Msg, q.m, 0)
				case "time":
					err = q.d.MatchTime(r, q.m, q.t0)
				case "reg":
					var a jt.RegAns
					a, err = q.d.MatchReg(r.Msg, q.m)
					if err == nil && a.Result != 1 && a.Result != 3 {
						err = fmt.Errorf("registration of a registered device answered %d", a.Result)
					}
				}
				if err != nil {
					c.Violate("request %d of %d (%s): %v", k, len(reqs), q.m, err)
					return
				}
			}
			// everything sent has been processed once this is answered
			last := guest
			last.On(t)
			must(last.Beat())
			c.ExpectSilence(t, "after the last answer")
			last.On(gt)
			c.ExpectSilence(gt, "connection of a terminal whose requests travelled elsewhere")
			c.Rec.Event("requests", int64(len(reqs)))
			c.Rec.Event("answers", int64(t.Count()))
			key := ""
			for _, q := range reqs {
				key += fmt.Sprintf("%04x,", q.m.ID)
			}
			c.Rec.Case("%s", key)
			if rd == 0 && i == 0 {
				c.Rec.Sample(map[string]any{"sequence": key})
			}
			t.Close()
			gt.Close()
		}
	})
}
