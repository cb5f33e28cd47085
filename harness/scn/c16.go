package scn

import (
	"sync"
	"sync/atomic"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c16", c16)
}

// c16: everything at once for Scale seconds (virtual in V), expiries included.
// Memory accesses are watched by the race detector; here every request must be
// served.
func c16(c *Ctx) {
	real := c.Env.Name() == "S"
	dur := time.Duration(c.Scale) * time.Second
	t0 := time.Now()
	over := func() bool { return time.Since(t0) > dur || c.Failed() }
	var stop atomic.Bool
	var mu sync.Mutex
	var phones []string
	note := func(p string) {
		mu.Lock()
		phones = append(phones, p)
		if len(phones) > 60 {
			phones = phones[1:]
		}
		mu.Unlock()
	}
	pick := func(f *Ctx) string {
		mu.Lock()
		defer mu.Unlock()
		if len(phones) == 0 {
			return "0"
		}
		return phones[f.R.Intn(len(phones))]
	}
	// pauses end on whole seconds of virtual time, when keepalive checks run
	pause := func(f *Ctx) {
		if real {
			time.Sleep(time.Duration(f.R.Intn(40)) * time.Millisecond)
		} else {
			time.Sleep(time.Duration(f.R.Intn(12)) * time.Second)
		}
	}
	var rd sync.WaitGroup
	for k := 0; k < 6; k++ {
		f := c.Fork()
		rd.Add(1)
		go func() {
			defer rd.Done()
			_ = RunSafe(func() {
				for !stop.Load() && !f.Failed() {
					switch n := f.R.Intn(6); {
					case n == 0:
						f.List()
						f.Rec.Event("listings", 1)
					case n <= 2 || !real:
						f.GetGeo(pick(f))
						f.Rec.Event("location_reads", 1)
					case n == 3:
						f.Issue(pick(f), Cmd{Method: "GET"})
						f.Rec.Event("commands", 1)
					default:
						ps, _ := RandPut(f.R, 1+f.R.Intn(10), 12)
						f.Issue(pick(f), Cmd{Method: "PUT", Body: PutBody(ps)})
						f.Rec.Event("commands", 1)
					}
					if real {
						time.Sleep(time.Duration(f.R.Intn(4)) * time.Millisecond)
					} else {
						time.Sleep(time.Duration(f.R.Intn(3)) * time.Second)
					}
				}
			})
		}()
	}
	c.Par(14, func(w int, c *Ctx) {
		var t *Term
		for !over() {
			if t == nil {
				t = c.Dial()
			}
			d := c.RandDev().On(t)
			note(d.Phone)
			must(d.regLoose())
			for n := 0; n < 2+c.R.Intn(8) && !over(); n++ {
				switch c.R.Intn(8) {
				case 0:
					must(d.ask(d.MAuth(d.Code)))
				case 1:
					must(d.ask(d.MBeat()))
				case 2, 3, 4:
					must(d.ask(d.MLoc(c.RandLoc())))
				case 5:
					b := c.RandLoc().Body()
					for _, m := range d.Cut(0x0200, b, c.RandCuts(len(b))) {
						must(d.ask(m))
					}
				case 6: // moves to a new connection
					old := t
					t = c.Dial()
					d.On(t)
					must(d.ask(d.MAuth(d.Code)))
					switch c.R.Intn(3) {
					case 0:
						old.L.Reset()
					default:
						old.Close()
					}
				case 7:
					c.List()
				}
				c.Rec.Event("requests", 1)
				pause(c)
			}
			end := c.R.Intn(6)
			switch end {
			case 0, 1:
				must(d.ask(d.MOut()))
			case 2:
				must(d.ask(d.MAuth("wrong")))
			case 3: // abandoned, connection stays open
				t = nil
			case 4:
				t.Close()
				t = nil
			case 5:
				t.L.Reset()
				t = nil
			}
			c.Rec.Case("%s %d", d.Phone, end)
			if over() && t != nil {
				t.Close()
			}
		}
	})
	stop.Store(true)
	rd.Wait()
}

// regLoose registers, skipping commands that arrive in between.
func (d *Dev) regLoose() bool {
	m := d.MReg()
	if err := d.T.Send(m); err != nil {
		d.c.Violate("registration could not be sent: %v", err)
		return false
	}
	r, ok := d.skip(m)
	if !ok {
		return false
	}
	a, err := d.MatchReg(r, m)
	if err != nil || a.Result != 0 {
		d.c.Violate("registration %s answered with %s (%v)", m, r, err)
		return false
	}
	d.Code = a.Code
	return true
}

// ask sends a request and waits for its answer, skipping commands.
func (d *Dev) ask(m *jt.Msg) bool {
	if err := d.T.Send(m); err != nil {
		d.c.Violate("%s could not be sent: %v", m, err)
		return false
	}
	r, ok := d.skip(m)
	if !ok {
		return false
	}
	if a, err := jt.ParseAns(r.Body); r.ID != 0x8001 || err != nil || a.Serial != m.Serial || a.ID != m.ID {
		d.c.Violate("%s answered with %s", m, r)
		return false
	}
	return true
}

func (d *Dev) skip(m *jt.Msg) (*jt.Msg, bool) {
	for {
		r, o := d.T.Next()
		if o != Got {
			d.c.Violate("request %s not served: %s", m, d.T.Describe(r, o))
			return nil, false
		}
		if r.ID == 0x8103 || r.ID == 0x8104 {
			continue
		}
		return r.Msg, true
	}
}
