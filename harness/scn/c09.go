package scn

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c09seq", c09seq)
	Register("c09con", c09con)
}

// c09seq: query after every report, far beyond any buffer size.
func c09seq(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		d := c.Up(c.RandVer())
		quiet := c.Up(c.RandVer())
		n := 230 + c.R.Intn(120)
		if i%3 == 1 {
			n = 5
		}
		for k := 0; k < n; k++ {
			if k == 0 {
				if g := c.GetGeo(d.Phone); g != nil {
					c.Violate("device without reports has a location: %+v", *g)
					return
				}
			}
			l := c.RandLoc()
			if c.R.Intn(10) == 0 {
				l.Status = 1 << c.R.Intn(32) // single flags, ACC off included
			}
			if c.R.Intn(20) == 0 {
				l = &jt.Loc{Status: 1, Time: RandTime(c.R)}
			}
			must(d.Locate(l))
			if err := MatchGeo(c.GetGeo(d.Phone), d.Phone, l); err != nil {
				c.Violate("report %d (%x): %v", k+1, l.Body(), err)
				return
			}
			c.Rec.Case("%x", l.Body())
			c.Rec.Event("reports_compared", 1)
			if c.R.Intn(12) == 0 { // other traffic changes nothing
				must(d.Beat())
				if c.R.Intn(2) == 0 {
					must(d.Auth())
				}
				if err := MatchGeo(c.GetGeo(d.Phone), d.Phone, l); err != nil {
					c.Violate("after other messages following report %d: %v", k+1, err)
					return
				}
			}
			if c.R.Intn(40) == 0 { // several reports between two queries
				for j := 0; j < 1+c.R.Intn(120); j++ {
					must(d.Locate(c.RandLoc()))
				}
			}
		}
		if g := c.GetGeo(quiet.Phone); g != nil {
			c.Violate("device without reports has a location: %+v", *g)
			return
		}
		must(d.Logout())
		must(quiet.Logout())
		d.T.Close()
		quiet.T.Close()
	}
}

// seqLoc derives every field of a report from its number.
func seqLoc(n uint32) *jt.Loc {
	return &jt.Loc{Alarm: n, Status: 1 | n<<1, Lat: n % 90000000, Lon: 2*n + 7, Alt: uint16(n * 3), Speed: uint16(n * 5), Dir: uint16(n % 360),
		Time: time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC).Add(time.Duration(n) * time.Second).Format("060102150405")}
}

// c09con: readers race with a pipelining reporter.
func c09con(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		const devs = 3
		total := uint32(400)
		ds := make([]*Dev, devs)
		for k := range ds {
			ds[k] = c.UpOpt(c.RandVer(), DialOpt{ReadChunk: Chunker(c.R)})
		}
		quiet := c.Up(c.RandVer())
		var wg sync.WaitGroup
		for k, d := range ds {
			var sent, acked atomic.Uint32
			var stop atomic.Bool
			base := uint32(k) * 1000000 // devices use disjoint numbers
			// reporter
			win := 1 + c.R.Intn(30)
			wg.Add(2)
			var ms [1024]*jt.Msg
			slots := make(chan struct{}, win)
			go func() {
				defer wg.Done()
				for n := uint32(1); n <= total; n++ {
					select {
					case slots <- struct{}{}:
					case <-time.After(2 * time.Hour):
						return
					}
					m := d.MLoc(seqLoc(base + n))
					ms[n] = m
					sent.Store(n)
					if err := d.T.Send(m); err != nil {
						c.Violate("report could not be sent: %v", err)
						return
					}
				}
			}()
			go func() {
				defer wg.Done()
				defer stop.Store(true)
				for n := uint32(1); n <= total; n++ {
					r, o := d.T.Next()
					if o != Got {
						c.Violate("report %d: %s", n, d.T.Describe(r, o))
						return
					}
					if err := d.MatchAns(r.Msg, ms[n], 0); err != nil {
						c.Violate("report %d: %v", n, err)
						return
					}
					acked.Store(n)
					<-slots
				}
			}()
			for q := 0; q < 2; q++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					err := RunSafe(func() {
						last := uint32(0)
						reads := 0
						for !stop.Load() && !c.Failed() {
							a := acked.Load()
							g := c.GetGeo(d.Phone)
							s := sent.Load()
							reads++
							if g == nil {
								if a > 0 {
									c.Violate("no location although report %d was acknowledged", a)
									return
								}
								continue
							}
							n := uint32(jt.MicroDeg(g.Location.Latitude)) - base
							if n == 0 || n > s {
								c.Violate("location query returned report %d, sent so far %d (device %d)", n, s, k)
								return
							}
							if err := MatchGeo(g, d.Phone, seqLoc(base+n)); err != nil {
								c.Violate("mixed report: %v", err)
								return
							}
							if n < a {
								c.Violate("query returned report %d after report %d was acknowledged", n, a)
								return
							}
							if n < last {
								c.Violate("query returned report %d after report %d", n, last)
								return
							}
							last = n
						}
						c.Rec.Event("concurrent_reads", int64(reads))
					})
					if err != nil {
						c.Rec.Event("reader_harness_error", 1)
					}
				}()
			}
		}
		wg.Wait()
		if c.Failed() {
			return
		}
		if c.GetGeo(quiet.Phone) != nil {
			c.Violate("device without reports has a location")
			return
		}
		for k, d := range ds {
			if err := MatchGeo(c.GetGeo(d.Phone), d.Phone, seqLoc(uint32(k)*1000000+total)); err != nil {
				c.Violate("after the last report: %v", err)
				return
			}
			must(d.Logout())
			d.T.Close()
			c.Rec.Case("%d/%d/%s", i, k, d.Phone)
		}
		must(quiet.Logout())
		quiet.T.Close()
		if i == 0 {
			c.Rec.Sample(map[string]any{"devices": devs, "reports_each": total, "readers_each": 2})
		}
		_ = fmt.Sprint
	}
}
