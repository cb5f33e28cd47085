package scn

import (
	"fmt"
	"time"
)

func init() {
	Register("c09long", c09long)
	Register("c11idle", c11idle)
}

// c09long: one device stays connected for more than 65536 reports. Every one is answered and the
// query names the latest, in particular where counters of 8, 15 and 16 bits would wrap.
func c09long(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		d := c.Up(c.RandVer())
		for n := uint32(1); n <= 66200 && !c.Failed(); n++ {
			l := seqLoc(n)
			must(d.Locate(l))
			near := func(p uint32) bool { return n+110 > p && n < p+110 }
			if n%97 == 0 || near(256) || near(32768) || near(65536) || near(66200) {
				if err := MatchGeo(c.GetGeo(d.Phone), d.Phone, l); err != nil {
					c.Violate("report %d of a long-lived device: %v", n, err)
					return
				}
				c.Rec.Case("long %d", n)
			}
		}
		c.Rec.Event("reports_of_long_lived_devices", 66200)
		must(d.Logout())
		d.T.Close()
	}
}

// c11idle: commands and answers separated by silence of various lengths, in real time.
func c11idle(c *Ctx) {
	gaps := [][]int{{2, 3, 4, 6, 6, 11, 11}, {6, 16, 21}, {11, 31}, {16, 16, 11}, {31, 12}, {45}, {50}, {21, 21}}
	root := c
	c.Par(c.Scale, func(i int, c *Ctx) {
		c.Worker = root.Worker
		d := c.Up(Versions[i%3])
		for k, g := range gaps[i%len(gaps)] {
			what := fmt.Sprintf("after %d s of silence", g)
			if k == 0 || i%2 == 0 {
				c.Command(d, d.T, "before silence")
			}
			l := c.RandLoc()
			l.Status ^= uint32((i + k) % 2) // ignition on or off
			must(d.Locate(l))
			time.Sleep(time.Duration(g) * time.Second)
			switch (i + k) % 3 {
			case 0:
				must(d.Beat())
				c.Command(d, d.T, what)
			case 1:
				c.Command(d, d.T, what)
				must(d.Beat())
			case 2:
				c.Command(d, d.T, what)
				must(d.Auth())
			}
			c.ExpectSilence(d.T, what)
			c.Rec.Case("idle %d %d", i, g)
			c.Rec.Event("commands_after_silence", 1)
		}
		must(d.Logout())
		d.T.Close()
	})
}
