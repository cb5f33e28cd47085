package scn

import (
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("fleet", fleet)
}

// fleet: a large number of devices registered at the same time. The directory,
// the duplicate checks, the locations and the commands stay exact at any size.
func fleet(c *Ctx) {
	real := c.Env.Name() == "S"
	m := &regModel{map[string]string{}, map[string]string{}, map[string]*Dev{}}
	var fl []*Dev
	locs := map[string]*jt.Loc{}
	next := 1
	var t *Term
	var conns []*Term
	share := 1
	// silent devices expire after a while: a slow machine gets a smaller fleet
	begin := time.Now()
	late := func(s int) bool { return time.Since(begin) > time.Duration(s)*time.Second }
	for len(fl) < c.Scale && !c.Failed() && !late(15) {
		if t == nil || share == 0 {
			t = c.Dial()
			conns = append(conns, t)
			share = 1 + c.R.Intn(4)
		}
		share--
		d := c.RandDev().On(t)
		must(d.Register())
		if c.R.Intn(4) > 0 {
			must(d.Auth())
			if c.R.Intn(2) == 0 {
				l := c.RandLoc()
				must(d.Locate(l))
				locs[d.Phone] = l
			}
		}
		fl = append(fl, d)
		m.byPhone[d.Phone], m.byPlate[d.Reg.Plate] = d.Reg.Plate, d.Phone
		m.devs[d.Phone] = d
		c.Rec.Case("register %s %s", d.Phone, d.Reg.Plate)
		if len(fl) == next || len(fl)%512 == 0 {
			next *= 2
			c.checkDir(m)
		}
	}
	if late(30) {
		return
	}
	c.checkDir(m)
	// any of them, not only the last
	probe := func(d *Dev) {
		if g, l := c.GetGeo(d.Phone), locs[d.Phone]; l == nil {
			if g != nil {
				c.Violate("device %s without reports has a location among %d devices: %+v", d.Phone, len(m.devs), g)
				Abort()
			}
		} else if err := MatchGeo(g, d.Phone, l); err != nil {
			c.Violate("location of %s among %d devices: %v", d.Phone, len(m.devs), err)
			Abort()
		}
		x := c.RandDev().On(d.T)
		y := c.NewDev(d.Ver).On(d.T)
		x.Reg.Plate = d.Reg.Plate
		y.Phone = d.Phone
		y.VerByte = d.VerByte
		for k, z := range []*Dev{x, y} {
			res, _ := z.DoReg()
			if want := []int{1, 3}[k]; res != want {
				if res >= 0 {
					c.Violate("registration with the %s of one of %d registered devices answered %d, expected %d", []string{"plate", "phone"}[k], len(m.devs), res, want)
				}
				Abort()
			}
		}
		must(d.Beat())
		must(d.Auth())
		if real {
			c.Command(d, d.T, "command to a device of a fleet")
		}
		c.Rec.Event("devices_probed", 1)
	}
	n := len(fl)
	if real && n > 150 {
		n = 150
	}
	for _, i := range c.R.Perm(len(fl))[:n] {
		if late(30) {
			break
		}
		probe(fl[i])
	}
	if late(45) {
		return
	}
	c.checkDir(m)
	for _, i := range c.R.Perm(len(fl)) {
		if late(45) {
			return
		}
		d := fl[i]
		if c.R.Intn(2) == 0 {
			must(d.Logout())
		} else {
			must(d.BadAuth("x" + d.Code))
		}
		delete(m.devs, d.Phone)
		if len(m.devs)%127 == 0 {
			c.checkDir(m)
			if g := c.GetGeo(d.Phone); g != nil {
				c.Violate("removed device %s still has a location: %+v", d.Phone, g)
				Abort()
			}
		}
	}
	c.checkDir(m)
	for _, t := range conns {
		t.Close()
	}
}
