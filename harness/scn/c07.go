package scn

import (
	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c07", c07)
}

// c07: unregistered terminals in many guises.
func c07(c *Ctx) {
	c.noTwin = true
	kinds := []string{"beat", "auth", "loc", "logout", "frag1", "frag2", "fragreg", "fragbeat"}
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		by := c.Up(c.RandVer())
		l0 := c.RandLoc()
		must(by.Locate(l0))
		// candidates: look-alikes of the bystander, fresh phones, removed devices
		var cand []*Dev
		why := map[*Dev]string{}
		add := func(d *Dev, w string) {
			if d.Phone != by.Phone {
				cand = append(cand, d)
				why[d] = w
			}
		}
		al := func(v jt.Ver, p string) {
			d := c.NewDev(v)
			d.Phone = p
			d.Code = by.Code
			add(d, "look-alike of "+by.Phone)
		}
		if by.Ver == jt.V2019 {
			al(jt.V2013, by.Phone[8:])
			al(jt.V2013, by.Phone[:12])
			al(jt.V2019, by.Phone[1:]+"0")
			al(jt.V2019, "0"+by.Phone[:19])
		} else {
			al(jt.V2019, "00000000"+by.Phone)
			al(jt.V2019, by.Phone+"00000000")
			al(jt.V2019, "FFFFFFFF"+by.Phone)
			al(jt.V2019, digits(c.R, 7)+"F"+by.Phone)
			al(jt.V2013, by.Phone[1:]+"0")
			al(jt.V2013, "0"+by.Phone[:11])
		}
		b := []byte(by.Phone)
		b[len(b)-1] = '0' + (b[len(b)-1]-'0'+1)%10
		al(by.Ver, string(b))
		for _, v := range Versions {
			d := c.NewDev(v)
			d.Code = "1234567"
			add(d, "never registered")
		}
		gone := c.Up(c.RandVer())
		must(gone.Locate(c.RandLoc()))
		c.Vary(gone)
		must(by.Auth()) // time may have passed
		must(by.Locate(l0))
		if c.R.Intn(2) == 0 {
			must(gone.Logout())
			add(gone, "logged out")
		} else {
			must(gone.BadAuth("x"))
			add(gone, "evicted")
		}
		goneT := gone.T
		for _, d := range cand {
			k := kinds[c.R.Intn(len(kinds))]
			var m *jt.Msg
			var rest []byte
			switch k {
			case "beat":
				m = d.MBeat()
			case "auth":
				m = d.MAuth(d.Code)
			case "loc":
				m = d.MLoc(c.RandLoc())
			case "logout":
				m = d.MOut()
			default:
				body := c.RandLoc().Body()
				m = d.Msg(0x0200, body[:len(body)/2])
				rest = body[len(body)/2:]
				m.Frag, m.Total, m.Index = true, 2, 1
				switch k {
				case "frag2":
					m.Index = 2
				case "fragreg":
					body := d.Reg.Body(d.Ver)
					m.ID, m.Body = 0x0100, body[:len(body)/2]
				case "fragbeat":
					m.ID, m.Body = 0x0002, nil
				}
			}
			var t *Term
			how := "fresh connection"
			switch {
			case d == gone && c.R.Intn(2) == 0:
				t, how = goneT, "its old connection"
			case c.R.Intn(3) == 0: // a connection that served an accepted terminal before
				x := c.Up(c.RandVer())
				must(x.Logout())
				t, how = x.T, "connection used before"
			default:
				t = c.DialOpt(DialOpt{ReadChunk: Chunker(c.R)})
			}
			before := c.Dir()
			if err := t.Send(m); err != nil {
				c.Violate("%s could not be sent: %v", m, err)
				return
			}
			x, closed := t.WaitClosed()
			if len(x) > 0 {
				c.Violate("%s from a terminal that is not registered (%s, %s) was answered: %s", m, why[d], how, x[0].Msg)
				return
			}
			if !closed {
				c.Violate("%s from a terminal that is not registered (%s, %s): connection stays open", m, why[d], how)
				return
			}
			after := c.Dir()
			if len(after) != len(before) {
				c.Violate("%s (%s) changed the directory from %d to %d devices", m, why[d], len(before), len(after))
				return
			}
			for p, e := range before {
				if stable(after[p]) != stable(e) {
					c.Violate("%s (%s) changed device %s", m, why[d], p)
					return
				}
			}
			if g := c.GetGeo(d.Phone); g != nil {
				c.Violate("%s (%s) left a location record", m, why[d])
				return
			}
			c.Rec.Case("%s %s %s %s %d", k, why[d], d.Ver, how, len(m.Body))
			c.Rec.Event("refusals_"+k, 1)
			t.Close()
			// nothing was recorded for a later registration either
			if c.R.Intn(3) == 0 {
				n := *d
				n.On(c.Dial())
				n.Reg.Plate = c.NewPlate()
				must(n.Register())
				if g := c.GetGeo(n.Phone); g != nil {
					c.Violate("location sent before registration (%s) shows up afterwards", why[d])
					return
				}
				if k == "frag1" {
					f := n.Msg(0x0200, rest)
					f.Frag, f.Total, f.Index, f.Serial = true, 2, 2, m.Serial+1
					must(n.do(f, 0))
					if c.GetGeo(n.Phone) != nil {
						c.Violate("fragment refused before registration took effect afterwards")
						return
					}
				}
				must(n.Logout())
				n.T.Close()
			}
			if i == 0 {
				c.Rec.Sample(map[string]any{"message": m.String(), "guise": why[d], "connection": how})
			}
		}
		must(by.Beat())
		c.ExpectSilence(by.T, "bystander")
		if err := MatchGeo(c.GetGeo(by.Phone), by.Phone, l0); err != nil {
			c.Violate("bystander's location changed: %v", err)
			return
		}
		if err := by.MatchDevice(c.Find(by.Phone), true); err != nil {
			c.Violate("bystander's record changed: %v", err)
			return
		}
		must(by.Logout())
		by.T.Close()
		goneT.Close()
	}
}
