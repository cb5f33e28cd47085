package scn

import (
	"fmt"
	"strings"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c05seq", c05seq)
}

// lookAlikes are plates that differ only slightly.
func (c *Ctx) lookAlikes() []string {
	p := c.NewPlate()
	for len(jt.GBK(p)) > 9 {
		p = c.NewPlate()
	}
	return []string{p, p + "0", p + "A", p + "a", "0" + p, " " + p, p + " ", p + "1", strings.ToLower(p) + "z", p + "_", p + "~"}
}

// phoneAlikes are phone numbers that differ only slightly, with their layout.
func (c *Ctx) phoneAlikes() []*Dev {
	b := digits(c.R, 10)
	if b[0] == '0' {
		b = "7" + b[1:]
	}
	var out []*Dev
	add := func(v jt.Ver, p string) {
		for _, d := range out {
			if d.Phone == p {
				return
			}
		}
		d := c.NewDev(v)
		d.Phone = p
		out = append(out, d)
	}
	old := func() jt.Ver { return Versions[c.R.Intn(2)] }
	add(old(), "00"+b)
	add(old(), "01"+b)
	add(old(), b+"00")
	add(old(), "0"+b+"0")
	add(jt.V2019, "0000000000"+b)
	add(jt.V2019, "0000000001"+b)
	add(jt.V2019, b+"0000000000")
	add(jt.V2019, b+b)
	add(jt.V2019, "00000000"+"00"[:2]+b[:9]+"0")
	return out
}

type regModel struct {
	byPhone map[string]string // phone -> plate
	byPlate map[string]string
	devs    map[string]*Dev
}

// c05seq: a long sequential history against an exact model, with look-alike
// plates and phones and many devices registered at the same time.
func c05seq(c *Ctx) {
	m := &regModel{map[string]string{}, map[string]string{}, map[string]*Dev{}}
	real := c.Env.Name() == "S"
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		plates := c.lookAlikes()
		devs := c.phoneAlikes()
		t := c.Dial()
		for k := 0; k < 60; k++ {
			d := devs[c.R.Intn(len(devs))]
			if t == nil {
				t = c.Dial()
			}
			d.On(t)
			held, isReg := m.byPhone[d.Phone]
			if c.R.Intn(3) > 0 {
				p := plates[c.R.Intn(len(plates))]
				if d.Ver == jt.V2019 && c.R.Intn(10) == 0 {
					p = "" // no plate is one like any other
				}
				x := *d
				x.Reg.Plate = p
				x.Reg.DevID = "SAME" // device ids may repeat
				res, code := x.DoReg()
				d.serial = x.serial
				if res < 0 {
					return
				}
				_, plateHeld := m.byPlate[p]
				ok := false
				switch {
				case plateHeld && isReg:
					ok = res == 1 || res == 3
				case plateHeld:
					ok = res == 1
				case isReg:
					ok = res == 3
				default:
					ok = res == 0
				}
				if !ok {
					c.Violate("registration of phone %s plate %q answered %d; plate held: %v, phone held: %v", d.Phone, p, res, plateHeld, isReg)
					return
				}
				c.Rec.Case("%s %q %d", d.Phone, p, res)
				c.Rec.Event(fmt.Sprintf("result_%d", res), 1)
				if res == 0 {
					x.Code = code
					m.byPhone[d.Phone], m.byPlate[p] = p, d.Phone
					m.devs[d.Phone] = &x
				}
				continue
			}
			switch c.R.Intn(5) {
			case 3: // a parked vehicle keeps what it holds
				if isReg {
					l := c.RandLoc()
					l.Status &^= 1
					must(d.Locate(l))
				}
			case 4:
				if isReg {
					must(d.Beat())
				}
			case 0, 1:
				msg := d.MOut()
				want := uint8(0)
				if c.R.Intn(2) == 0 {
					msg, want = d.MAuth("0"), 1
				}
				if err := t.Send(msg); err != nil {
					c.Violate("%s could not be sent: %v", msg, err)
					return
				}
				if isReg {
					must(d.ExpectAns(msg, want))
					delete(m.byPhone, d.Phone)
					delete(m.byPlate, held)
					delete(m.devs, d.Phone)
				} else {
					if x, closed := t.WaitClosed(); !closed || len(x) > 0 {
						c.Violate("%s of an unregistered terminal: frames %v closed %v", msg, x, closed)
						return
					}
					t.Close()
					t = nil
				}
			case 2:
				if isReg {
					x := m.devs[d.Phone]
					x.On(t)
					must(x.Auth())
				}
			}
		}
		c.checkDir(m)
		if t != nil {
			t.Close()
		}
		// keep some devices so that the directory grows, drop them now and then
		if i%8 == 7 || real && i%3 == 2 {
			t := c.Dial()
			for p, d := range m.devs {
				d.On(t)
				d.c = c
				must(d.Logout())
				delete(m.byPhone, p)
				delete(m.byPlate, d.Reg.Plate)
				delete(m.devs, p)
			}
			t.Close()
			c.checkDir(m)
		}
	}
}

// checkDir compares the directory with the model.
func (c *Ctx) checkDir(m *regModel) {
	l := c.Dir()
	if len(l) != len(m.devs) {
		c.Violate("directory has %d devices, %d are registered", len(l), len(m.devs))
		Abort()
	}
	for p, d := range m.devs {
		e, ok := l[p]
		if !ok {
			c.Violate("registered device %s missing from the directory", p)
			Abort()
		}
		if err := d.MatchDevice(&e, e.AuthCode != ""); err != nil {
			c.Violate("directory entry of %s: %v", p, err)
			Abort()
		}
	}
	c.Rec.Event("directory_comparisons", 1)
}
