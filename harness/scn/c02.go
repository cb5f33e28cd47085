package scn

import (
	"fmt"
	"strings"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c02", c02)
}

// longPlate is a unique plate of up to n GBK bytes; k walks through all ideographs.
func (c *Ctx) longPlate(n, k int) string {
	var b strings.Builder
	b.WriteString(c.NewPlate())
	used := len(jt.GBK(b.String()))
	for used < n {
		if used+2 <= n && c.R.Intn(8) > 0 {
			b.WriteRune(jt.Hanzi(k))
			k++
			used += 2
		} else {
			b.WriteString(ascii(c.R, 1))
			used++
		}
	}
	return b.String()
}

// c02: what the terminal put in is what the platform records.
func c02(c *Ctx) {
	real := c.Env.Name() == "S"
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		v := Versions[i%3]
		d := c.NewDev(v)
		a, b, w := v.Widths()
		room := jt.MaxBody - (5 + a + b + w)
		switch {
		case i%16 == 15: // the shortest plates (an empty 2013 plate looks like 2011)
			n := 1 + c.R.Intn(4)
			if v != jt.V2013 && c.R.Intn(3) == 0 {
				n = 0
			}
			d.Reg.Plate = ascii(c.R, n)
			if n >= 2 && c.R.Intn(2) == 0 {
				d.Reg.Plate = string(jt.Hanzi(c.R.Intn(jt.HanziCount))) + d.Reg.Plate[2:]
			}
		case v == jt.V2011:
		case i%4 == 0: // exactly full body
			d.Reg.Plate = c.longPlate(room, i*509+c.Worker*7001)
		case i%8 == 1: // all of it has to be escaped
			p := c.NewPlate()
			d.Reg.Plate = p + strings.Repeat([]string{"~", "}", "}~"}[c.R.Intn(3)], room)[:room-len(jt.GBK(p))]
		case i%4 == 1:
			d.Reg.Plate = c.longPlate(13+c.R.Intn(room-13), i*509+c.Worker*7001)
		}
		if c.R.Intn(3) == 0 { // fixed-width fields completely filled
			d.Reg.Manu, d.Reg.Model, d.Reg.DevID = ascii(c.R, a), ascii(c.R, b), ascii(c.R, w)
		}
		if c.R.Intn(8) == 0 { // empty fields, blanks at either end
			d.Reg.Manu, d.Reg.Model = "", " "
			d.Reg.DevID = []string{"", " ", " x", "x "}[c.R.Intn(4)]
		}
		if c.R.Intn(3) == 0 {
			d.Reg.DevID = strings.Repeat([]string{"~", "}", "}~", "~}"}[c.R.Intn(4)], w)[:w]
			d.Reg.Province, d.Reg.City = 0x7e7d, 0x7d02
		}
		if v == jt.V2019 && c.R.Intn(3) == 0 {
			d.SW = strings.Repeat("~}", 10)[:1+c.R.Intn(20)]
			if c.R.Intn(3) == 0 {
				d.SW = ""
			}
		}
		t := c.DialOpt(DialOpt{ReadChunk: Chunker(c.R)})
		d.On(t)
		snd := func(ms ...*jt.Msg) {
			var w []byte
			for _, m := range ms {
				if k := c.R.Intn(3); k < 2 { // check byte that needs escaping
					ForceCheck(m, []byte{0x7d, 0x7e}[k])
				}
				w = append(w, m.Frame()...)
			}
			var err error
			if k := c.R.Intn(30); k == 0 && !real { // the stream pauses in the middle of a frame
				n := 1 + c.R.Intn(len(w)-1)
				if err = t.Raw(w[:n]); err == nil {
					time.Sleep(time.Duration([]int{1, 3, 6, 11, 16, 21, 31, 46, 55}[c.R.Intn(9)]) * time.Second)
					err = t.Raw(w[n:])
				}
				c.Rec.Event("pauses_in_the_stream", 1)
			} else if real {
				err = c.SendSplit(t, w)
			} else {
				err = t.Raw(w)
			}
			if err != nil {
				c.Violate("could not send: %v", err)
				Abort()
			}
		}
		m := d.MReg()
		snd(m)
		r, o := t.Next()
		if o != Got {
			c.Violate("registration %s: got %s", m, t.Describe(r, o))
			return
		}
		ra, err := d.MatchReg(r.Msg, m)
		if err != nil || ra.Result != 0 {
			c.Violate("registration %s: result %d %v", m, ra.Result, err)
			return
		}
		d.Code = ra.Code
		if i%2 == 0 {
			if err := d.MatchDevice(c.Find(d.Phone), false); err != nil {
				c.Violate("after registration %s: %v", m, err)
				return
			}
		}
		// authentication and a few reports, coalesced in one write
		l1, l2 := c.RandLoc(), c.RandLoc()
		if i%3 == 0 {
			l2.Extra = make([]byte, jt.MaxBody-28)
			c.R.Read(l2.Extra)
			if m := c.R.Intn(3); m > 0 { // much or everything has to be escaped
				for k := range l2.Extra {
					l2.Extra[k] = []byte{0x7e, 0x7d, 0x01, 0x02}[c.R.Intn(m*2)]
				}
			}
		}
		if i%6 == 0 { // the longest frames
			l2.Alarm, l2.Status, l2.Lat, l2.Lon, l2.Alt, l2.Speed = 0x7e7e7e7e, 0x7d7d7d7d, 0x007e7d7e, 0x0a7e7d7e, 0x7d7e, 0x7e7d
			for k := range l2.Extra {
				l2.Extra[k] = byte(0x7d + c.R.Intn(2))
			}
			if c.R.Intn(2) == 0 {
				d.serial = 0x7d7e - 3
			}
		}
		ms := []*jt.Msg{d.MAuth(d.Code), d.MLoc(l1), d.MLoc(l2), d.MBeat()}
		snd(ms...)
		for _, m := range ms {
			must(d.ExpectAns(m, 0))
		}
		if err := d.MatchDevice(c.Find(d.Phone), true); err != nil {
			c.Violate("after authentication of %s: %v", d.Phone, err)
			return
		}
		if err := MatchGeo(c.GetGeo(d.Phone), d.Phone, l2); err != nil {
			c.Violate("after report %s: %v", ms[2], err)
			return
		}
		for k := 0; k < 3; k++ {
			l := c.RandLoc()
			l.Status = c.R.Uint32()
			m := d.MLoc(l)
			snd(m)
			must(d.ExpectAns(m, 0))
			if err := MatchGeo(c.GetGeo(d.Phone), d.Phone, l); err != nil {
				c.Violate("after report %s: %v", m, err)
				return
			}
			c.Rec.Case("loc %x", l.Body())
			c.Rec.Event("reports_compared", 1)
		}
		c.Rec.Case("%s %x", v, m.Body)
		c.Rec.Event("registrations_compared", 1)
		c.Rec.Event("body_bytes", int64(len(m.Body)+len(ms[2].Body)))
		if i < 1 {
			c.Rec.Sample(map[string]any{"registration": fmt.Sprintf("%.120x", m.Frame()), "report": fmt.Sprintf("%.120x", ms[2].Frame())})
		}
		must(d.Logout())
		t.Close()
	}
}
