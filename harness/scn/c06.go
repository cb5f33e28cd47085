package scn

import (
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c06", c06)
}

// wrongCodes are codes that differ from the issued one.
func (c *Ctx) wrongCodes(code, other string) []string {
	out := []string{"", code + "0", "0" + code, code + " ", " " + code, code + "\x00", code + "\n", other, "AuthCode", "0", code + code, "+" + code,
		strings.ToUpper(code) + "A", code + "\x00\x00", "\x00" + code, code + ".0", "00" + code, "-1", code[:len(code)-1] + "\x7e", "%s", "*"}
	for _, n := range []int{16, 32, 64, 128} { // the right code and something behind or before it
		pad := ascii(c.R, n)
		out = append(out, code+pad, pad+code, code+strings.Repeat("\x00", n))
	}
	if len(code) > 1 {
		out = append(out, code[1:], code[:len(code)-1], code[:1])
	}
	b := []byte(code)
	i := c.R.Intn(len(b))
	b[i] = '0' + (b[i]-'0'+1)%10
	out = append(out, string(b))
	if n, err := strconv.ParseUint(code, 10, 64); err == nil {
		out = append(out, strconv.FormatUint(n+1, 10), strconv.FormatUint(n-1, 10), strconv.FormatUint(n+1<<32, 10), strconv.FormatUint(n, 16)+"h", strconv.FormatInt(int64(int32(uint32(n)))-1, 10))
	}
	var ok []string
	for _, s := range out {
		if s != code && len(s) <= 200 {
			ok = append(ok, s)
		}
	}
	return ok
}

// notAuth sends one random message that is not an authentication; how many
// seconds the platform may need for it is returned.
func (c *Ctx) notAuth(d *Dev) (slow bool) {
	send := func(m *jt.Msg) {
		if err := d.T.Send(m); err != nil {
			c.Violate("%s could not be sent: %v", m, err)
			Abort()
		}
	}
	switch c.R.Intn(12) {
	case 0, 1:
		must(d.Beat())
	case 2:
		must(d.Locate(c.RandLoc()))
	case 3:
		l := c.RandLoc()
		l.Status &^= 1
		must(d.Locate(l))
	case 4:
		c.timeQuery(d)
	case 5:
		send(d.MQuiet(c.R))
	case 6:
		res, _ := d.DoReg()
		if res != 1 && res != 3 {
			c.Violate("second registration of %s answered %d", d.Phone, res)
			Abort()
		}
	case 7: // general answers of the platform, as if the terminal were one
		for _, id := range []uint16{0x0102, 0x0100, 0x0002} {
			send(d.Msg(0x8001, jt.Ans{Serial: uint16(c.R.Intn(65536)), ID: id}.Body()))
		}
		return true
	case 8:
		send(d.Msg(0x8100, jt.RegAns{Serial: 1, Code: d.Code}.Body()))
		return true
	case 9:
		send(d.Msg([]uint16{0x8103, 0x8104, 0x9205, 0x8004}[c.R.Intn(4)], nil))
		return true
	case 10:
		send(d.Msg(Unsupported[c.R.Intn(len(Unsupported))], nil))
		return true
	case 11: // the code in messages that are not authentications
		send(d.Msg(0x0001, jt.Ans{Serial: d.serial, ID: 0x8100}.Body()))
		b := binary.BigEndian.AppendUint16(nil, uint16(c.R.Intn(65536)))
		send(d.Msg(0x0104, append(b, jt.Items([]jt.Item{{ID: 0x83, Val: []byte(d.Code)}})...)))
	}
	return false
}

func c06(c *Ctx) {
	real := c.Env.Name() == "S"
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		v := c.RandVer()
		t := c.Dial()
		other := c.Up(c.RandVer())
		d := c.NewDev(v).On(t)
		must(d.Register())
		status := func(want int, what string) {
			e := c.Find(d.Phone)
			if e == nil {
				c.Violate("%s: %s not in the directory", what, d.Phone)
				Abort()
			}
			if want == 1 && e.Status != 1 {
				c.Violate("%s: status %d, expected online", what, e.Status)
				Abort()
			}
			if want != 1 && e.Status == 1 {
				c.Violate("%s: device reported online without authentication", what)
				Abort()
			}
			if err := d.MatchDevice(e, want == 1); err != nil {
				c.Violate("%s: %v", what, err)
				Abort()
			}
		}
		status(0, "after registration")
		// (b) nothing but authentication brings it online
		slow, n := 0, c.R.Intn(12)
		for k := 0; k < n; k++ {
			if real && slow >= 1 {
				break
			}
			if c.notAuth(d) {
				slow++
				must(d.Beat()) // processed by now
			}
			if slow > 8 {
				break
			}
			status(0, "after messages without authentication")
			c.Rec.Event("non_auth_steps", 1)
		}
		if c.R.Intn(3) == 0 { // another terminal authenticates on this connection
			o := *other
			must(o.On(t).Auth())
			status(0, "after another terminal authenticated")
		}
		// (c) the issued code works, repeatedly and from new connections
		good := c.R.Intn(5)
		for k := 0; k < good; k++ {
			if v == jt.V2019 {
				d.IMEI, d.SW = digits(c.R, 15), ascii(c.R, c.R.Intn(4)*c.R.Intn(7))
			}
			if c.R.Intn(3) == 0 {
				old := d.T
				d.On(c.Dial())
				if c.R.Intn(2) == 0 {
					old.Close()
				} else {
					defer old.Close()
				}
			}
			if c.R.Intn(4) == 0 && k > 0 {
				l := c.RandLoc()
				l.Status &^= 1
				must(d.Locate(l)) // goes to sleep
			}
			must(d.Auth())
			status(1, "after authentication")
			c.Rec.Event("authentications", 1)
		}
		// (a) any other code fails and removes the registration, whatever happened before
		how := ""
		if good > 0 {
			how = c.Vary(d)
		}
		codes := c.wrongCodes(d.Code, other.Code)
		code := codes[(i*7+c.Worker)%len(codes)]
		if c.R.Intn(3) == 0 {
			d.On(c.Dial())
			defer d.T.Close()
		}
		must(d.BadAuth(code))
		if e := c.Find(d.Phone); e != nil {
			c.Violate("after authentication with %q instead of %q the device is still registered: %+v", code, d.Code, *e)
			return
		}
		c.Rec.Case("%s %q %s", v, code, how)
		if i < 2 {
			c.Rec.Sample(map[string]any{"issued": d.Code, "refused": fmt.Sprintf("%q", code), "version": v.String()})
		}
		// (e) the code of an earlier registration with other data is worthless
		oldCode := d.Code
		d.Reg.DevID = ascii(c.R, 5)
		if c.R.Intn(2) == 0 {
			d.Reg.Plate = c.NewPlate()
		}
		must(d.Register())
		status(0, "after registering again")
		if d.Code != oldCode && c.R.Intn(2) == 0 {
			must(d.BadAuth(oldCode))
			if c.Find(d.Phone) != nil {
				c.Violate("code of an earlier registration left the device registered")
				return
			}
		} else {
			if d.Code == oldCode {
				c.Rec.Event("equal_codes", 1)
			}
			must(d.Auth())
			status(1, "after registering again and authenticating")
			must(d.Logout())
		}
		must(other.Logout())
		t.Close()
		d.T.Close()
		other.T.Close()
	}
}
