package scn

import (
	"bytes"
	"fmt"
	"net"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c15", c15)
	Register("c15exp", c15exp)
	Register("c15many", c15many)
}

// RawHTTP is offered by environments with an HTTP port.
type RawHTTP interface {
	DialHTTP() (net.Conn, error)
}

// victim is a well-behaved device that checks everything it is owed.
func (c *Ctx) victim(d *Dev, stop *atomic.Bool, pause func() time.Duration) {
	must(d.Locate(c.RandLoc()))
	want := stable(*c.mustFind(d.Phone))
	for n := 0; !stop.Load() && !c.Failed(); n++ {
		switch c.R.Intn(4) {
		case 0:
			must(d.Beat())
		case 1, 2:
			l := c.RandLoc()
			must(d.Locate(l))
			if err := MatchGeo(c.GetGeo(d.Phone), d.Phone, l); err != nil {
				c.Violate("bystander's location: %v", err)
				Abort()
			}
		case 3:
			must(d.Auth())
		}
		c.Rec.Event("bystander_answers", 1)
		if n%4 == 0 {
			if got := stable(*c.mustFind(d.Phone)); got != want {
				c.Violate("bystander's record changed from %+v to %+v", want, got)
				Abort()
			}
			c.Rec.Event("bystander_records_compared", 1)
		}
		c.ExpectSilence(d.T, "bystander")
		time.Sleep(pause())
	}
	must(d.Beat())
}

func (c *Ctx) mustFind(phone string) *Device {
	e := c.Find(phone)
	if e == nil {
		c.Violate("well-behaved device %s is not listed any more", phone)
		Abort()
	}
	return e
}

// hostile builds a frame with a correct check byte and illegal content.
// Hostile is hostile for other packages.
func (c *Ctx) Hostile(d *Dev) []byte { return c.hostile(d) }

func (c *Ctx) hostile(d *Dev) []byte {
	r := c.R
	var m *jt.Msg
	switch r.Intn(12) {
	case 0:
		m = d.MReg()
	case 1:
		m = d.MAuth(d.Code)
	case 2, 3:
		m = d.MLoc(c.RandLoc())
	case 4:
		m = d.Msg(0x0104, append([]byte{0, 1}, jt.Items(RandItems(r, r.Intn(20)))...))
	case 5:
		m = d.MQuiet(r)
	case 6:
		m = d.Msg(0x0004, nil)
	case 7:
		ids := []uint16{0x8001, 0x8100, 0x8103, 0x8104, 0x9205, 0x8003, 0x8004, 0x8300, 0x8800}
		m = d.Msg(ids[r.Intn(len(ids))], jt.Items(RandItems(r, r.Intn(6))))
	case 8:
		m = d.MBeat()
	case 9, 10:
		m = d.Msg([]uint16{0x0200, 0x0102, 0x0104, 0x0001, 0x0100, 0x0801, 0x1205, 0x0003}[r.Intn(8)], nil)
		m.Body = make([]byte, r.Intn(200))
		r.Read(m.Body)
		w := []uint16{0, 1, 2, 3, 0xffff, 0xfffe, 0x7e7d, uint16(r.Intn(65536))}
		m.Frag, m.Total, m.Index = true, w[r.Intn(len(w))], w[r.Intn(len(w))]
		if r.Intn(3) == 0 {
			m.Total, m.Index = 1, 1
		}
	case 11:
		m = d.Msg(uint16(r.Intn(65536)), nil)
		m.Body = make([]byte, r.Intn(1024))
		r.Read(m.Body)
	}
	raw := m.Raw()
	switch r.Intn(8) {
	case 0: // as it is
	case 1, 2: // cut short
		raw = raw[:r.Intn(len(raw)+1)]
	case 3: // cut short, length field corrected
		if len(raw) > 4 {
			n := r.Intn(len(raw))
			if n > 16 {
				raw = raw[:n]
				hl := len(m.Header())
				if n >= hl {
					raw[3] = byte(n - hl)
					raw[2] = raw[2]&0xfc | byte((n-hl)>>8)
				}
			}
		}
	case 4: // random bytes altered
		for k := 0; k < 1+r.Intn(6); k++ {
			if len(raw) > 0 {
				raw[r.Intn(len(raw))] = byte(r.Intn(256))
			}
		}
	case 5: // attribute bits
		if r.Intn(2) == 0 {
			raw[2] ^= 4 << r.Intn(6)
		} else {
			raw[2], raw[3] = byte(r.Intn(256)), byte(r.Intn(256))
		}
	case 6: // counts and lengths at the extremes
		hl := len(m.Header())
		for k := hl; k < len(raw) && k < hl+8; k++ {
			if r.Intn(2) == 0 {
				raw[k] = []byte{0, 0xff, 0x7f, 0x80}[r.Intn(4)]
			}
		}
	case 7: // all random
		raw = make([]byte, r.Intn(300))
		r.Read(raw)
	}
	return jt.FrameRaw(raw)
}

// attack is one hostile connection.
func (c *Ctx) attack(kind int, victims []*Dev) {
	r := c.R
	t := c.DialOpt(DialOpt{ReadChunk: Chunker(r)})
	end := func() {
		switch r.Intn(4) {
		case 0:
			t.L.Reset()
		case 1:
			t.L.CloseWrite()
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
			t.Close()
		default:
			t.Close()
		}
	}
	defer end()
	d := c.RandDev().On(t)
	switch kind % 8 {
	case 0: // random bytes
		for k := 0; k < 1+r.Intn(4); k++ {
			b := make([]byte, r.Intn(3000))
			r.Read(b)
			if r.Intn(2) == 0 {
				for i := range b {
					if r.Intn(8) == 0 {
						b[i] = []byte{0x7e, 0x7d, 1, 2}[r.Intn(4)]
					}
				}
			}
			t.Raw(b)
		}
		c.Rec.Event("attack_noise", 1)
	case 1, 2: // illegal content of an unknown device
		for k := 0; k < 1+r.Intn(5); k++ {
			t.Raw(c.hostile(d))
		}
		c.Rec.Event("attack_unregistered_content", 1)
	case 3, 4: // illegal content of a registered device
		if res, code := d.DoReg(); res == 0 {
			d.Code = code
		}
		if r.Intn(2) == 0 {
			d.do(d.MAuth(d.Code), 0)
		}
		for k := 0; k < 1+r.Intn(5); k++ {
			b := c.hostile(d)
			t.Raw(b)
			if k == 0 {
				c.Rec.Case("%x", b)
			}
		}
		c.Rec.Event("attack_registered_content", 1)
	case 5: // odd registrations
		for k := 0; k < 1+r.Intn(3); k++ {
			x := c.RandDev().On(t)
			body := x.Reg.Body(x.Ver)
			a, b, w := x.Ver.Widths()
			hl := 4 + a + b + w + 1
			switch r.Intn(5) {
			case 0:
				body = body[:hl] // no plate
			case 1:
				body = append(body[:hl], bytes.Repeat([]byte{byte(r.Intn(256))}, r.Intn(900))...)
			case 2:
				for i := range body {
					body[i] = byte(r.Intn(256))
				}
			case 3:
				body = append(body[:hl], bytes.Repeat([]byte{0x81, 0xff, 0x00}, 1+r.Intn(4))...)
			case 4:
				body = body[:r.Intn(len(body))]
			}
			t.Raw(x.Msg(0x0100, body).Frame())
		}
		c.Rec.Event("attack_registrations", 1)
	case 6: // at the bystanders: taken identities and corrupted frames
		v := victims[r.Intn(len(victims))]
		x := *v
		x.c, x.T, x.serial = c, t, uint16(r.Intn(65536))
		switch r.Intn(3) {
		case 0: // same phone
			x.Reg.Plate = c.NewPlate()
			if res, _ := x.DoReg(); res != 3 && res >= 0 {
				c.Violate("registration of a taken phone answered with %d", res)
				Abort()
			}
		case 1: // same plate
			y := c.NewDev(v.Ver).On(t)
			y.Reg.Plate = v.Reg.Plate
			if res, _ := y.DoReg(); res != 1 && res >= 0 {
				c.Violate("registration of a taken plate answered with %d", res)
				Abort()
			}
		case 2:
			for _, m := range []*jt.Msg{x.MOut(), x.MAuth("wrong"), x.MLoc(c.RandLoc())} {
				t.Raw(c.badFrame(m.Frame()))
			}
		}
		c.Rec.Event("attack_bystander_identity", 1)
	case 7: // unfinished or endless frames
		t.Raw([]byte{0x7e})
		n := 1 + r.Intn(40)
		if r.Intn(10) > 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			if t.Raw(bytes.Repeat([]byte{byte(r.Intn(0x7d))}, 16384)) != nil {
				break
			}
		}
		c.Rec.Event("attack_endless_frames", 1)
	}
	if r.Intn(3) == 0 {
		time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
	}
}

var hostileHTTP = []string{
	"GET /device HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /device/%00/geo HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /device/../../geo HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /device//geo HTTP/1.1\r\nHost: x\r\n\r\n",
	"PUT /device//params HTTP/1.1\r\nHost: x\r\nContent-Length: 0\r\n\r\n",
	"BREW /device HTTP/1.1\r\nHost: x\r\n\r\n",
	"GET /device HTTP/0.9\r\n\r\n",
	"GET " + strings.Repeat("/a", 5000) + " HTTP/1.1\r\nHost: x\r\n\r\n",
	"PUT /device/PHONE/params HTTP/1.1\r\nHost: x\r\nContent-Length: 1000000\r\n\r\n{\"params\":[",
	"PUT /device/PHONE/params HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\n{",
	"PUT /device/PHONE/params HTTP/1.1\r\nHost: x\r\nContent-Type: application/xml\r\nContent-Length: 5\r\n\r\n<a/>x",
	"PUT /device/PHONE/params HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 11\r\n\r\nparamCnt=25",
	"PUT /device/PHONE/params HTTP/1.1\r\nHost: x\r\nContent-Type: multipart/form-data; boundary=x\r\nContent-Length: 6\r\n\r\n--x--\n",
	"PUT /device/PHONE/params HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-yaml\r\nContent-Length: 7\r\n\r\na: &a *",
	"PUT /device/PHONE/params HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-protobuf\r\nContent-Length: 3\r\n\r\n\x01\x02\x03",
	"PUT /device/PHONE/params HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-msgpack\r\nContent-Length: 3\r\n\r\n\xdf\xff\xff",
	"\x16\x03\x01\x02\x00", "\x00\x00\x00", "\x7e\x00\x02\x00\x00\x7e",
	"POST /device HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n",
	"GET /device HTTP/1.1\r\nHost: x\r\nX: " + strings.Repeat("y", 2000000) + "\r\n\r\n",
}

// httpAttack is one hostile HTTP exchange.
func (c *Ctx) httpAttack(d *Dev, hold *[]net.Conn) {
	r := c.R
	if r.Intn(2) == 0 {
		rh, ok := c.Env.(RawHTTP)
		if !ok {
			return
		}
		k, err := rh.DialHTTP()
		if err != nil {
			return
		}
		b := []byte(strings.ReplaceAll(hostileHTTP[r.Intn(len(hostileHTTP))], "PHONE", d.Phone))
		if r.Intn(3) == 0 && len(b) > 2 {
			b = b[:1+r.Intn(len(b)-1)]
		}
		k.SetDeadline(time.Now().Add(200 * time.Millisecond))
		k.Write(b)
		if r.Intn(4) > 0 {
			buf := make([]byte, 512)
			k.Read(buf)
		}
		if r.Intn(5) == 0 && len(*hold) < 40 {
			*hold = append(*hold, k)
		} else {
			k.Close()
		}
		c.Rec.Event("attack_raw_http", 1)
		return
	}
	vals := []string{"null", "true", "-1", "1e400", "1.5", "99999999999999999999", `"x"`, `""`, "[]", "{}", `[[[[1]]]]`, `{"a":1}`, `"\u0000\ud800"`, `"` + strings.Repeat("z", 3000) + `"`, "18446744073709551616", "256", "-0"}
	var ps []string
	for k := 0; k < r.Intn(5); k++ {
		id := fmt.Sprint(paramIDs[r.Intn(len(paramIDs))])
		switch r.Intn(5) {
		case 0:
			id = vals[r.Intn(len(vals))]
		case 1:
			id = fmt.Sprint(UnknownIDs[r.Intn(len(UnknownIDs))])
		}
		ps = append(ps, fmt.Sprintf(`{"paramId":%s,"paramLen":%d,"paramValue":%s}`, id, r.Intn(300), vals[r.Intn(len(vals))]))
	}
	body := fmt.Sprintf(`{"paramCnt":%s,"params":[%s]}`, vals[r.Intn(len(vals))], strings.Join(ps, ","))
	switch r.Intn(6) {
	case 0:
		body = body[:r.Intn(len(body)+1)]
	case 1:
		body = strings.Repeat("[", 20000)
	case 2:
		body = vals[r.Intn(len(vals))]
	}
	p := d.Phone
	if r.Intn(3) == 0 {
		p = []string{"%00", "..", "%2e%2e", "*", strings.Repeat("9", 5000), "%E4%BA%AC", "a%2Fb"}[r.Intn(7)]
	}
	path := "/device/" + p + []string{"/params", "/geo", "", "/params/x"}[r.Intn(4)]
	if r.Intn(4) == 0 {
		path = "/device"
	}
	if r.Intn(3) == 0 {
		v := []string{"", "-1", "0", "99999999999999999999", "x", "%00", "%ff", d.Phone, url.QueryEscape(d.Reg.Plate)}
		path += "?"
		for _, k := range []string{"phone", "plate", "id", "page", "size", "limit", "offset", "status", "fields", "%zz"} {
			if r.Intn(3) == 0 {
				path += k + "=" + v[r.Intn(len(v))] + "&"
			}
		}
	}
	c.Env.HTTP([]string{"GET", "PUT", "PUT", "PUT", "POST", "DELETE", "OPTIONS"}[r.Intn(7)], path, []byte(body))
	c.Rec.Event("attack_http", 1)
}

// c15: bystanders and newcomers next to hostile peers of all kinds.
func c15(c *Ctx) {
	real := c.Env.Name() == "S"
	var vs []*Dev
	for k := 0; k < 4; k++ {
		vs = append(vs, c.Up(c.RandVer()))
	}
	pauses := func(r *Ctx) func() time.Duration {
		return func() time.Duration {
			if real {
				return time.Duration(r.R.Intn(20)) * time.Millisecond
			}
			return time.Duration(r.R.Intn(3000)) * time.Millisecond
		}
	}
	var stop atomic.Bool
	var herr atomic.Pointer[error]
	var inflight atomic.Int64
	var wg sync.WaitGroup
	run := func(fn func(f *Ctx)) {
		f := c.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := RunSafe(func() { fn(f) }); err != nil {
				herr.Store(&err)
			}
		}()
	}
	for _, v := range vs {
		run(func(f *Ctx) {
			v.c = f
			f.victim(v, &stop, pauses(f))
		})
	}
	run(func(f *Ctx) { // newcomers
		for !stop.Load() && !f.Failed() {
			d := f.Up(f.RandVer())
			must(d.Locate(f.RandLoc()) && d.Logout())
			d.T.Close()
			f.Rec.Event("newcomers_served", 1)
			time.Sleep(pauses(f)())
		}
	})
	// peers that flood and never read
	var mutes []*Term
	if real {
		for k := 0; k < 4; k++ {
			d := c.NewDev(c.RandVer()).On(c.DialOpt(DialOpt{SmallBuf: true}))
			must(d.Register() && d.Auth())
			l, err := c.Env.Dial(DialOpt{SmallBuf: true})
			if err != nil {
				continue
			}
			a := d.MAuth(d.Code)
			l.Write(a.Frame()) // its connection is now the unread one
			mutes = append(mutes, d.T)
			var bulk []byte
			for j := 0; j < 20000; j++ {
				bulk = append(bulk, d.MBeat().Frame()...)
			}
			go func() { l.Write(bulk) }()
			defer l.Close()
			big := PutBody([]HTTPParam{{0x10, 250, strings.Repeat("a", 250)}, {0x11, 250, strings.Repeat("b", 250)}, {0x12, 250, strings.Repeat("c", 250)}, {0x13, 240, strings.Repeat("d", 240)}})
			for j := 0; j < 10; j++ {
				phone := d.Phone
				go func() {
					for !stop.Load() {
						inflight.Add(1)
						_, _, err := c.Env.HTTP("PUT", "/device/"+phone+"/params", big)
						inflight.Add(-1)
						if err != nil {
							return
						}
						c.Rec.Event("commands_to_unread_peers", 1)
					}
				}()
			}
		}
	}
	var att sync.WaitGroup
	attackers := 8
	for a := 0; a < attackers; a++ {
		f := c.Fork()
		att.Add(1)
		go func() {
			defer att.Done()
			err := RunSafe(func() {
				hd := f.NewDev(f.RandVer()).On(f.Dial())
				must(hd.Register() && hd.Auth())
				var hold []net.Conn
				for i := 0; i < f.Scale && !f.Failed(); i++ {
					f.attack(f.R.Intn(8), vs)
					if real {
						f.httpAttack(hd, &hold)
					} else {
						time.Sleep(time.Duration(f.R.Intn(2000)) * time.Millisecond)
						if i%20 == 0 {
							must(hd.Beat())
						}
					}
				}
				for _, k := range hold {
					k.Close()
				}
			})
			if err != nil {
				herr.Store(&err)
			}
		}()
	}
	att.Wait()
	c.Rec.Event("commands_blocked_on_unread_peers", inflight.Load())
	stop.Store(true)
	for _, l := range mutes {
		l.Close()
	}
	wg.Wait()
	if p := herr.Load(); p != nil && !c.Failed() {
		Harness("%v", *p)
	}
	if e := c.Env.Check(); e != nil {
		c.Violate("platform ended: %v", e)
	}
	c.Rec.Sample(map[string]any{"hostile_connections": attackers * c.Scale, "bystanders": len(vs)})
}

// c15exp (virtual time): hostile devices vanish in every state and expire
// while bystanders keep talking.
func c15exp(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		v := c.Up(c.RandVer())
		l := c.RandLoc()
		must(v.Locate(l))
		want := stable(*c.mustFind(v.Phone))
		for k := 0; k < 12 && !c.Failed(); k++ {
			t := c.Dial()
			for n := 0; n < 1+c.R.Intn(3); n++ {
				d := c.RandDev().On(t)
				if res, code := d.DoReg(); res == 0 {
					d.Code = code
				} else {
					Abort()
				}
				switch c.R.Intn(6) {
				case 0:
					must(d.Auth())
				case 1:
					must(d.Auth() && d.Locate(c.RandLoc()))
				case 2:
					must(d.Auth() && d.Logout())
				case 3:
					must(d.BadAuth("x"))
				case 4:
					must(d.Auth() && d.Logout() && d.Register())
				}
			}
			switch c.R.Intn(4) {
			case 0:
				t.L.Reset()
			case 1:
				t.Close()
			case 2:
				t.Raw(c.hostile(c.RandDev()))
			}
			time.Sleep(time.Duration(c.R.Intn(50)) * time.Second)
			must(v.Beat())
			c.Rec.Event("bystander_answers", 1)
			if got := stable(*c.mustFind(v.Phone)); got != want {
				c.Violate("bystander's record changed from %+v to %+v", want, got)
				return
			}
			if err := MatchGeo(c.GetGeo(v.Phone), v.Phone, l); err != nil {
				c.Violate("bystander's location: %v", err)
				return
			}
			c.Rec.Case("exp %s %d", v.Phone, k)
		}
		must(v.Logout())
		v.T.Close()
	}
}

// c15many: a great number of peers connect and stay, saying nothing or little.
// Devices known before keep their service and newcomers get theirs.
func c15many(c *Ctx) {
	v := c.Up(c.RandVer())
	var open []*Term
	defer func() {
		for _, t := range open {
			t.Close()
		}
	}()
	next := 64
	for len(open) < c.Scale && !c.Failed() {
		t := c.Dial()
		open = append(open, t)
		d := c.RandDev().On(t)
		switch c.R.Intn(6) {
		case 0: // half a frame
			f := d.MReg().Frame()
			t.Raw(f[:1+c.R.Intn(len(f)-1)])
		case 1:
			must(d.Register())
		case 2:
			must(d.Register() && d.Auth())
		case 3:
			t.Raw([]byte{0x7e})
		}
		if len(open) == next || len(open) == c.Scale {
			next *= 2
			must(v.Beat())
			c.mustFind(v.Phone)
			n := c.Up(c.RandVer())
			l := c.RandLoc()
			must(n.Locate(l))
			if err := MatchGeo(c.GetGeo(n.Phone), n.Phone, l); err != nil {
				c.Violate("newcomer next to %d open connections: %v", len(open), err)
				Abort()
			}
			if c.Env.Name() == "S" {
				c.Command(n, n.T, fmt.Sprintf("newcomer next to %d open connections", len(open)))
			}
			must(n.Logout())
			n.T.Close()
			c.Rec.Event("newcomers_served", 1)
			c.Rec.Case("newcomer next to %d", len(open))
		}
	}
	must(v.Beat() && v.Logout())
	v.T.Close()
	c.Rec.Event("connections_kept_open", int64(len(open)))
}
