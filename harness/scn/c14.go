package scn

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c14", c14)
	Register("c14run", c14run)
}

// Cut splits a message body into n fragments with consecutive serial numbers.
func (d *Dev) Cut(id uint16, body []byte, cuts []int) []*jt.Msg {
	var out []*jt.Msg
	lo := 0
	for i := 0; i <= len(cuts); i++ {
		hi := len(body)
		if i < len(cuts) {
			hi = cuts[i]
		}
		m := d.Msg(id, body[lo:hi])
		m.Frag, m.Total, m.Index = true, uint16(len(cuts)+1), uint16(i+1)
		out = append(out, m)
		lo = hi
	}
	return out
}

// RandCuts makes positions that cut l bytes into pieces of at most 1023.
func (c *Ctx) RandCuts(l int) []int {
	r := c.R
	mode := r.Intn(6)
	var out []int
	at := 0
	for {
		left := l - at
		step := 0
		switch mode {
		case 0: // one byte at a time
			step = 1
		case 1: // as large as possible
			step = jt.MaxBody
		case 2: // halves
			step = (left + 1) / 2
		case 3: // anything, empty pieces included
			step = r.Intn(left + 2)
		case 4:
			step = 1 + r.Intn(40)
		case 5:
			step = []int{1, 2, 27, 28, 29, 127, 128, 1022, 1023}[r.Intn(9)]
		}
		if l > 3000 && step < 300 {
			step = 300 + r.Intn(724)
		}
		if step > jt.MaxBody {
			step = jt.MaxBody
		}
		if step >= left || len(out) > 400 && left <= jt.MaxBody {
			if len(out) == 0 && left > 1 && r.Intn(8) > 0 { // 1/1 is legal but dull
				mode = 2
				continue
			}
			return out
		}
		at += step
		out = append(out, at)
		if mode == 3 && len(out) > 60 {
			mode = 1
		}
	}
}

// fx is a transfer in progress.
type fx struct {
	d     *Dev
	name  string
	ms    []*jt.Msg
	next  int // next fragment
	lost  bool
	again int                   // times started over
	reply func(m *jt.Msg) error // check of the answer to the last fragment; nil: none
	apply func()                // effect of the last fragment
}

type fdev struct {
	*Dev
	authed bool
	gone   bool
	loc    *jt.Loc
	busy   map[uint16]bool
}

// c14: interleaved transfers compared with the effect of the whole message.
func c14(c *Ctx) {
	c.noTwin = true
	c.Par(3, func(w int, c *Ctx) {
		for i := 0; i < c.Scale && !c.Failed(); i++ {
			c.fragEpisode(i, w)
		}
	})
}

func (c *Ctx) fragEpisode(ep, w int) {
	t := c.Dial()
	defer t.Close()
	var ds []*fdev
	for k := 0; k < 1+c.R.Intn(3); k++ {
		d := &fdev{Dev: c.RandDev().On(t), busy: map[uint16]bool{}}
		if k > 0 && c.R.Intn(2) == 0 { // numbers alike: same digits in another width, same serial numbers
			o := ds[c.R.Intn(k)]
			d.Dev = c.alike(o.Dev).On(t)
			dup := false
			for _, x := range ds {
				dup = dup || x.Phone == d.Phone
			}
			if dup {
				d.Dev = c.RandDev().On(t)
			}
		}
		must(d.Register())
		if c.R.Intn(3) > 0 {
			must(d.Auth())
			d.authed = true
		}
		ds = append(ds, d)
	}
	hist := ""
	virtual := c.Env.Name() == "V"
	type exp struct {
		what  string
		check func(*jt.Msg) error
	}
	var pend []exp
	var bytes []byte
	send := func(m *jt.Msg) { bytes = append(bytes, m.Frame()...) }
	flush := func() {
		if len(bytes) == 0 {
			return
		}
		if err := c.SendSplit(t, bytes); err != nil {
			c.Violate("connection lost: %v; history %s", err, hist)
			Abort()
		}
		bytes = nil
		for _, p := range pend {
			r, o := t.Next()
			if o != Got {
				c.Violate("%s: expected an answer, got %s; history %s", p.what, t.Describe(r, o), hist)
				Abort()
			}
			if err := p.check(r.Msg); err != nil {
				c.Violate("%s: %v; history %s", p.what, err, hist)
				Abort()
			}
			c.Rec.Event("answers_checked", 1)
		}
		pend = nil
	}
	// the state as seen by the interfaces equals the model
	look := func() {
		flush()
		dir := c.Dir()
		for _, d := range ds {
			e, ok := dir[d.Phone]
			if ok == d.gone {
				c.Violate("device listed: %v, expected %v; history %s", ok, !d.gone, hist)
				Abort()
			}
			if d.gone {
				continue
			}
			if err := d.MatchDevice(&e, d.authed); err != nil {
				c.Violate("directory: %v; history %s", err, hist)
				Abort()
			}
			g := c.GetGeo(d.Phone)
			if d.loc == nil {
				if g != nil {
					c.Violate("a location appeared: %+v; history %s", g, hist)
					Abort()
				}
			} else if err := MatchGeo(g, d.Phone, d.loc); err != nil {
				c.Violate("location: %v; history %s", err, hist)
				Abort()
			}
		}
		c.Rec.Event("states_compared", 1)
	}
	ack := func(d *fdev, m *jt.Msg, res uint8) exp {
		return exp{m.String(), func(a *jt.Msg) error { return d.MatchAns(a, m, res) }}
	}
	// start creates a transfer
	start := func(d *fdev) *fx {
		kinds := []uint16{0x0200, 0x0200, 0x0200, 0x0102, 0x0104, 0x0100, 0x0001, 0x1205}
		id := kinds[c.R.Intn(len(kinds))]
		if d.busy[id] || d.gone {
			return nil
		}
		f := &fx{d: d.Dev, name: fmt.Sprintf("%04x", id)}
		var body []byte
		gen := func(res uint8) func(*jt.Msg) error {
			return func(a *jt.Msg) error { return d.MatchAns(a, f.ms[len(f.ms)-1], res) }
		}
		switch id {
		case 0x0200:
			l := c.RandLoc()
			switch c.R.Intn(4) {
			case 0:
				l.Extra = make([]byte, c.R.Intn(4000))
				c.R.Read(l.Extra)
			case 1:
				if c.R.Intn(6) == 0 {
					n := 60000 + c.R.Intn(20000)
					if virtual && c.R.Intn(12) == 0 {
						n = 200000 + c.R.Intn(1000000)
					}
					l.Extra = make([]byte, n)
					c.R.Read(l.Extra)
				}
			}
			body = l.Body()
			f.reply = gen(0)
			f.apply = func() { d.loc = l }
		case 0x0102:
			if c.R.Intn(12) == 0 { // a wrong code, as a whole message would, removes the device
				code := d.Code + "x"
				if d.Ver != jt.V2019 && c.R.Intn(2) == 0 { // the right code and a lot more
					n := []int{1024, 2048, 4096, 65536, 1024 - len(d.Code), c.R.Intn(3000)}[c.R.Intn(6)]
					if virtual && c.R.Intn(12) == 0 {
						n = 1 << (17 + c.R.Intn(4))
					}
					code = d.Code + ascii(c.R, n+1)[:n]
					if n == 0 {
						code += "x"
					}
				}
				body = jt.Auth(d.Ver, code, d.IMEI, d.SW)
				f.reply = gen(1)
				f.apply = func() { d.gone = true }
			} else {
				body = jt.Auth(d.Ver, d.Code, d.IMEI, d.SW)
				f.reply = gen(0)
				f.apply = func() { d.authed = true }
			}
		case 0x0104:
			n, max := 20+c.R.Intn(60), 12
			if c.R.Intn(4) == 0 { // many kilobytes that count to the last byte
				n, max = 250, 255
			}
			_, its := RandPut(c.R, n, max)
			body = append(binary.BigEndian.AppendUint16(nil, uint16(c.R.Intn(65536))), jt.Items(its)...)
		case 0x0001:
			body = jt.Ans{Serial: uint16(c.R.Intn(65536)), ID: 0x8103}.Body()
		case 0x1205:
			n := c.R.Intn(60)
			switch c.R.Intn(8) {
			case 0:
				n = 100 + c.R.Intn(900)
			case 1:
				n = 2000 + c.R.Intn(1000) // more than 64 KB
				if virtual && c.R.Intn(12) == 0 {
					n = 10000 + c.R.Intn(40000)
				}
			}
			body = binary.BigEndian.AppendUint16(nil, uint16(c.R.Intn(65536)))
			body = binary.BigEndian.AppendUint32(body, uint32(n))
			for k := 0; k < n; k++ {
				body = append(body, MediaQuery(c.R)...)
				body = binary.BigEndian.AppendUint32(body, c.R.Uint32())
			}
		case 0x0100:
			reg := d.Reg
			want := 1
			if c.R.Intn(2) == 0 {
				reg.Plate, want = c.NewPlate(), 3
				if d.Ver != jt.V2011 && c.R.Intn(2) == 0 {
					reg.Plate += strings.Repeat("X", []int{960, 1000, 1024, 2048, 5000, 65536}[c.R.Intn(6)]+c.R.Intn(64))
				}
			}
			body = reg.Body(d.Ver)
			f.reply = func(a *jt.Msg) error {
				ra, err := d.MatchReg(a, f.ms[len(f.ms)-1])
				if err == nil && int(ra.Result) != want {
					err = fmt.Errorf("registration of a registered phone answered %d %q, expected %d", ra.Result, ra.Code, want)
				}
				return err
			}
		}
		f.ms = d.Cut(id, body, c.RandCuts(len(body)))
		d.busy[id] = true
		return f
	}
	// time passes in the middle of the transfers; the devices keep talking
	rest := func() {
		flush()
		for n := 1 + c.R.Intn(4); n > 0; n-- {
			for _, d := range ds {
				if !d.gone {
					must(d.Beat())
				}
			}
			s := []int{1, 3, 6, 11, 16, 21, 31, 46, 58}[c.R.Intn(9)]
			hist += fmt.Sprintf(" pause%d", s)
			time.Sleep(time.Duration(s) * time.Second)
			c.Rec.Event("pauses_during_transfers", 1)
		}
	}
	type live struct {
		*fx
		dv *fdev
	}
	var act []live
	steps := 30 + c.R.Intn(60)
	for s := 0; s < steps || len(act) > 0; s++ {
		if s < steps && (len(act) == 0 || len(act) < 5 && c.R.Intn(4) == 0) {
			d := ds[c.R.Intn(len(ds))]
			if f := start(d); f != nil {
				act = append(act, live{f, d})
				hist += fmt.Sprintf(" %s:%d bytes in %d", f.name, totalLen(f.ms), len(f.ms))
				if len(f.ms) > 1 && c.R.Intn(6) == 0 {
					f.lost = true
				}
			}
		}
		if len(act) == 0 {
			continue
		}
		// fragments of removed devices are not sent
		for k := 0; k < len(act); k++ {
			if act[k].dv.gone {
				act = append(act[:k], act[k+1:]...)
				k--
			}
		}
		if len(act) == 0 {
			continue
		}
		if c.R.Intn(6) == 0 { // a whole message in between
			d := ds[c.R.Intn(len(ds))]
			if !d.gone {
				var m *jt.Msg
				if c.R.Intn(2) == 0 {
					m = d.MBeat()
				} else {
					l := c.RandLoc()
					m = d.MLoc(l)
					d.loc = l
				}
				hist += " w"
				send(m)
				pend = append(pend, ack(d, m, 0))
			}
		}
		k := c.R.Intn(len(act))
		a := act[k]
		burst := 1
		if len(a.ms) > 20 {
			burst = 1 + c.R.Intn(len(a.ms)/4)
		}
		for b := 0; b < burst; b++ {
			m := a.ms[a.next]
			last := a.next == len(a.ms)-1
			if a.lost && c.R.Intn(3) == 0 || a.lost && last { // lose this one (and the rest still comes)
				hist += fmt.Sprintf(" lose#%d", a.next+1)
				a.lost = false
				for a.next++; a.next < len(a.ms); a.next++ {
					send(a.ms[a.next])
					pend = append(pend, ack(a.dv, a.ms[a.next], 0))
				}
				look()
				c.Rec.Event("lost_fragments", 1)
				// the terminal starts over
				if c.R.Intn(2) == 0 {
					hist += " over"
					restart(a.fx)
					c.Rec.Event("restarts", 1)
				} else {
					delete(a.dv.busy, m.ID)
					act = append(act[:k], act[k+1:]...)
				}
				break
			}
			send(m)
			if last {
				if a.reply != nil {
					pend = append(pend, exp{"last fragment " + m.String(), a.reply})
				}
				if c.R.Intn(2) == 0 || a.apply != nil && c.R.Intn(2) == 0 {
					c.Rec.Event("effects_immediately_checked", 1)
					if a.apply != nil {
						a.apply()
					}
					// answers first, then the state
					if a.reply == nil { // no answer comes: a heartbeat marks the position
						hb := ds[c.R.Intn(len(ds))]
						if !hb.gone {
							x := hb.MBeat()
							send(x)
							pend = append(pend, ack(hb, x, 0))
						}
					}
					look()
				} else if a.apply != nil {
					a.apply()
				}
				if len(a.ms) > 1 && !a.dv.gone && c.R.Intn(4) == 0 { // the last fragment comes again
					hist += " dup-last"
					send(m)
					pend = append(pend, ack(a.dv, m, 0))
					if c.R.Intn(2) == 0 {
						look()
					}
					c.Rec.Event("duplicated_last_fragments", 1)
				}
				c.Rec.Event("transfers_completed", 1)
				c.Rec.Event("fragments", int64(len(a.ms)))
				c.Rec.Case("%s %d %d %v", a.name, totalLen(a.ms), len(a.ms), m.Serial)
				delete(a.dv.busy, m.ID)
				act = append(act[:k], act[k+1:]...)
				break
			}
			pend = append(pend, ack(a.dv, m, 0))
			a.next++
			switch c.R.Intn(14) {
			case 0: // retransmission of an earlier one
				r := a.ms[c.R.Intn(a.next)]
				send(r)
				pend = append(pend, ack(a.dv, r, 0))
				hist += fmt.Sprintf(" re#%d", r.Index)
				c.Rec.Event("retransmissions", 1)
			case 1:
				if a.again < 2 && c.R.Intn(4) == 0 { // restart from the first fragment
					a.again++
					hist += fmt.Sprintf(" restart@%d", a.next)
					if c.R.Intn(2) == 0 {
						restart(a.fx)
					} else if sn := a.ms[0].Serial; c.R.Intn(2) == 0 && recut(a.fx, c) {
						// a terminal that was rebooted: cut differently, under the same serial numbers
						hist += fmt.Sprintf(" recut:%d@%d", len(a.ms), sn)
						c.Rec.Event("recuts", 1)
					} else { // same serial numbers: repeats what was sent
						for _, r := range a.ms[:a.next] {
							send(r)
							pend = append(pend, ack(a.dv, r, 0))
						}
					}
					c.Rec.Event("restarts", 1)
				}
			case 2:
				look()
			case 3:
				if virtual && c.R.Intn(8) == 0 {
					rest()
				}
			}
		}
		if c.R.Intn(3) == 0 {
			flush()
		}
	}
	look()
	for _, d := range ds {
		if !d.gone {
			must(d.Beat() && d.Logout())
		}
	}
	c.ExpectSilence(t, "after the transfers")
	if ep < 2 && w == 0 {
		if len(hist) > 600 {
			hist = hist[:600]
		}
		c.Rec.Sample(map[string]any{"episode": hist})
	}
}

// alike makes an identity with the digits of o in the other phone width and the same serial numbers.
func (c *Ctx) alike(o *Dev) *Dev {
	v := jt.V2019
	if o.Ver == jt.V2019 {
		v = Versions[c.R.Intn(2)]
	}
	d := c.NewDev(v)
	n := v.PhoneLen()
	d.Phone = (strings.Repeat("0", n) + o.Phone)[len(o.Phone):]
	d.serial = o.serial
	return d
}

// restart renumbers a transfer with fresh serial numbers.
func restart(f *fx) {
	var ms []*jt.Msg
	for _, m := range f.ms {
		n := f.d.Msg(m.ID, m.Body)
		n.Frag, n.Total, n.Index = true, m.Total, m.Index
		ms = append(ms, n)
	}
	f.ms, f.next = ms, 0
}

// recut cuts a transfer into another number of fragments, with the serial numbers it had.
func recut(f *fx, c *Ctx) bool {
	var body []byte
	for _, m := range f.ms {
		body = append(body, m.Body...)
	}
	cuts := c.RandCuts(len(body))
	if len(cuts)+1 == len(f.ms) {
		return false
	}
	sn, keep := f.ms[0].Serial, f.d.serial
	f.d.serial = sn - 1
	f.ms, f.next = f.d.Cut(f.ms[0].ID, body, cuts), 0
	f.d.serial = keep
	return true
}

func totalLen(ms []*jt.Msg) (n int) {
	for _, m := range ms {
		n += len(m.Body)
	}
	return
}

// c14run: long runs of consecutive fragmented reports of concurrent devices,
// across the wrap-around of their serial numbers.
func c14run(c *Ctx) {
	c.Par(4, func(w int, c *Ctx) {
		d := c.Up(Versions[w%3])
		defer d.T.Close()
		d.serial = uint16(65536 - 30 - c.R.Intn(300))
		var first uint16
		var size int
		var last []int
		for i := 0; i < c.Scale && !c.Failed(); i++ {
			l := c.RandLoc()
			if c.R.Intn(8) == 0 {
				l.Extra = make([]byte, c.R.Intn(900))
				c.R.Read(l.Extra)
			}
			b := l.Body()
			cuts := c.RandCuts(len(b))
			if i > 0 && c.R.Intn(5) == 0 {
				// after a reboot: another report, cut as the last one and under its serial numbers
				l.Extra = make([]byte, size-28)
				c.R.Read(l.Extra)
				b, cuts, d.serial = l.Body(), last, first-1
				c.Rec.Event("serial_numbers_reused", 1)
			}
			first, size, last = d.serial+1, len(b), cuts
			ms := d.Cut(0x0200, b, cuts)
			must(d.T.Send(ms...) == nil)
			for _, m := range ms {
				must(d.ExpectAns(m, 0))
			}
			if err := MatchGeo(c.GetGeo(d.Phone), d.Phone, l); err != nil {
				c.Violate("fragmented report %d (%d fragments): %v", i, len(ms), err)
				return
			}
			c.Rec.Event("transfers_completed", 1)
			c.Rec.Event("fragments", int64(len(ms)))
			c.Rec.Case("%s %d %d", d.Phone, i, len(ms))
		}
	})
}
