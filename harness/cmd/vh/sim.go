package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
	"github.com/fakeyanss/jt808-server-go/zzverif/senv"
)

// peer is the monitor's end of one simulator connection.
type peer struct {
	c      *scn.Ctx
	sim    *senv.Sim
	t      *scn.Term
	d      *scn.Dev // identity as seen
	serial uint16
	r      *rand.Rand

	mu    sync.Mutex
	beats []time.Time
	locs  []time.Time
	ans   chan scn.Rx // everything but heartbeats and reports

	acks  bool // reports and heartbeats are answered, set before collect
	since time.Time
	wmu   sync.Mutex
}

var verNames = map[string]jt.Ver{"2013": jt.V2013, "2019": jt.V2019}

func (p *peer) fail(f string, a ...any) {
	if e := p.sim.Check(); e != nil {
		f, a = f+"; %v", append(a, e)
	}
	p.c.Violate(f, a...)
	scn.Abort()
}

// write sends a platform message, in pieces when chunk is set.
func (p *peer) write(chunk bool, ms ...*jt.Msg) {
	var b []byte
	for _, m := range ms {
		b = append(b, m.Frame()...)
	}
	var err error
	p.wmu.Lock()
	defer p.wmu.Unlock()
	if chunk {
		err = p.c.SendSplit(p.t, b)
	} else {
		err = p.t.Raw(b)
	}
	if err != nil {
		p.fail("the simulator closed its connection: %v", err)
	}
}

func (p *peer) msg(id uint16, body []byte) *jt.Msg {
	p.serial++
	return &jt.Msg{ID: id, Ver: p.d.Ver, VerByte: p.d.VerByte, Phone: p.d.Phone, Serial: p.serial, Body: body}
}

// next is the next frame of the simulator.
func (p *peer) next(what string) scn.Rx {
	x, o := p.t.Next()
	if o != scn.Got {
		p.fail("%s: %s", what, p.t.Describe(x, o))
	}
	return x
}

// quiet checks that the simulator sends nothing for d.
func (p *peer) quiet(d time.Duration, what string) {
	x, o := p.t.NextFor(d)
	if o != scn.Silent {
		p.fail("%s: %s", what, p.t.Describe(x, o))
	}
}

type simCase struct {
	version          string
	keepalive, ivl   int
	level            string
	phone, plate, id string
	imei             string
	phoneDigits      string
	conns            int
	loose            bool // phone and plate are patterns, not constants
}

func (r *Run) newSim(c *scn.Ctx, name string, k simCase) *senv.Sim {
	bin, err := r.bin("client", false)
	if err != nil {
		scn.Harness("simulator not buildable: %v", err)
	}
	return senv.StartSim(senv.SimOpt{Bin: bin, Dir: filepath.Join(r.Scratch, "sim-"+name), Version: k.version, Phone: k.phone, Plate: k.plate,
		ID: k.id, IMEI: k.imei, Keepalive: k.keepalive, Interval: k.ivl, Level: k.level, Concurrency: k.conns})
}

// hello performs the registration phase and checks it.
func hello(c *scn.Ctx, sim *senv.Sim, k simCase, patient bool) *peer {
	p := &peer{c: c, sim: sim, r: c.R, serial: uint16(c.R.Intn(65536)), ans: make(chan scn.Rx, 4096)}
	l, err := sim.Accept(60 * time.Second)
	if err != nil {
		c.Violate("the simulator does not connect: %v; %v", err, sim.Check())
		scn.Abort()
	}
	p.t = c.Wrap(l)
	m := p.next("waiting for the registration")
	v := verNames[k.version]
	vb := uint8(0)
	if v == jt.V2019 {
		vb = 1
	}
	phone := k.phoneDigits
	if k.loose {
		if phone = m.Phone; len(phone) != v.PhoneLen() || !matches("0*("+k.phone+")", phone) {
			p.fail("phone %q does not match the configured %q", phone, k.phone)
		}
	}
	for len(phone) < v.PhoneLen() {
		phone = "0" + phone
	}
	p.d = c.View(v, vb, phone)
	if m.ID != 0x0100 {
		p.fail("the simulator's first message is not a registration: %s", m.Msg)
	}
	if m.Ver == jt.V2019 {
		p.d.VerByte = m.VerByte
	}
	if err := p.d.CheckHeader(m.Msg); err != nil {
		p.fail("registration: %v", err)
	}
	a, b, w := v.Widths()
	plate := jt.GBK(k.plate)
	if k.loose && len(m.Body) > 4+a+b+w+1 {
		plate = m.Body[4+a+b+w+1:]
		if !matches(k.plate, string(plate)) {
			p.fail("plate %q does not match the configured %q", plate, k.plate)
		}
	}
	if len(m.Body) != 4+a+b+w+1+len(plate) {
		p.fail("registration body of %d bytes for version %s: %s", len(m.Body), k.version, m.Msg)
	}
	if !bytes.Equal(m.Body[4+a+b+w+1:], plate) {
		p.fail("registration carries plate %x, configured %x", m.Body[4+a+b+w+1:], plate)
	}
	if id := strings.TrimRight(string(m.Body[4+a+b:4+a+b+w]), "\x00"); id != k.id {
		p.fail("registration carries device id %q, configured %q", id, k.id)
	}
	if pr, ci := binary.BigEndian.Uint16(m.Body), binary.BigEndian.Uint16(m.Body[2:]); pr > 99 || ci > 9999 {
		p.fail("registration with province %d city %d", pr, ci)
	}
	if patient {
		p.quiet(1500*time.Millisecond, "message before the registration was answered")
	}
	code := []byte(fmt.Sprintf("%d", c.R.Uint32()))
	switch c.R.Intn(3) {
	case 0:
		code = make([]byte, 1+c.R.Intn(200))
		for i := range code {
			code[i] = []byte{0x7e, 0x7d, 0x01, 0x02, 'A', '9', '_', ' '}[c.R.Intn(8)]
		}
	case 1:
		code = append(code, '_', 'x')
	}
	p.write(true, p.msg(0x8100, jt.RegAns{Serial: m.Serial, Code: string(code)}.Body()))
	m = p.next("waiting for the authentication")
	if m.ID != 0x0102 {
		p.fail("expected authentication after the registration answer, got %s", m.Msg)
	}
	if err := p.d.CheckHeader(m.Msg); err != nil {
		p.fail("authentication: %v", err)
	}
	if v != jt.V2019 {
		if !bytes.Equal(m.Body, code) {
			p.fail("authentication with code %q, given %q", m.Body, code)
		}
	} else {
		if len(m.Body) < 1 || int(m.Body[0]) != len(code) || len(m.Body) != 1+len(code)+15+20 || !bytes.Equal(m.Body[1:1+len(code)], code) {
			p.fail("authentication body %x for code %x", m.Body, code)
		}
		if im := string(m.Body[1+len(code) : 1+len(code)+15]); im != k.imei {
			p.fail("authentication with IMEI %q, configured %q", im, k.imei)
		}
	}
	if patient {
		p.quiet(2*time.Second, "message before the authentication was answered")
	}
	p.serialOfAuth(m.Serial)
	return p
}

var authSerial sync.Map

func (p *peer) serialOfAuth(s uint16) { authSerial.Store(p, s) }

// ack answers a request of the simulator as the platform would.
func (p *peer) ack(x scn.Rx) {
	if !p.acks {
		return
	}
	m := &jt.Msg{ID: 0x8001, Ver: p.d.Ver, VerByte: p.d.VerByte, Phone: p.d.Phone, Serial: x.Serial,
		Body: jt.Ans{Serial: x.Serial, ID: x.ID}.Body()}
	p.wmu.Lock()
	defer p.wmu.Unlock()
	// A simulator that has gone shows in what it no longer sends.
	_ = p.t.Raw(m.Frame())
}

// accept answers the authentication.
func (p *peer) accept(result uint8) {
	p.since = time.Now()
	s, _ := authSerial.Load(p)
	p.write(true, p.msg(0x8001, jt.Ans{Serial: s.(uint16), ID: 0x0102, Result: result}.Body()))
}

// collect classifies the frames of an online simulator until the connection ends.
func (p *peer) collect() {
	go func() {
		defer close(p.ans)
		for {
			x, o := p.t.NextFor(time.Hour)
			if o != scn.Got {
				if o == scn.Malformed {
					p.c.Violate("simulator sent a malformed stream: %v", p.t.Bad())
				}
				return
			}
			if err := p.d.CheckHeader(x.Msg); err != nil {
				p.c.Violate("simulator: %v", err)
			}
			switch x.ID {
			case 0x0002:
				if len(x.Body) != 0 {
					p.c.Violate("heartbeat with a body: %s", x.Msg)
				}
				p.mu.Lock()
				p.beats = append(p.beats, x.At)
				p.mu.Unlock()
				p.ack(x)
			case 0x0200:
				if err := locInRange(x.Body); err != nil {
					p.c.Violate("location report: %v: %s", err, x.Msg)
				}
				p.mu.Lock()
				p.locs = append(p.locs, x.At)
				p.mu.Unlock()
				p.ack(x)
			default:
				p.ans <- x
			}
		}
	}()
}

func locInRange(b []byte) error {
	if len(b) < 28 {
		return fmt.Errorf("body of %d bytes", len(b))
	}
	lat, lon := binary.BigEndian.Uint32(b[8:]), binary.BigEndian.Uint32(b[12:])
	alt, speed, dir := binary.BigEndian.Uint16(b[16:]), binary.BigEndian.Uint16(b[18:]), binary.BigEndian.Uint16(b[20:])
	ts, ok := jt.UnBCD(b[22:28])
	switch {
	case lat > 90000000:
		return fmt.Errorf("latitude %d", lat)
	case lon > 180000000:
		return fmt.Errorf("longitude %d", lon)
	case alt > 5000:
		return fmt.Errorf("altitude %d", alt)
	case speed > 3000:
		return fmt.Errorf("speed %d", speed)
	case dir > 359:
		return fmt.Errorf("direction %d", dir)
	case !ok:
		return fmt.Errorf("time %s", ts)
	}
	t, err := time.Parse("060102150405", ts)
	if err != nil {
		return fmt.Errorf("time %s: %v", ts, err)
	}
	if d := time.Since(t); d > 10*time.Minute || d < -10*time.Minute {
		return fmt.Errorf("time stamp %s is not now", ts)
	}
	return nil
}

// answer waits for the next answer.
func (p *peer) answer(what string) scn.Rx {
	select {
	case x, ok := <-p.ans:
		if !ok {
			p.fail("%s: connection ended", what)
		}
		return x
	case <-time.After(30 * time.Second):
		p.fail("%s: not answered", what)
	}
	panic("unreachable")
}

// params is the model of a terminal's parameters.
type params map[uint32][]byte

func (m params) size() int {
	n := 3
	for _, v := range m {
		n += 5 + len(v)
	}
	return n
}

func (m params) equal(its []jt.Item) error {
	if len(its) != len(m) {
		return fmt.Errorf("%d items, expected %d", len(its), len(m))
	}
	for _, it := range its {
		w, ok := m[it.ID]
		if !ok {
			return fmt.Errorf("unexpected item %08x=%x", it.ID, it.Val)
		}
		if !bytes.Equal(w, it.Val) {
			return fmt.Errorf("item %08x is %x, set to %x", it.ID, it.Val, w)
		}
	}
	return nil
}

func parse0104(m *jt.Msg, serial uint16) ([]jt.Item, error) {
	if m.ID != 0x0104 || len(m.Body) < 3 {
		return nil, fmt.Errorf("expected parameter answer, got %s", m)
	}
	if s := binary.BigEndian.Uint16(m.Body); s != serial {
		return nil, fmt.Errorf("parameter answer names serial %d, query had %d", s, serial)
	}
	its, err := jt.ParseItems(m.Body[2:])
	if err != nil {
		return nil, fmt.Errorf("%v in %s", err, m)
	}
	seen := map[uint32]bool{}
	for _, it := range its {
		if seen[it.ID] {
			return nil, fmt.Errorf("parameter %08x reported twice", it.ID)
		}
		seen[it.ID] = true
	}
	return its, nil
}

// query reads the terminal's parameters.
func (p *peer) query(chunk bool) []jt.Item {
	q := p.msg(0x8104, nil)
	p.write(chunk, q)
	its, err := parse0104(p.answer("parameter query").Msg, q.Serial)
	if err != nil {
		p.fail("%v", err)
	}
	return its
}

// altered is a different value of the same length, nil if there is no simple
// one.
func altered(r *rand.Rand, id uint32, v []byte) []byte {
	if len(v) == 0 {
		return nil
	}
	x := slices.Clone(v)
	i := r.Intn(len(x))
	if k := jt.Params[id]; k == jt.KGBK || k == jt.KStr {
		for _, b := range x {
			if b < 0x20 || b > 0x7e {
				return nil
			}
		}
		x[i] = byte('a' + r.Intn(26))
	} else {
		x[i] ^= byte(1 << r.Intn(8))
	}
	return x
}

// randSet makes a setting that keeps the answer within one message.
func randSet(r *rand.Rand, m params, n int) []jt.Item {
	var out []jt.Item
	now := m.size()
	seen := map[uint32]bool{}
	for k := 0; k < n; k++ {
		id := scn.ParamIDs()[r.Intn(len(scn.ParamIDs()))]
		if seen[id] {
			continue
		}
		room := 14
		if r.Intn(5) == 0 {
			room = 255
		}
		if r.Intn(3) == 0 && len(m) > 0 { // one that has a value already
			have := make([]uint32, 0, len(m))
			for x := range m {
				have = append(have, x)
			}
			slices.Sort(have)
			if id = have[r.Intn(len(have))]; seen[id] {
				continue
			}
		}
		v, _ := scn.RandVal(r, jt.Params[id], room)
		if w, ok := m[id]; ok && r.Intn(2) == 0 {
			if x := altered(r, id, w); x != nil {
				v = x
			}
		}
		grow := len(v) - len(m[id])
		if _, ok := m[id]; !ok {
			grow = 5 + len(v)
		}
		if now+grow > 1000 {
			continue
		}
		now += grow
		seen[id] = true
		out = append(out, jt.Item{ID: id, Val: v})
	}
	return out
}

// c13sim: setting and querying a terminal directly.
func c13sim(r *Run, c *scn.Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		k := randCase(c, i)
		k.keepalive, k.ivl = 100, 100
		sim := r.newSim(c, fmt.Sprintf("%d-%d", c.Worker, i), k)
		func() {
			defer sim.Stop()
			c.Env = senv.SimEnv{S: sim}
			p := hello(c, sim, k, false)
			p.accept(0)
			p.collect()
			m := params{}
			known := i%2 == 0
			if known { // the defaults
				for _, it := range p.query(false) {
					m[it.ID] = it.Val
				}
			}
			for n := 0; n < 60 && !c.Failed(); n++ {
				its := randSet(c.R, m, 1+c.R.Intn(12))
				wire := append([]jt.Item{}, its...)
				if c.R.Intn(3) == 0 { // unsupported ones in between
					for u := 0; u < 1+c.R.Intn(3); u++ {
						at := c.R.Intn(len(wire) + 1)
						v := make([]byte, c.R.Intn(9))
						c.R.Read(v)
						wire = append(wire[:at:at], append([]jt.Item{{ID: scn.UnknownIDs[c.R.Intn(len(scn.UnknownIDs))], Val: v}}, wire[at:]...)...)
					}
					c.Rec.Event("settings_with_unsupported_ids", 1)
				}
				set := p.msg(0x8103, jt.Items(wire))
				p.write(c.R.Intn(2) == 0, set)
				x := p.answer("parameter setting")
				a, err := jt.ParseAns(x.Body)
				if x.ID != 0x0001 || err != nil || a.Serial != set.Serial || a.ID != 0x8103 || a.Result != 0 {
					p.fail("setting %s answered with %s", set, x.Msg)
				}
				for _, it := range its {
					m[it.ID] = it.Val
				}
				got := p.query(c.R.Intn(2) == 0)
				if !known { // whatever defaults there are, they stay
					known = true
					for _, it := range got {
						if _, ok := m[it.ID]; !ok {
							m[it.ID] = it.Val
						}
					}
				}
				if err := m.equal(got); err != nil {
					p.fail("after setting %s: %v", set, err)
				}
				c.Rec.Event("terminal_items_compared", int64(len(got)))
				c.Rec.Case("%x", set.Body)
			}
		}()
	}
}

func randCase(c *scn.Ctx, i int) simCase {
	k := simCase{version: []string{"2019", "2013"}[(i+c.Worker)%2], level: []string{"DEBUG", "ERROR"}[c.R.Intn(2)]}
	n := verNames[k.version].PhoneLen()
	d := ""
	for len(d) < 1+c.R.Intn(n) {
		d += string(rune('0' + c.R.Intn(10)))
	}
	k.phone, k.phoneDigits = d, d
	k.plate = []string{"京A12345", "沪", "A1", "粤B", "鄂A7Z8Y9", "测试车辆"}[c.R.Intn(6)] + fmt.Sprint(c.R.Intn(100))
	w := 7
	if k.version == "2019" {
		w = 30
	}
	for len(k.id) < 1+c.R.Intn(w) {
		k.id += string(rune('A' + c.R.Intn(26)))
	}
	for len(k.imei) < 15 {
		k.imei += string(rune('0' + c.R.Intn(10)))
	}
	return k
}

// c13e2e: HTTP, platform and simulator together, with the wire observed in between.
func c13e2e(r *Run, c *scn.Ctx) {
	job := fmt.Sprintf("X/c13e2e/w%d", c.Worker)
	srv := r.startServer(job, senv.Opt{Level: "ERROR"})
	defer srv.Stop()
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		k := randCase(c, i)
		k.keepalive, k.ivl = 20, 20
		k.plate = "E" + fmt.Sprint(100+i)
		sim := r.newSim(c, fmt.Sprintf("e%d-%d", c.Worker, i), k)
		func() {
			defer sim.Stop()
			c.Env = srv
			l, err := sim.Accept(60 * time.Second)
			if err != nil {
				c.Violate("the simulator does not connect: %v; %v", err, sim.Check())
				return
			}
			down, up := c.Wrap(l), c.Dial()
			defer down.Close()
			defer up.Close()
			fromTerm, fromPlat := make(chan scn.Rx, 4096), make(chan scn.Rx, 4096)
			pump := func(a, b *scn.Term, tap chan scn.Rx, name string) {
				defer close(tap)
				for {
					x, o := a.NextFor(time.Hour)
					if o != scn.Got {
						if o == scn.Malformed {
							c.Violate("%s sent a malformed stream: %v", name, a.Bad())
						}
						b.Close()
						return
					}
					if b.Raw(x.Raw) != nil {
						return
					}
					tap <- x
				}
			}
			go pump(down, up, fromTerm, "terminal")
			go pump(up, down, fromPlat, "platform")
			wait := func(ch chan scn.Rx, id uint16, what string) *jt.Msg {
				end := time.After(30 * time.Second)
				for {
					select {
					case x, ok := <-ch:
						if !ok {
							c.Violate("%s: connection ended; %v", what, sim.Check())
							scn.Abort()
						}
						if x.ID == id {
							return x.Msg
						}
						if x.ID == 0x0104 || x.ID == 0x8103 || x.ID == 0x8104 {
							c.Violate("%s: unexpected %s", what, x.Msg)
							scn.Abort()
						}
					case <-end:
						c.Violate("%s: no %04x", what, id)
						scn.Abort()
					}
				}
			}
			phone := wait(fromTerm, 0x0100, "registration").Phone
			wait(fromTerm, 0x0102, "authentication")
			wait(fromPlat, 0x8001, "authentication")
			m := params{}
			known := false
			for n := 0; n < 40 && !c.Failed(); n++ {
				its := randSet(c.R, m, 1+c.R.Intn(10))
				var ps []scn.HTTPParam
				for _, it := range its {
					ps = append(ps, scn.HTTPParam{ParamID: it.ID, ParamLen: len(it.Val), ParamValue: jsonVal(it)})
				}
				if st := c.Issue(phone, scn.Cmd{Method: "PUT", Body: scn.PutBody(ps)}); st != 200 {
					c.Violate("setting refused with %d: %s", st, scn.PutBody(ps))
					return
				}
				set := wait(fromPlat, 0x8103, "setting")
				if gi, err := jt.ParseItems(set.Body); err != nil || !sameItems(gi, its) {
					c.Violate("setting %s became %s (%v)", scn.PutBody(ps), set, err)
					return
				}
				wait(fromTerm, 0x0001, "setting")
				for _, it := range its {
					m[it.ID] = it.Val
				}
				if st := c.Issue(phone, scn.Cmd{Method: "GET"}); st != 200 {
					c.Violate("query refused with %d", st)
					return
				}
				q := wait(fromPlat, 0x8104, "query")
				a := wait(fromTerm, 0x0104, "query")
				got, err := parse0104(a, q.Serial)
				if err != nil {
					c.Violate("%v", err)
					return
				}
				if !known {
					known = true
					for _, it := range got {
						if _, ok := m[it.ID]; !ok {
							m[it.ID] = it.Val
						}
					}
				}
				if err := m.equal(got); err != nil {
					c.Violate("set through HTTP %s, queried: %v", scn.PutBody(ps), err)
					return
				}
				c.Rec.Event("end_to_end_items_compared", int64(len(got)))
				c.Rec.Case("e2e %x", set.Body)
			}
		}()
	}
}

func sameItems(a, b []jt.Item) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID || !bytes.Equal(a[i].Val, b[i].Val) {
			return false
		}
	}
	return true
}

// jsonVal is the HTTP form of a wire value.
func jsonVal(it jt.Item) any {
	switch jt.Params[it.ID] {
	case jt.KByte:
		return it.Val[0]
	case jt.KWord:
		return binary.BigEndian.Uint16(it.Val)
	case jt.KDWord:
		return binary.BigEndian.Uint32(it.Val)
	case jt.KBytes:
		return fmt.Sprintf("%X", it.Val)
	case jt.KGBK:
		t, _ := jt.UnGBK(it.Val)
		return t
	}
	return string(it.Val)
}

// c20: the simulator against a monitoring platform.
func c20(r *Run, c *scn.Ctx) {
	root := c
	c.Par(c.Scale, func(i int, c *scn.Ctx) {
		k := randCase(root2(c, root), i)
		k.keepalive, k.ivl = 1+i%2, 1+(i/2)%2
		if i%4 == 3 {
			k.keepalive, k.ivl = 1, 2
		}
		sim := r.newSim(c, fmt.Sprintf("t%d-%d", c.Worker, i), k)
		defer sim.Stop()
		c.Env = senv.SimEnv{S: sim}
		p := hello(c, sim, k, true)
		if i%5 == 4 { // refused: stay silent
			p.accept(1 + uint8(c.R.Intn(4)))
			p.quiet(3500*time.Millisecond, "message after a failed authentication")
			c.Rec.Case("refused %s %s", k.version, k.phone)
			c.Rec.Event("refused_authentications_respected", 1)
			return
		}
		t0 := time.Now()
		p.accept(0)
		p.collect()
		// commands in every mix and chunking
		type want struct {
			m   *jt.Msg
			its []jt.Item
		}
		nCmd := 0
		for n := 0; n < 30 && !c.Failed(); n++ {
			var ws []want
			var ms []*jt.Msg
			odd := false
			for j := 0; j < 1+c.R.Intn(6); j++ {
				var m *jt.Msg
				switch c.R.Intn(4) {
				case 0:
					its := scn.RandItems(c.R, c.R.Intn(4))
					m = p.msg(0x8103, jt.Items(its))
				case 1, 2:
					m = p.msg(0x9205, scn.MediaQuery(c.R))
				case 3:
					m = p.msg(0x8104, nil)
				}
				if n < 1 && m.ID == 0x8103 {
					m.ID, m.Body = 0x8104, nil
				}
				ws = append(ws, want{m: m})
				ms = append(ms, m)
			}
			if n%15 == 7 { // not supported: ignored, the rest is served
				odd = true
				ms = append([]*jt.Msg{p.msg(0x8300, []byte{1, 'x'})}, ms...)
			}
			p.write(c.R.Intn(2) == 0, ms...)
			for _, w := range ws {
				x := p.answer(fmt.Sprintf("command %s", w.m))
				if err := matchSim(x.Msg, w.m); err != nil {
					p.fail("%v", err)
				}
				nCmd++
			}
			_ = odd
			c.Rec.Case("%s %v", k.version, ids(ms))
		}
		c.Rec.Event("commands_answered", int64(nCmd))
		// heartbeats and reports keep coming at their intervals
		end := time.Now().Add(60 * time.Second)
		for {
			p.mu.Lock()
			b, l := len(p.beats), len(p.locs)
			p.mu.Unlock()
			if b >= 5 && l >= 5 || c.Failed() {
				break
			}
			if time.Now().After(end) {
				p.fail("after %v: %d heartbeats and %d location reports at intervals of %d and %d s", time.Since(t0), b, l, k.keepalive, k.ivl)
			}
			time.Sleep(50 * time.Millisecond)
		}
		if c.Failed() {
			scn.Abort()
		}
		check := func(ts []time.Time, ivl int, what string) {
			el := time.Since(t0).Seconds()
			if n := len(ts); float64(n) > el/float64(ivl)+1.5 {
				p.fail("%d %ss within %.1f s at an interval of %d s", n, what, el, ivl)
			}
			var gaps []float64
			for j := 1; j < len(ts); j++ {
				gaps = append(gaps, ts[j].Sub(ts[j-1]).Seconds())
			}
			sort.Float64s(gaps)
			if gaps[0] > float64(ivl)*1.45 {
				p.fail("%ss never closer than %.2f s at an interval of %d s", what, gaps[0], ivl)
			}
		}
		p.mu.Lock()
		bs, ls := append([]time.Time{}, p.beats...), append([]time.Time{}, p.locs...)
		p.mu.Unlock()
		check(bs, k.keepalive, "heartbeat")
		check(ls, k.ivl, "location report")
		c.Rec.Event("heartbeats", int64(len(bs)))
		c.Rec.Event("reports", int64(len(ls)))
		select {
		case x := <-p.ans:
			if x.Msg != nil {
				p.fail("unsolicited message %s", x.Msg)
			}
		default:
		}
		if i < 2 {
			c.Rec.Sample(map[string]any{"version": k.version, "phone": k.phone, "keepalive_s": k.keepalive, "report_s": k.ivl, "commands": nCmd, "heartbeats": len(bs), "reports": len(ls)})
		}
	})
}

// c20long: terminals that stay in service for a while keep up their heartbeats
// and reports and keep answering. Scale is the time in seconds.
func c20long(r *Run, c *scn.Ctx) {
	root := c
	c.Par(4, func(i int, c *scn.Ctx) {
		k := randCase(root2(c, root), i)
		k.keepalive, k.ivl = 1+i%2, 1+(i/2)%2
		sim := r.newSim(c, fmt.Sprintf("l%d-%d", c.Worker, i), k)
		defer sim.Stop()
		c.Env = senv.SimEnv{S: sim}
		p := hello(c, sim, k, true)
		if i != 3 { // one platform that leaves everything unanswered
			p.acks = true
		}
		p.accept(0)
		p.collect()
		stop := time.Now().Add(time.Duration(c.Scale) * time.Second)
		counts := func() (int, int) {
			p.mu.Lock()
			defer p.mu.Unlock()
			return len(p.beats), len(p.locs)
		}
		for n := 0; time.Now().Before(stop) && !c.Failed(); n++ {
			// both go on after any command and any pause
			b, l := counts()
			at := time.Now()
			for {
				b1, l1 := counts()
				if b1 > b && l1 > l || c.Failed() {
					break
				}
				if time.Since(at) > 60*time.Second {
					p.fail("in service for %v, nothing but %d heartbeats and %d location reports for a minute", time.Since(p.since).Round(time.Second), b1-b, l1-l)
				}
				time.Sleep(50 * time.Millisecond)
			}
			if n%2 == 1 {
				m := p.msg(0x8104, nil)
				if c.R.Intn(2) == 0 {
					m = p.msg(0x9205, scn.MediaQuery(c.R))
				}
				p.write(c.R.Intn(2) == 0, m)
				if err := matchSim(p.answer("command").Msg, m); err != nil {
					p.fail("%v", err)
				}
				c.Rec.Event("commands_answered", 1)
			}
		}
		b, l := counts()
		c.Rec.Event("heartbeats", int64(b))
		c.Rec.Event("reports", int64(l))
		c.Rec.Case("in service %s %s", k.version, k.phone)
	})
}

func matches(re, s string) bool {
	ok, err := regexp.MatchString("^(?:"+re+")$", s)
	return ok && err == nil
}

// c20multi: many terminals within one simulator are independent of each other.
func c20multi(r *Run, c *scn.Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		k := randCase(c, i)
		k.loose, k.phone, k.plate, k.conns = true, "1[0-9]{9}", "[A-Z]{4}[0-9]{4}", 3+c.R.Intn(6)
		k.keepalive, k.ivl = 1, 1
		sim := r.newSim(c, fmt.Sprintf("m%d-%d", c.Worker, i), k)
		func() {
			defer sim.Stop()
			c.Env = senv.SimEnv{S: sim}
			var ps []*peer
			phones := map[string]bool{}
			for j := 0; j < k.conns; j++ {
				p := hello(c, sim, k, false)
				if phones[p.d.Phone] {
					p.fail("two of %d terminals use phone %s", k.conns, p.d.Phone)
				}
				phones[p.d.Phone] = true
				ps = append(ps, p)
			}
			// those not yet accepted say nothing
			held := ps[k.conns-1]
			for _, p := range ps[:k.conns-1] {
				p.accept(0)
				p.collect()
			}
			ms := make([]params, len(ps)-1)
			for j := range ms {
				ms[j] = params{}
				for _, it := range ps[j].query(false) {
					ms[j][it.ID] = it.Val
				}
			}
			live := len(ms)
			for n := 0; n < 40 && !c.Failed(); n++ {
				if n == 25 && live > 2 {
					live--
					ps[live].t.Close()
				}
				var wg sync.WaitGroup
				for j := 0; j < live; j++ {
					its := randSet(c.R, ms[j], 1+c.R.Intn(6))
					p, m := ps[j], ms[j]
					wg.Add(1)
					chunk := c.R.Intn(3) == 0
					go func() {
						defer wg.Done()
						defer func() {
							if x := recover(); x != nil && !c.Failed() {
								panic(x)
							}
						}()
						set := p.msg(0x8103, jt.Items(its))
						q := p.msg(0x8104, nil)
						if chunk {
							p.write(false, set)
							p.write(false, q)
						} else {
							p.write(false, set, q)
						}
						if err := matchSim(p.answer("parameter setting").Msg, set); err != nil {
							p.fail("%v", err)
						}
						for _, it := range its {
							m[it.ID] = it.Val
						}
						got, err := parse0104(p.answer("parameter query").Msg, q.Serial)
						if err == nil {
							err = m.equal(got)
						}
						if err != nil {
							p.fail("%d terminals in one simulator, after setting %s: %v", k.conns, set, err)
						}
					}()
				}
				wg.Wait()
				c.Rec.Case("multi %s %d %d", k.version, k.conns, n)
				c.Rec.Event("terminals_compared", int64(live))
			}
			if c.Failed() {
				return
			}
			held.quiet(500*time.Millisecond, "terminal whose authentication is not answered")
			held.accept(0)
			held.collect()
			ps = append(ps[:live:live], held)
			for _, p := range ps {
				p.mu.Lock()
				b0, l0 := len(p.beats), len(p.locs)
				p.mu.Unlock()
				end := time.Now().Add(30 * time.Second)
				for {
					p.mu.Lock()
					b, l := len(p.beats)-b0, len(p.locs)-l0
					p.mu.Unlock()
					if b >= 2 && l >= 2 || c.Failed() {
						break
					}
					if time.Now().After(end) {
						p.fail("terminal %s of %d in one simulator: %d heartbeats and %d location reports within 30 s at intervals of 1 s", p.d.Phone, k.conns, b, l)
					}
					time.Sleep(20 * time.Millisecond)
				}
			}
		}()
	}
}

func root2(c, root *scn.Ctx) *scn.Ctx { c.Worker = root.Worker; return c }

func ids(ms []*jt.Msg) (out []uint16) {
	for _, m := range ms {
		out = append(out, m.ID)
	}
	return
}

// matchSim checks the simulator's answer to a command.
func matchSim(x, m *jt.Msg) error {
	switch m.ID {
	case 0x8103:
		a, err := jt.ParseAns(x.Body)
		if x.ID != 0x0001 || err != nil || a.Serial != m.Serial || a.ID != 0x8103 || a.Result != 0 {
			return fmt.Errorf("command %s answered with %s", m, x)
		}
	case 0x8104:
		if _, err := parse0104(x, m.Serial); err != nil {
			return fmt.Errorf("command %s: %v", m, err)
		}
	case 0x9205:
		if x.ID != 0x1205 || len(x.Body) < 6 || binary.BigEndian.Uint16(x.Body) != m.Serial {
			return fmt.Errorf("command %s answered with %s", m, x)
		}
		n := int(binary.BigEndian.Uint32(x.Body[2:]))
		if len(x.Body) != 6+28*n {
			return fmt.Errorf("resource list of %d items has %d bytes: %s", n, len(x.Body), x)
		}
		for i := 0; i < n; i++ {
			it := x.Body[6+28*i:]
			if it[0] != m.Body[0] || !bytes.Equal(it[1:13], m.Body[1:13]) {
				return fmt.Errorf("resource %d does not match the query %s: %s", i, m, x)
			}
		}
	}
	return nil
}
