package scn

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net/url"
	"sync"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c11", c11)
	Register("c11con", c11con)
}

// Cmd is one HTTP command with the frame it has to produce.
type Cmd struct {
	Method string
	Body   []byte
	ID     uint16
	Items  []jt.Item
}

// RandCmd makes a legal command.
func RandCmd(r *rand.Rand) Cmd {
	if r.Intn(3) == 0 {
		return Cmd{Method: "GET", ID: 0x8104}
	}
	ps, its := RandPut(r, 1+r.Intn(6), 20)
	return Cmd{Method: "PUT", Body: PutBody(ps), ID: 0x8103, Items: its}
}

// Match checks a received frame against the command.
func (k Cmd) Match(d *Dev, m *jt.Msg) error {
	if m.ID != k.ID {
		return fmt.Errorf("frame %s for %s command", m, k.Method)
	}
	if err := d.CheckHeader(m); err != nil {
		return err
	}
	if k.ID == 0x8104 {
		if len(m.Body) != 0 {
			return fmt.Errorf("parameter query with a body: %s", m)
		}
		return nil
	}
	its, err := jt.ParseItems(m.Body)
	if err != nil {
		return fmt.Errorf("%v in %s", err, m)
	}
	if len(its) != len(k.Items) {
		return fmt.Errorf("%d items, %d were given: %s", len(its), len(k.Items), m)
	}
	for i, it := range its {
		if it.ID != k.Items[i].ID || !bytes.Equal(it.Val, k.Items[i].Val) {
			return fmt.Errorf("item %d is %08x=%x, given %08x=%x", i, it.ID, it.Val, k.Items[i].ID, k.Items[i].Val)
		}
	}
	return nil
}

// Issue performs the command for a phone.
func (c *Ctx) Issue(phone string, k Cmd) int {
	st, _, err := c.Env.HTTP(k.Method, "/device/"+url.PathEscape(phone)+"/params", k.Body)
	if err != nil {
		if e := c.Env.Check(); e != nil {
			c.Violate("platform is gone: %v", e)
		} else {
			c.Violate("%s command for %s got no HTTP response: %v", k.Method, phone, err)
		}
		Abort()
	}
	return st
}

// Command issues a command that has to be accepted and checks its frame on t.
func (c *Ctx) Command(d *Dev, t *Term, what string) *jt.Msg {
	k := RandCmd(c.R)
	if st := c.Issue(d.Phone, k); st != 200 {
		c.Violate("%s: %s command for connected device %s refused with status %d", what, k.Method, d.Phone, st)
		Abort()
	}
	r, o := t.Next()
	if o != Got {
		c.Violate("%s: accepted %s command for %s did not reach its connection: %s", what, k.Method, d.Phone, t.Describe(r, o))
		Abort()
	}
	if err := k.Match(d, r.Msg); err != nil {
		c.Violate("%s: %v", what, err)
		Abort()
	}
	return r.Msg
}

// Refused issues a command that must be refused.
func (c *Ctx) Refused(phone string, k Cmd, what string) {
	if st := c.Issue(phone, k); st < 400 {
		c.Violate("%s: %s command for %q answered with status %d instead of an error", what, k.Method, phone, st)
		Abort()
	}
	c.Rec.Event("refused_commands", 1)
}

// Gone waits until commands for a device whose connection ended are refused.
func (c *Ctx) Gone(phone, what string) {
	end := time.Now().Add(c.Env.ReplyTimeout())
	for {
		if st := c.Issue(phone, RandCmd(c.R)); st >= 400 {
			c.Rec.Event("refused_after_connection_end", 1)
			return
		}
		if time.Now().After(end) {
			c.Violate("%s: commands for %s still accepted although its connection is gone", what, phone)
			Abort()
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// barrier: everything the platform put on t before is visible once the
// answer to a heartbeat of d arrives; nothing else may arrive.
func (c *Ctx) barrier(d *Dev, t *Term, what string) {
	x := *d
	x.On(t)
	m := x.MBeat()
	d.serial = x.serial
	if err := t.Send(m); err != nil {
		c.Violate("%s: connection lost: %v", what, err)
		Abort()
	}
	r, o := t.Next()
	if o != Got {
		c.Violate("%s: heartbeat on an open connection not answered: %s", what, t.Describe(r, o))
		Abort()
	}
	if err := x.MatchAns(r.Msg, m, 0); err != nil {
		c.Violate("%s: a frame arrived on a connection it does not belong to: %v", what, err)
		Abort()
	}
}

var badBodies = []string{``, `{`, `[]`, `"x"`, `{"params":`, `{"params":{}}`, `{"paramCnt":"x"}`, `{"params":[1]}`, `{"params":[{"paramId":"a"}]}`, "\x00\xff", `paramCnt=1`, `{"paramCnt":300}`, `{"paramCnt":-1}`, `{"params":[{"paramId":-1}]}`, `nul`}

// c11: reconnect histories against a model of the current connection.
func c11(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		c.Par(24, func(w int, c *Ctx) { c11one(c, i == 0 && w == 0) })
	}
}

func c11one(c *Ctx, sample bool) {
	by := c.Up(c.RandVer())
	d := c.NewDev(c.RandVer())
	first := c.Dial()
	d.On(first)
	must(d.Register())
	open := []*Term{first}
	cur := first
	reg := true
	hist := "register"
	step := func(s string) { hist += " " + s }
	drop := func(t *Term) {
		for i := range open {
			if open[i] == t {
				open = append(open[:i:i], open[i+1:]...)
				return
			}
		}
	}
	auth := func(t *Term) {
		d.On(t)
		must(d.Auth())
		cur = t
	}
	if c.R.Intn(4) == 0 { // the gateway case: two devices on one connection
		by.T.Close()
		c.Gone(by.Phone, "connection closed")
		by.On(first)
		must(by.Auth())
		open = []*Term{first}
		step("shared")
	}
	n := 6 + c.R.Intn(8)
	for k := 0; k < n; k++ {
		switch c.R.Intn(12) {
		case 0, 1: // reconnect, old connection stays
			if reg {
				t := c.Dial()
				open = append(open, t)
				auth(t)
				step("reauth-new")
			}
		case 2: // reauthenticate over an existing connection
			if reg && len(open) > 0 {
				auth(open[c.R.Intn(len(open))])
				step("reauth-old")
			}
		case 3: // an old connection is torn down late
			for _, t := range open {
				if t != cur && t != by.T {
					if c.R.Intn(2) == 0 {
						t.Close()
						step("close-old")
					} else {
						t.L.Reset()
						step("reset-old")
					}
					drop(t)
					break
				}
			}
		case 4: // talking over another connection redirects nothing
			if reg && len(open) > 0 {
				t := open[c.R.Intn(len(open))]
				d.On(t)
				if c.R.Intn(2) == 0 {
					must(d.Beat())
				} else {
					l := c.RandLoc()
					l.Status ^= uint32(c.R.Intn(2)) // ignition on or off
					must(d.Locate(l))
				}
				step("talk")
			}
		case 5: // a refused registration redirects nothing
			if reg {
				t := c.Dial()
				open = append(open, t)
				x := *d
				x.On(t)
				if c.R.Intn(2) == 0 {
					x.Reg.Plate = c.NewPlate()
				}
				res, _ := x.DoReg()
				d.serial = x.serial
				if res < 0 {
					Abort()
				}
				if res == 0 {
					c.Violate("%s: second registration of %s accepted", hist, d.Phone)
					Abort()
				}
				step("register-refused")
			}
		case 6: // the current connection ends; others stay open
			if cur != nil && cur != by.T {
				reset := c.R.Intn(3) == 0
				if reset {
					cur.L.Reset()
				} else {
					cur.Close()
				}
				drop(cur)
				cur = nil
				if reg && reset { // nothing can be written to a reset connection, forgotten yet or not
					time.Sleep(300 * time.Millisecond)
					c.Refused(d.Phone, RandCmd(c.R), hist+" reset-current")
				}
				if reg {
					c.Gone(d.Phone, hist+" close-current")
				}
				step("close-current")
			}
		case 7: // same address again at once, authenticated
			if reg && cur != nil && cur != by.T {
				a := cur.L.ID()
				cur.L.Reset()
				drop(cur)
				t := c.DialOpt(DialOpt{Addr: a})
				open = append(open, t)
				auth(t)
				step("same-address")
				if c.R.Intn(2) == 0 {
					time.Sleep(1300 * time.Millisecond) // the old connection is cleaned up only now
					step("wait")
				}
			}
		case 8: // same address, but somebody else's connection
			if reg && cur != nil && cur != by.T {
				a := cur.L.ID()
				cur.L.Reset()
				drop(cur)
				cur = nil
				t := c.DialOpt(DialOpt{Addr: a})
				open = append(open, t)
				x := *by
				x.On(t)
				must(x.Beat())
				by.serial = x.serial
				c.Gone(d.Phone, hist+" address taken over")
				step("address-taken")
			}
		case 9: // removal
			if reg {
				var t *Term
				if cur != nil {
					t = cur
				} else {
					t = c.Dial()
					open = append(open, t)
				}
				d.On(t)
				if c.R.Intn(2) == 0 {
					must(d.Logout())
				} else {
					must(d.BadAuth("0"))
				}
				reg = false
				c.Refused(d.Phone, RandCmd(c.R), hist+" removed")
				step("removed")
			} else {
				t := open
				if len(t) == 0 || c.R.Intn(2) == 0 {
					t = []*Term{c.Dial()}
					open = append(open, t[0])
				}
				cur = t[c.R.Intn(len(t))]
				d.On(cur)
				must(d.Register())
				reg = true
				step("register")
			}
		case 10: // commands that must go nowhere
			c.Refused(c.NewPhone(d.Ver), RandCmd(c.R), hist)
			c.Refused(d.Phone+"0", RandCmd(c.R), hist)
			c.Refused(d.Phone[1:], RandCmd(c.R), hist)
			c.Refused(d.Reg.Plate, RandCmd(c.R), hist)
			c.Refused(d.Phone, Cmd{Method: "PUT", Body: []byte(badBodies[c.R.Intn(len(badBodies))])}, hist+" unparseable body")
			step("nowhere")
		}
		if reg && cur != nil && c.R.Intn(6) == 0 { // whatever the content is declared to be: refused, or sent as given
			k := RandCmd(c.R)
			if k.Method == "PUT" {
				k.Method += " " + []string{"-", "text/plain", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "application/json; charset=utf-8", "application/xml", "application/x-yaml", "application/x-msgpack", "application/x-protobuf", "application/toml"}[c.R.Intn(10)]
			}
			if st := c.Issue(d.Phone, k); st < 400 {
				r, o := cur.Next()
				if o != Got {
					c.Violate("%s: accepted %s command did not reach the connection: %s", hist, k.Method, cur.Describe(r, o))
					Abort()
				}
				if err := k.Match(d, r.Msg); err != nil {
					c.Violate("%s: %s command accepted, but %v", hist, k.Method, err)
					Abort()
				}
				c.Rec.Event("declared_content_accepted", 1)
			} else {
				c.Rec.Event("declared_content_refused", 1)
			}
			step("declared")
		}
		if reg && cur != nil {
			for q := 0; q <= c.R.Intn(3); q++ {
				c.Command(d, cur, hist)
				c.Rec.Event("commands_delivered", 1)
			}
		}
		if c.Failed() {
			Abort()
		}
	}
	// nothing strayed to any connection
	c.barrier(by, by.T, hist)
	for _, t := range open {
		if t != by.T {
			c.barrier(by, t, hist)
		}
		c.ExpectSilence(t, hist)
		c.Rec.Event("connections_watched_for_strays", 1)
	}
	c.Command(by, by.T, hist+" bystander")
	c.barrier(by, by.T, hist)
	c.Rec.Case("%s", hist)
	if sample {
		c.Rec.Sample(map[string]any{"history": hist, "version": d.Ver.String()})
	}
	for _, t := range open {
		t.Close()
	}
	by.T.Close()
}

// c11con: concurrent issuers while devices move between connections.
func c11con(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		c.Par(6, func(w int, c *Ctx) { c11conOne(c) })
	}
}

type span struct{ from, to time.Time }

func c11conOne(c *Ctx) {
	const conns, issuers, per = 5, 4, 40
	d := c.NewDev(c.RandVer())
	ts := make([]*Term, conns)
	for i := range ts {
		ts[i] = c.Dial()
	}
	cur := make([]span, 0, 64) // when connection idx may be / is current
	who := []int{}
	d.On(ts[0])
	t0 := time.Now()
	must(d.Register())
	cur, who = append(cur, span{from: t0}), append(who, 0)
	type issued struct {
		val uint32
		s   span
	}
	var mu sync.Mutex
	var all []issued
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for g := 0; g < issuers; g++ {
		f := c.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = RunSafe(func() {
				for k := 0; k < per; k++ {
					v := uint32(g)<<24 | uint32(k)<<8 | 0x7e
					a := time.Now()
					st := f.Issue(d.Phone, Cmd{Method: "PUT", Body: PutBody([]HTTPParam{{1, 4, v}})})
					b := time.Now()
					if st != 200 {
						f.Violate("command for connected device %s refused with %d", d.Phone, st)
						return
					}
					mu.Lock()
					all = append(all, issued{v, span{a, b}})
					mu.Unlock()
				}
			})
		}()
	}
	go func() { wg.Wait(); close(stop) }()
	// the answers are found among commands: only the mover reads answers
	got := map[uint32]int{}
	note := func(i int, r Rx) {
		if r.ID != 0x8103 {
			c.Violate("unexpected frame %s", r.Msg)
			Abort()
		}
		its, err := jt.ParseItems(r.Body)
		if err != nil || len(its) != 1 || len(its[0].Val) != 4 {
			c.Violate("command frame %s: %v", r.Msg, err)
			Abort()
		}
		if err := d.CheckHeader(r.Msg); err != nil {
			c.Violate("command frame: %v", err)
			Abort()
		}
		v := binary.BigEndian.Uint32(its[0].Val)
		if _, dup := got[v]; dup {
			c.Violate("command %08x delivered twice", v)
			Abort()
		}
		got[v] = i
	}
	moving := true
	for moving && len(cur) < 400 {
		select {
		case <-stop:
			moving = false
		default:
		}
		i := c.R.Intn(conns)
		d.On(ts[i])
		m := d.MAuth(d.Code)
		a := time.Now()
		if err := ts[i].Send(m); err != nil {
			c.Violate("authentication could not be sent: %v", err)
			Abort()
		}
		for {
			r, o := ts[i].Next()
			if o != Got {
				c.Violate("authentication not answered: %s", ts[i].Describe(r, o))
				Abort()
			}
			if r.ID == 0x8001 {
				if err := d.MatchAns(r.Msg, m, 0); err != nil {
					c.Violate("%v", err)
					Abort()
				}
				break
			}
			note(i, r)
		}
		cur[len(cur)-1].to = time.Now() // the earlier one may be used until here
		cur, who = append(cur, span{from: a}), append(who, i)
	}
	wg.Wait()
	cur[len(cur)-1].to = time.Now()
	if c.Failed() {
		Abort()
	}
	for i, t := range ts {
		d.On(t)
		m := d.MBeat()
		if t.Send(m) != nil {
			c.Violate("connection %d lost", i)
			Abort()
		}
		for {
			r, o := t.Next()
			if o != Got {
				c.Violate("heartbeat not answered: %s", t.Describe(r, o))
				Abort()
			}
			if r.ID == 0x8001 {
				break
			}
			note(i, r)
		}
	}
	for _, s := range all {
		i, ok := got[s.val]
		if !ok {
			c.Violate("accepted command %08x was delivered on no connection", s.val)
			Abort()
		}
		delete(got, s.val)
		fits := false
		for k := range cur {
			if who[k] == i && !cur[k].from.After(s.s.to) && !cur[k].to.Before(s.s.from) {
				fits = true
			}
		}
		if !fits {
			c.Violate("command %08x delivered on connection %d, which was not the device's current one at any time during the command", s.val, i)
			Abort()
		}
	}
	for v := range got {
		c.Violate("command %08x delivered but never accepted", v)
		Abort()
	}
	c.Rec.Case("%d moves %d commands %s %v", len(cur), len(all), d.Phone, who)
	c.Rec.Event("concurrent_commands", int64(len(all)))
	c.Rec.Event("moves_during_commands", int64(len(cur)))
	for _, t := range ts {
		t.Close()
	}
}
