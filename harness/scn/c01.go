package scn

import (
	"fmt"
	"math/rand"
	"sync"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c01v", c01v)
	Register("c01s", c01s)
}

// c01v: every kind of answer, with escapes forced into every position and the
// transport accepting arbitrary parts of a write.
func c01v(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		v := c.RandVer()
		ids := []uint16{0x0002, 0x0102, 0x0200, 0x0003}
		d := c.NewDev(v)
		if i%2 == 0 {
			d = c.DevAnsCheck(v, ids[i/2%4])
		}
		pr := rand.New(rand.NewSource(c.R.Int63()))
		mode := c.R.Intn(3)
		o := DialOpt{Partial: func(n int) int {
			switch mode {
			case 0:
				return n
			case 1:
				return 1
			}
			return 1 + pr.Intn(n)
		}}
		t := c.DialOpt(o)
		d.On(t)
		d.serial = []uint16{0x7d7d, 0x7e7e, 0x7d00, 0x017e, 0x7e7c, 0xfffe, 0x7d01}[c.R.Intn(7)] - uint16(c.R.Intn(3))
		must(d.Register() && d.Auth())
		for k := 0; k < 4; k++ {
			switch c.R.Intn(5) {
			case 4: // acknowledgements of fragments and the answer to the whole
				b := c.RandLoc().Body()
				ms := d.Cut(0x0200, b, c.RandCuts(len(b)))
				must(t.Send(ms...) == nil)
				for _, m := range ms {
					must(d.ExpectAns(m, 0))
				}
			case 0:
				must(d.Beat())
			case 1:
				must(d.Locate(c.RandLoc()))
			case 2:
				must(d.Auth())
			case 3:
				c.timeQuery(d)
			}
		}
		// a refused registration and a refused authentication are emitted frames too
		res, _ := d.DoReg()
		if res != 1 && res != 3 {
			c.Violate("second registration of %s/%s answered %d", d.Phone, d.Reg.Plate, res)
		}
		if c.R.Intn(2) == 0 {
			must(d.Logout())
		} else {
			must(d.BadAuth(d.Code + "0"))
		}
		c.ExpectSilence(t, "after all answers")
		c.Rec.Case("%s|%s|%d|%v", d.Phone, v, d.serial, mode)
		c.Rec.Event("frames_parsed", int64(t.Count()))
		if i < 2 {
			c.Rec.Sample(map[string]any{"phone": d.Phone, "version": v.String(), "version_byte": d.VerByte, "answer_check_byte": fmt.Sprintf("%02x", d.AnsCheck(0x0002, 0)), "partial_write_mode": mode})
		}
		t.Close()
	}
}

// timeQuery sends 0x0004 and checks the answer.
func (c *Ctx) timeQuery(d *Dev) {
	m := d.Msg(0x0004, nil)
	t0 := now()
	if err := d.T.Send(m); err != nil {
		c.Violate("time query could not be sent: %v", err)
		Abort()
	}
	r, o := d.T.Next()
	if o != Got {
		c.Violate("time query %s: expected time answer, got %s", m, d.T.Describe(r, o))
		Abort()
	}
	if err := d.MatchTime(r, m, t0); err != nil {
		c.Violate("time query %s: %v", m, err)
		Abort()
	}
}

// c01s: answers and HTTP commands race on the same connections.
func c01s(c *Ctx) {
	const devs = 4
	reqs, cmds := c.Scale, c.Scale
	c.Par(devs, func(i int, c *Ctx) {
		v := Versions[i%3]
		d := c.DevAnsCheck(v, 0x0002)
		d.On(c.Dial())
		must(d.Register() && d.Auth())
		var wg sync.WaitGroup
		var mu sync.Mutex
		accepted := 0
		for g := 0; g < 3; g++ {
			f := c.Fork()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < cmds/3; k++ {
					var st int
					var err error
					if f.R.Intn(3) == 0 {
						st, _, err = f.Env.HTTP("GET", "/device/"+d.Phone+"/params", nil)
					} else {
						ps, _ := RandPut(f.R, 1+f.R.Intn(8), 40)
						if f.R.Intn(4) == 0 { // as large as frames get
							ps = BigPut(f.R)
						}
						st, _, err = f.Env.HTTP("PUT", "/device/"+d.Phone+"/params", PutBody(ps))
					}
					if err != nil || st != 200 {
						f.Violate("command for a connected device refused: status %d err %v", st, err)
						return
					}
					mu.Lock()
					accepted++
					mu.Unlock()
				}
			}()
		}
		var sent []*jt.Msg
		for k := 0; k < reqs; k++ {
			m := d.MBeat()
			if c.R.Intn(2) == 0 {
				m = d.MLoc(c.RandLoc())
			}
			sent = append(sent, m)
			if err := d.T.Send(m); err != nil {
				c.Violate("request could not be sent: %v", err)
				break
			}
		}
		wg.Wait()
		if c.Failed() {
			return
		}
		ans, cm := 0, 0
		for ans < len(sent) || cm < accepted {
			r, o := d.T.Next()
			if o != Got {
				c.Violate("%d/%d answers and %d/%d commands received, then %s", ans, len(sent), cm, accepted, d.T.Describe(r, o))
				return
			}
			if err := d.CheckHeader(r.Msg); err != nil {
				c.Violate("emitted frame: %v", err)
				return
			}
			switch r.ID {
			case 0x8001:
				if ans >= len(sent) {
					c.Violate("more answers than requests: %s", r.Msg)
					return
				}
				if err := d.MatchAns(r.Msg, sent[ans], 0); err != nil {
					c.Violate("answer %d: %v", ans, err)
					return
				}
				ans++
			case 0x8103:
				if _, err := jt.ParseItems(r.Body); err != nil {
					c.Violate("command 8103: %v in %s", err, r.Msg)
					return
				}
				cm++
			case 0x8104:
				if len(r.Body) != 0 {
					c.Violate("command 8104 with a body: %s", r.Msg)
					return
				}
				cm++
			default:
				c.Violate("unexpected frame %s", r.Msg)
				return
			}
		}
		c.Rec.Event("answers_interleaved_with_commands", int64(ans))
		c.Rec.Event("commands", int64(cm))
		for k := 0; k < ans+cm; k++ {
			c.Rec.Case("%s/%d", d.Phone, k)
		}
		d.T.Close()
	})
}
