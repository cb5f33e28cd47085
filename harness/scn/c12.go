package scn

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c12seq", c12seq)
	Register("c12frag", c12frag)
	Register("c12ham", c12ham)
}

// Consecutive checks that a multiset of 16-bit numbers, given by count, is a
// run of n consecutive values modulo 65536.
func Consecutive(cnt *[65536]int, n int) error {
	lo := n / 65536
	rest := n % 65536
	starts := 0
	for v := 0; v < 65536; v++ {
		k := cnt[v]
		if k != lo && k != lo+1 {
			return fmt.Errorf("serial %d used %d times among %d frames", v, k, n)
		}
		if k == lo+1 && cnt[(v+65535)%65536] == lo {
			starts++
		}
	}
	if rest != 0 && starts != 1 {
		return fmt.Errorf("the %d serials used are not one consecutive run (%d runs)", n, starts)
	}
	return nil
}

// frag1 is an acknowledged fragment that never completes anything.
func (d *Dev) frag1(c *Ctx) *jt.Msg {
	m := d.Msg(0x0200, nil)
	m.Frag, m.Total, m.Index = true, uint16(3+c.R.Intn(65533)), uint16(1+c.R.Intn(2))
	if c.R.Intn(2) == 0 {
		m.Index = uint16(1 + c.R.Intn(int(m.Total)-1))
	}
	return m
}

// c12seq: commands and fragment acknowledgements on a connection shared by
// two devices, one after the other.
func c12seq(c *Ctx) {
	c.Par(8, func(w int, c *Ctx) {
		for i := 0; i < c.Scale && !c.Failed(); i++ {
			d := [2]*Dev{c.NewDev(c.RandVer()), c.NewDev(c.RandVer())}
			t := c.Dial()
			for _, x := range d {
				x.On(t)
				must(x.Register() && x.Auth())
			}
			last, have := uint16(0), false
			hist := ""
			see := func(m *jt.Msg, what string) {
				if have && m.Serial != last+1 {
					c.Violate("%s has serial number %d after %d; history %s", what, m.Serial, last, hist)
					Abort()
				}
				last, have = m.Serial, true
				c.Rec.Event("serials_checked", 1)
			}
			for k := 0; k < 40; k++ {
				x := d[c.R.Intn(2)]
				switch c.R.Intn(10) {
				case 9: // proving itself once more does not start over
					hist += "a"
					must(x.Auth())
				case 8: // a whole message in fragments, the last one answered like a request
					hist += "F"
					l := c.RandLoc()
					if c.R.Intn(3) == 0 {
						l.Extra = make([]byte, 300)
					}
					b := l.Body()
					ms := x.Cut(0x0200, b, c.RandCuts(len(b)))
					must(t.Send(ms...) == nil)
					for j, m := range ms {
						r, o := t.Next()
						if o != Got {
							c.Violate("fragment not acknowledged: %s", t.Describe(r, o))
							Abort()
						}
						if err := x.MatchAns(r.Msg, m, 0); err != nil {
							c.Violate("answer to fragment %d of %d: %v", j+1, len(ms), err)
							Abort()
						}
						if j < len(ms)-1 {
							see(r.Msg, "fragment acknowledgement")
						}
					}
				case 0, 1, 2:
					hist += "c"
					see(c.Command(x, t, "sequential"), "command")
				case 3, 4:
					hist += "f"
					m := x.frag1(c)
					must(t.Send(m) == nil)
					r, o := t.Next()
					if o != Got {
						c.Violate("fragment not acknowledged: %s", t.Describe(r, o))
						Abort()
					}
					if err := x.MatchAns(r.Msg, m, 0); err != nil {
						c.Violate("fragment acknowledgement: %v", err)
						Abort()
					}
					see(r.Msg, "fragment acknowledgement")
				case 5: // refused commands use no number
					hist += "r"
					ps := []HTTPParam{{0x10, 255, strings.Repeat("7", 256)}}
					if c.R.Intn(2) == 0 {
						ps = nil
						for j := 0; j < 5; j++ {
							ps = append(ps, HTTPParam{uint32(0x10 + j), 255, strings.Repeat("7", 255)})
						}
					}
					c.Refused(x.Phone, Cmd{Method: "PUT", Body: PutBody(ps)}, "oversized")
					c.Refused(x.Phone, Cmd{Method: "PUT", Body: []byte(badBodies[c.R.Intn(len(badBodies))])}, "unparseable")
				case 6:
					hist += "b"
					must(x.Beat())
				case 7:
					hist += "l"
					must(x.Locate(c.RandLoc()))
				}
			}
			c.Rec.Case("%s %s", hist, d[0].Phone)
			if i == 0 && w == 0 {
				c.Rec.Sample(map[string]any{"history (c command, f fragment, r refused, a/b/l requests)": hist, "last_serial": last})
			}
			t.Close()
		}
	})
}

// c12frag: acknowledgements of many fragments across wrap-arounds.
func c12frag(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		d := c.Up(c.RandVer())
		e := c.NewDev(c.RandVer()).On(d.T)
		must(e.Register())
		last, have := uint16(0), false
		const batch = 500
		total := 65536 + 2000 + c.R.Intn(3000)
		for n := 0; n < total; n += batch {
			var ms []*jt.Msg
			var own []*Dev
			for k := 0; k < batch; k++ {
				x := d
				if c.R.Intn(4) == 0 {
					x = e
				}
				m := x.frag1(c)
				ms, own = append(ms, m), append(own, x)
			}
			must(d.T.Send(ms...) == nil)
			for k := range ms {
				r, o := d.T.Next()
				if o != Got {
					c.Violate("fragment not acknowledged: %s", d.T.Describe(r, o))
					return
				}
				if err := own[k].MatchAns(r.Msg, ms[k], 0); err != nil {
					c.Violate("fragment acknowledgement: %v", err)
					return
				}
				if have && r.Serial != last+1 {
					c.Violate("fragment acknowledgement %d has serial number %d after %d", n+k, r.Serial, last)
					return
				}
				last, have = r.Serial, true
			}
			c.Rec.Event("serials_checked", batch)
			c.Rec.Case("%s %d %d", d.Phone, n, last)
		}
		d.T.Close()
	}
}

// c12ham: many issuers, more commands than serial numbers, with fragments
// acknowledged on the same connection meanwhile.
func c12ham(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		d := c.Up(c.RandVer())
		e := c.NewDev(c.RandVer()).On(d.T)
		must(e.Register() && e.Auth())
		const issuers, per = 40, 1700
		const frags = 2000
		var cnt [65536]int
		n := 0
		last := -1
		jumps := 0
		fin := make(chan error, 1)
		want := issuers*per + frags
		go func() {
			for n < want {
				r, o := d.T.NextFor(c.Env.ReplyTimeout())
				if o != Got {
					fin <- fmt.Errorf("%d of %d frames received, then %s", n, want, d.T.Describe(r, o))
					return
				}
				if r.ID != 0x8104 && r.ID != 0x8001 {
					fin <- fmt.Errorf("unexpected frame %s", r.Msg)
					return
				}
				cnt[r.Serial]++
				if last >= 0 && r.Serial != uint16(last+1) {
					jumps++
				}
				last = int(r.Serial)
				n++
			}
			fin <- nil
		}()
		var wg sync.WaitGroup
		for g := 0; g < issuers; g++ {
			f := c.Fork()
			wg.Add(1)
			go func() {
				defer wg.Done()
				_ = RunSafe(func() {
					for k := 0; k < per && !f.Failed(); k++ {
						p := d.Phone
						if (g+k)%3 == 0 {
							p = e.Phone
						}
						if st := f.Issue(p, Cmd{Method: "GET"}); st != 200 {
							f.Violate("command for a connected device refused with %d", st)
						}
					}
				})
			}()
		}
		f := c.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < frags && !f.Failed(); k += 10 {
				var ms []*jt.Msg
				for j := 0; j < 10; j++ {
					ms = append(ms, d.frag1(f))
				}
				if d.T.Send(ms...) != nil {
					f.Violate("fragments could not be sent")
				}
				time.Sleep(10 * time.Millisecond)
			}
		}()
		wg.Wait()
		if c.Failed() {
			d.T.Close()
			return
		}
		if err := <-fin; err != nil {
			c.Violate("%v", err)
			return
		}
		if err := Consecutive(&cnt, n); err != nil {
			c.Violate("%d commands by %d concurrent issuers: %v", n, issuers, err)
			return
		}
		c.Rec.Event("serials_checked", int64(n))
		c.Rec.Event("frames_out_of_serial_order", int64(jumps))
		c.Rec.Case("hammer %s %d", d.Phone, jumps)
		c.Rec.Sample(map[string]any{"concurrent_issuers": issuers, "frames": n, "frames_not_in_serial_order": jumps})
		d.T.Close()
	}
}
