package scn

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("lin05", func(c *Ctx) { lin(c, linMix{reg: 10, out: 5, bad: 3, auth: 3, beat: 1, loc: 0, list: 3, geo: 0}) })
	Register("lin10", func(c *Ctx) { lin(c, linMix{reg: 6, out: 3, bad: 1, auth: 6, beat: 2, loc: 2, list: 8, geo: 0}) })
	Register("lin08", func(c *Ctx) { lin(c, linMix{reg: 6, out: 4, bad: 2, auth: 2, beat: 4, loc: 6, list: 3, geo: 4}) })
}

type linMix struct{ reg, out, bad, auth, beat, loc, list, geo int }

const linPhones = 3

type linEntry struct {
	inc  int16 // incarnation, 0 = not registered
	auth int16 // authentication that brought it online, 0 = none
	sess int16 // connection it is reached through
	loc  int16 // latest report
}

type linState [linPhones]linEntry

type linOp struct {
	kind  string
	phone int
	plate int
	inc   int16 // registration: incarnation created; auth: incarnation whose code is presented
	auth  int16
	sess  int16
	loc   int16
}

type linRes struct {
	code int // answer result; -1 connection closed; -2 nothing/unknown
	loc  int16
	view linState
	bad  string // view that no state can explain
}

type linWorld struct {
	plateOf map[int16]int // incarnation -> plate
}

func (w *linWorld) model() porcupine.Model {
	var mu sync.Mutex
	return porcupine.Model{
		Init: func() any { return linState{} },
		Step: func(st, in, out any) (bool, any) {
			s := st.(linState)
			o := in.(linOp)
			r := out.(linRes)
			e := s[max(o.phone, 0)]
			switch o.kind {
			case "reg":
				plate := false
				for _, x := range s {
					if x.inc != 0 {
						mu.Lock()
						p := w.plateOf[x.inc]
						mu.Unlock()
						if p == o.plate {
							plate = true
						}
					}
				}
				switch {
				case plate && e.inc != 0:
					return r.code == 1 || r.code == 3, s
				case plate:
					return r.code == 1, s
				case e.inc != 0:
					return r.code == 3, s
				}
				if r.code != 0 {
					return false, s
				}
				s[o.phone] = linEntry{inc: o.inc, sess: o.sess}
				return true, s
			case "out":
				if e.inc == 0 {
					return r.code == -1, s
				}
				s[o.phone] = linEntry{}
				return r.code == 0, s
			case "bad":
				if e.inc == 0 {
					return r.code == -1, s
				}
				s[o.phone] = linEntry{}
				return r.code == 1, s
			case "auth":
				if e.inc == 0 {
					return r.code == -1, s
				}
				if e.inc != o.inc {
					s[o.phone] = linEntry{}
					return r.code == 1, s
				}
				e.auth, e.sess = o.auth, o.sess
				s[o.phone] = e
				return r.code == 0, s
			case "beat":
				if e.inc == 0 {
					return r.code == -1, s
				}
				return r.code == 0, s
			case "loc":
				if e.inc == 0 {
					return r.code == -1, s
				}
				e.loc = o.loc
				s[o.phone] = e
				return r.code == 0, s
			case "list":
				if r.bad != "" {
					return false, s
				}
				for i, x := range s {
					v := r.view[i]
					if v.inc != x.inc || v.inc != 0 && (v.auth != x.auth || v.sess != x.sess) {
						return false, s
					}
				}
				return true, s
			case "geo":
				return r.loc == e.loc, s
			}
			return false, s
		},
		Equal: func(a, b any) bool { return a.(linState) == b.(linState) },
		DescribeOperation: func(in, out any) string {
			return fmt.Sprintf("%+v -> %+v", in, out)
		},
	}
}

// lin drives concurrent operations on a few contended identities and checks
// the recorded history for linearizability.
func lin(c *Ctx, mix linMix) {
	deck := ""
	for _, x := range []struct {
		k string
		n int
	}{{"r", mix.reg}, {"o", mix.out}, {"b", mix.bad}, {"a", mix.auth}, {"h", mix.beat}, {"l", mix.loc}, {"s", mix.list}, {"g", mix.geo}} {
		deck += strings.Repeat(x.k, x.n)
	}
	shapes := map[string]bool{}
	for round := 0; round < c.Scale && !c.Failed(); round++ {
		vers := [linPhones]jt.Ver{}
		base := [linPhones]*Dev{}
		for i := range base {
			vers[i] = jt.V2019
			if c.R.Intn(4) == 0 {
				vers[i] = jt.V2013
			}
			base[i] = c.NewDev(vers[i])
		}
		plates := []string{c.NewPlate(), c.NewPlate(), c.NewPlate()}
		w := &linWorld{plateOf: map[int16]int{}}
		var wmu sync.Mutex
		var ninc, nauth, nsess, nloc atomic.Int32
		incs := map[int16]*Dev{}       // incarnation -> identity as registered
		auths := map[int16][2]string{} // authentication -> IMEI, software version
		sess := map[string]int16{}     // address -> connection
		locs := map[int16]*jt.Loc{}
		latest := [linPhones]atomic.Int32{} // latest granted incarnation, a hint for generating codes
		var clock atomic.Int64
		var hist []porcupine.Operation
		var descr []string

		decode := func(l []Device) linRes {
			var r linRes
			seen := map[string]bool{}
			for _, x := range l {
				ph := -1
				for i := range base {
					if base[i].Phone == x.Phone {
						ph = i
					}
				}
				if ph < 0 {
					r.bad = fmt.Sprintf("listing shows %s which is not registered", x.Phone)
					return r
				}
				if seen[x.Phone] {
					r.bad = "listed twice: " + x.Phone
					return r
				}
				seen[x.Phone] = true
				wmu.Lock()
				var e linEntry
				for k, d := range incs {
					if d.Reg.DevID == x.ID {
						e.inc = k
						if err := d.MatchDevice(&Device{ID: x.ID, Plate: x.Plate, Phone: x.Phone, VersionDesc: x.VersionDesc, ProtocolVersion: x.ProtocolVersion}, false); err != nil {
							r.bad = err.Error()
						}
						if x.AuthCode != "" || x.IMEI != "" || x.SoftwareVersion != "" || x.Status != 0 {
							if x.AuthCode != d.Code && d.Code != "" || x.Status != 1 {
								r.bad = fmt.Sprintf("half updated: %+v", x)
							}
							for a, v := range auths {
								if v[0] == x.IMEI && v[1] == x.SoftwareVersion || vers[ph] != jt.V2019 {
									e.auth = a
									if vers[ph] != jt.V2019 {
										e.auth = 1
									}
								}
							}
							if e.auth == 0 {
								r.bad = fmt.Sprintf("half updated: %+v", x)
							}
						}
					}
				}
				e.sess = sess[x.SessionID]
				wmu.Unlock()
				if e.inc == 0 && r.bad == "" {
					r.bad = fmt.Sprintf("listing shows %+v which was never registered", x)
				}
				if e.sess == 0 && r.bad == "" {
					r.bad = fmt.Sprintf("listing shows unknown connection %s", x.SessionID)
				}
				r.view[ph] = e
			}
			return r
		}
		record := func(id int, o linOp, call, ret int64, r linRes) {
			wmu.Lock()
			hist = append(hist, porcupine.Operation{ClientId: id, Input: o, Output: r, Call: call, Return: ret})
			descr = append(descr, fmt.Sprintf("[%d,%d] c%d %+v -> %d loc=%d view=%v %s", call, ret, id, o, r.code, r.loc, r.view, r.bad))
			wmu.Unlock()
		}

		clients := 1 + c.R.Intn(7)
		steps := 4 + c.R.Intn(5)
		if clients == 1 {
			steps = 25
		}
		lock := clients > 1 && c.R.Intn(2) == 0
		bars := make([]*Barrier, steps)
		for i := range bars {
			bars[i] = NewBarrier(clients)
		}
		c.Par(clients, func(id int, c *Ctx) {
			var t *Term
			var tid int16
			step := 0
			defer func() { // never leave others waiting
				if lock {
					for ; step < steps; step++ {
						bars[step].mu.Lock()
						bars[step].n--
						if bars[step].n == 0 {
							close(bars[step].ch)
						}
						bars[step].mu.Unlock()
					}
				}
			}()
			for step < steps && !c.Failed() {
				if t == nil {
					t = c.Dial()
					tid = int16(nsess.Add(1))
					wmu.Lock()
					sess[t.L.ID()] = tid
					wmu.Unlock()
				}
				k := deck[c.R.Intn(len(deck))]
				ph := c.R.Intn(linPhones)
				o := linOp{phone: ph, sess: tid}
				d := *base[ph]
				d.c, d.T = c, t
				d.serial = uint16(c.R.Intn(65536))
				var m *jt.Msg
				switch k {
				case 'r':
					o.kind, o.plate = "reg", c.R.Intn(len(plates))
					o.inc = int16(ninc.Add(1))
					d.Reg.Plate = plates[o.plate]
					d.Reg.DevID = fmt.Sprintf("I%d", o.inc)
					m = d.MReg()
					wmu.Lock()
					w.plateOf[o.inc] = o.plate
					incs[o.inc] = &d
					wmu.Unlock()
				case 'o':
					o.kind = "out"
					m = d.MOut()
				case 'b':
					o.kind = "bad"
					m = d.MAuth("nonsense")
				case 'a':
					o.kind = "auth"
					o.inc = int16(latest[ph].Load())
					wmu.Lock()
					rd := incs[o.inc]
					if rd != nil {
						d.Code = rd.Code
					}
					wmu.Unlock()
					if rd == nil || d.Code == "" {
						o.kind, o.inc = "bad", 0
						m = d.MAuth("nonsense")
						break
					}
					o.auth = int16(nauth.Add(1))
					d.IMEI, d.SW = fmt.Sprintf("%015d", int(o.auth)+round*1000), fmt.Sprintf("v%d", o.auth)
					m = d.MAuth(d.Code)
					wmu.Lock()
					auths[o.auth] = [2]string{d.IMEI, d.SW}
					wmu.Unlock()
					if d.Ver != jt.V2019 {
						o.auth = 1
					}
				case 'h':
					o.kind = "beat"
					m = d.MBeat()
				case 'l':
					o.kind = "loc"
					o.loc = int16(nloc.Add(1))
					l := c.RandLoc()
					l.Lat = uint32(o.loc)
					l.Lon = uint32(o.loc) * 1000
					wmu.Lock()
					locs[o.loc] = l
					wmu.Unlock()
					m = d.MLoc(l)
				case 's':
					o.kind = "list"
				case 'g':
					o.kind = "geo"
				}
				if lock {
					bars[step].Wait()
				}
				step++
				call := clock.Add(1)
				if m == nil {
					var r linRes
					if o.kind == "list" {
						l := c.List()
						ret := clock.Add(1)
						r = decode(l)
						record(id, o, call, ret, r)
						continue
					}
					g := c.GetGeo(d.Phone)
					ret := clock.Add(1)
					if g != nil {
						r.loc = int16(jt.MicroDeg(g.Location.Latitude))
						wmu.Lock()
						l := locs[r.loc]
						wmu.Unlock()
						if l == nil {
							r.loc = -1
						} else if err := MatchGeo(g, d.Phone, l); err != nil {
							c.Violate("location query: %v", err)
						}
					}
					record(id, o, call, ret, r)
					continue
				}
				if err := t.Send(m); err != nil {
					c.Violate("%s could not be sent: %v", m, err)
					return
				}
				rx, out := t.Next()
				ret := clock.Add(1)
				r := linRes{code: -1}
				switch {
				case out == Closed:
					t.Close()
					t = nil
				case out != Got:
					c.Violate("%s: %s", m, t.Describe(rx, out))
					return
				case o.kind == "reg":
					a, err := d.MatchReg(rx.Msg, m)
					if err != nil {
						c.Violate("%s: %v", m, err)
						return
					}
					r.code = int(a.Result)
					if a.Result == 0 {
						wmu.Lock()
						incs[o.inc].Code = a.Code
						wmu.Unlock()
						latest[ph].Store(int32(o.inc))
					}
				default:
					a, err := jt.ParseAns(rx.Body)
					if err == nil {
						err = d.MatchAns(rx.Msg, m, a.Result)
					}
					if err != nil {
						c.Violate("%s: %v", m, err)
						return
					}
					r.code = int(a.Result)
				}
				record(id, o, call, ret, r)
			}
			if t != nil {
				c.ExpectSilence(t, "contended connection")
				defer t.Close()
			}
		})
		call := clock.Add(1)
		l := c.List()
		record(99, linOp{kind: "list", phone: -1}, call, clock.Add(1), decode(l))
		res := porcupine.CheckOperationsTimeout(w.model(), hist, 20*time.Second)
		if c.Env.Name() == "V" && res == porcupine.Unknown {
			c.Rec.Event("history_too_hard", 1)
		}
		if res == porcupine.Illegal {
			sort.Strings(descr)
			c.ViolateD(descr, "no sequential order explains the concurrent history: %s", strings.Join(descr, "; "))
			return
		}
		overlap := 0
		for i := range hist {
			for j := range hist {
				if i < j && hist[i].Call < hist[j].Return && hist[j].Call < hist[i].Return {
					overlap++
				}
			}
		}
		key := ""
		sort.Slice(hist, func(i, j int) bool { return hist[i].Return < hist[j].Return })
		for _, h := range hist {
			o := h.Input.(linOp)
			key += fmt.Sprintf("%s%d%d:%d,", o.kind, o.phone, o.plate, h.Output.(linRes).code)
		}
		c.Rec.Case("%s", key)
		shapes[key] = true
		c.Rec.Event("operations_checked", int64(len(hist)))
		c.Rec.Event("overlapping_pairs", int64(overlap))
		if round < 2 {
			c.Rec.Sample(map[string]any{"clients": clients, "history": descr})
		}
		// clean up
		for _, x := range l {
			for i := range base {
				if base[i].Phone == x.Phone {
					d := *base[i]
					d.c = c
					d.On(c.Dial())
					must(d.Logout())
					d.T.Close()
				}
			}
		}
		if l := c.List(); len(l) != 0 {
			c.Violate("directory not empty after every device logged out: %+v", l)
			return
		}
	}
}
