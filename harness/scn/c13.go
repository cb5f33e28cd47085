package scn

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c13", c13)
}

// UnknownIDs are parameter ids outside the supported tables.
var UnknownIDs = []uint32{0, 8, 0x0f, 0x1e, 0x1f, 0x2a, 0x2b, 0x33, 0x4a, 0x5f, 0x60, 0x66, 0x78, 0x7d, 0x7e, 0x85, 0x96, 0x104, 0x111, 0x1ff, 0x10001, 0x7e7e7e7e, 0xf364, 0xffffffff, 0x01000000, 0x00010010}

// itemOf makes an item of a given value length, or of its natural length.
func itemOf(r *rand.Rand, id uint32, n int) (HTTPParam, jt.Item) {
	k := jt.Params[id]
	var w []byte
	var v any
	switch {
	case n < 0 || k == jt.KByte || k == jt.KWord || k == jt.KDWord:
		w, v = RandVal(r, k, 30)
	case k == jt.KBytes:
		w = make([]byte, n)
		r.Read(w)
		v = fmt.Sprintf("%X", w)
	case k == jt.KGBK:
		s := ""
		for len(w) < n {
			if n-len(w) >= 2 && r.Intn(2) == 0 {
				s += string(jt.Hanzi(r.Intn(jt.HanziCount)))
			} else {
				s += ascii(r, 1)
			}
			w = jt.GBK(s)
		}
		v = s
	default:
		s := ascii(r, n)
		w, v = []byte(s), s
	}
	return HTTPParam{id, len(w), v}, jt.Item{ID: id, Val: w}
}

func varIDs() (out []uint32) {
	for _, id := range paramIDs {
		switch jt.Params[id] {
		case jt.KBytes, jt.KGBK, jt.KStr:
			out = append(out, id)
		}
	}
	return
}

// c13: settings as they arrive at the terminal.
func c13(c *Ctx) {
	c.Par(6, func(w int, c *Ctx) {
		d := c.Up(Versions[w%3])
		last := uint16(0)
		send := func(ps []HTTPParam, its []jt.Item, what string) {
			body := PutBody(ps)
			if c.R.Intn(3) == 0 { // counts and lengths are the platform's business
				q := append([]HTTPParam{}, ps...)
				for i := range q {
					q[i].ParamLen = c.R.Intn(256)
				}
				body = PutBody(q)
				body = []byte(strings.Replace(string(body), fmt.Sprintf(`"paramCnt":%d`, len(ps)), fmt.Sprintf(`"paramCnt":%d`, c.R.Intn(256)), 1))
			}
			k := Cmd{Method: "PUT", Body: body, ID: 0x8103, Items: its}
			if st := c.Issue(d.Phone, k); st != 200 {
				c.Violate("%s: legal parameter list refused with %d: %s", what, st, body)
				Abort()
			}
			r, o := d.T.Next()
			if o != Got {
				c.Violate("%s: parameter list %s did not arrive: %s", what, body, d.T.Describe(r, o))
				Abort()
			}
			if err := k.Match(d, r.Msg); err != nil {
				c.Violate("%s: %v; sent %s", what, err, body)
				Abort()
			}
			if last != 0 && r.Serial != last+1 {
				c.Violate("%s: a refused list used a serial number: %d after %d", what, r.Serial, last)
				Abort()
			}
			last = r.Serial
			c.Rec.Event("items_compared", int64(len(its)))
			c.Rec.Case("%s", r.Body)
		}
		refuse := func(ps []HTTPParam, what string) {
			c.Refused(d.Phone, Cmd{Method: "PUT", Body: PutBody(ps)}, what)
			c.Rec.Case("%s %d %d", what, len(ps), c.R.Int63())
		}
		for i := 0; i < c.Scale && !c.Failed(); i++ {
			// every supported id alone
			for _, id := range paramIDs {
				p, it := itemOf(c.R, id, -1)
				send([]HTTPParam{p}, []jt.Item{it}, "single item")
				c.Rec.Event(fmt.Sprintf("kind_%d", jt.Params[id]), 1)
			}
			// value lengths up to the limit, and one beyond
			for k := 0; k < 12; k++ {
				vs := varIDs()
				id := vs[c.R.Intn(len(vs))]
				n := []int{0, 1, 127, 128, 254, 255, c.R.Intn(256)}[c.R.Intn(7)]
				p, it := itemOf(c.R, id, n)
				send([]HTTPParam{p}, []jt.Item{it}, "value length")
				p, _ = itemOf(c.R, id, []int{256, 257, 300, 511, 512, 1000}[c.R.Intn(6)])
				refuse([]HTTPParam{p}, "oversized value")
				q, _ := itemOf(c.R, paramIDs[0], -1)
				refuse([]HTTPParam{q, p, q}, "oversized value among others")
			}
			// lists
			for k := 0; k < 20; k++ {
				ps, its := RandPut(c.R, 1+c.R.Intn(40), 12)
				if c.R.Intn(2) == 0 { // unsupported ids in between are skipped
					var q []HTTPParam
					for _, p := range ps {
						for c.R.Intn(3) == 0 {
							q = append(q, HTTPParam{UnknownIDs[c.R.Intn(len(UnknownIDs))], 4, []any{1, "x", nil, true, 3.5}[c.R.Intn(5)]})
						}
						q = append(q, p)
					}
					ps = append(q, HTTPParam{UnknownIDs[c.R.Intn(len(UnknownIDs))], 0, ""})
					c.Rec.Event("lists_with_unsupported_ids", 1)
				}
				send(ps, its, "list")
			}
			// fill a message to the last byte, then one byte more
			for k := 0; k < 10; k++ {
				vs := varIDs()
				c.R.Shuffle(len(vs), func(a, b int) { vs[a], vs[b] = vs[b], vs[a] })
				size := 1
				var ps []HTTPParam
				var its []jt.Item
				over := c.R.Intn(3) == 0
				lim := jt.MaxBody
				if over {
					lim += 1 + c.R.Intn(3)
				} else if c.R.Intn(2) == 0 {
					lim -= c.R.Intn(3)
				}
				for _, id := range vs {
					left := lim - size - 5
					if left < 0 {
						break
					}
					n := c.R.Intn(120)
					if left <= 250 {
						n = left
					} else if left-n < 10 {
						n = left - 10
					}
					p, it := itemOf(c.R, id, n)
					ps, its = append(ps, p), append(its, it)
					size += 5 + n
					if size == lim {
						break
					}
				}
				if size != lim {
					continue
				}
				if over {
					refuse(ps, "list of one byte too many")
				} else {
					send(ps, its, "full message")
					c.Rec.Event("full_messages", 1)
				}
			}
			must(d.Beat())
			c.ExpectSilence(d.T, "after refused lists")
		}
		c.Rec.Sample(map[string]any{"supported_parameters": len(paramIDs)})
		d.T.Close()
	})
}
