package mdrv

import (
	"sync"

	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
)

func init() {
	registry["m12"] = m12
}

// m12: concurrent issuers of one session's serial numbers around the wrap.
func m12(c *scn.Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		s := &model.Session{}
		// go close to the wrap, sequentially
		last := s.GetNextSerialNum()
		first := last
		n := 65536 - 40 + c.R.Intn(36)
		for k := 0; k < n; k++ {
			v := s.GetNextSerialNum()
			if v != last+1 {
				c.Violate("serial number %d follows %d", v, last)
				return
			}
			last = v
		}
		_ = first
		const g = 8
		per := 4 + c.R.Intn(24)
		res := make([][]uint16, g)
		var wg sync.WaitGroup
		b := scn.NewBarrier(g)
		for w := 0; w < g; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				b.Wait()
				for k := 0; k < per; k++ {
					res[w] = append(res[w], s.GetNextSerialNum())
				}
			}()
		}
		wg.Wait()
		seen := map[uint16]bool{}
		for _, l := range res {
			p := -1
			for _, v := range l {
				off := int(v - last - 1)
				if off >= g*per {
					c.Violate("serial number %d issued although only %d were drawn after %d", v, g*per, last)
					return
				}
				if seen[v] {
					c.Violate("serial number %d issued twice within %d draws", v, g*per)
					return
				}
				if off <= p {
					c.Violate("one issuer got serial numbers out of order")
					return
				}
				p = off
				seen[v] = true
			}
		}
		if v := s.GetNextSerialNum(); v != last+uint16(g*per)+1 {
			c.Violate("serial number %d drawn after %d concurrent draws following %d", v, g*per, last)
			return
		}
		c.Rec.Case("%v", res)
		c.Rec.Event("concurrent_draws_at_wrap", int64(g*per))
	}
}
