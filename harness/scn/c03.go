package scn

import (
	"bytes"
	"fmt"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

func init() {
	Register("c03", c03)
	Register("c03sum", c03sum)
}

// lenient undoes legal escapes and keeps everything else.
func lenient(b []byte) []byte {
	var out []byte
	for i := 0; i < len(b); i++ {
		if b[i] == 0x7d && i+1 < len(b) && (b[i+1] == 1 || b[i+1] == 2) {
			out = append(out, 0x7c+b[i+1])
			i++
			continue
		}
		out = append(out, b[i])
	}
	return out
}

// validPiece: could the bytes between two delimiters pass the check byte test?
func validPiece(p []byte) bool {
	if len(p) == 0 {
		return false
	}
	ok := func(c []byte) bool { return len(c) > 0 && jt.XOR(c[:len(c)-1]) == c[len(c)-1] }
	return ok(lenient(p)) || ok(p)
}

// badFrame corrupts a frame so that its check byte does not match; delimiters stay balanced.
func (c *Ctx) badFrame(f []byte) []byte {
	for {
		in := append([]byte{}, f[1:len(f)-1]...)
		switch c.R.Intn(12) {
		case 9, 10, 11: // a plausible but wrong check byte
			raw := lenient(in)
			raw = raw[:len(raw)-1]
			x := jt.XOR(raw)
			var sum byte
			for _, v := range raw {
				sum += v
			}
			w := []byte{0, 0xff, ^x, x + 1, x - 1, sum, -sum, x ^ raw[0], x ^ raw[len(raw)-1], x ^ 0x7e, x<<4 | x>>4, byte(len(raw)), 0x7d}[c.R.Intn(13)]
			in = jt.Escape(append(raw, w))
		case 8: // two bytes altered, sum of bytes preserved
			i, j := c.R.Intn(len(in)), c.R.Intn(len(in))
			in[i]++
			in[j]--
		case 0, 1: // flip one bit
			i := c.R.Intn(len(in))
			in[i] ^= 1 << c.R.Intn(8)
		case 2: // flip a bit of the last byte
			in[len(in)-1] ^= 1 << c.R.Intn(8)
		case 3: // truncate
			in = in[:1+c.R.Intn(len(in)-1)]
		case 4: // drop a byte
			i := c.R.Intn(len(in))
			in = append(in[:i], in[i+1:]...)
		case 5: // insert a byte
			i := c.R.Intn(len(in) + 1)
			in = append(in[:i], append([]byte{byte(c.R.Intn(256))}, in[i:]...)...)
		case 6: // illegal escape
			i := c.R.Intn(len(in) + 1)
			in = append(in[:i], append([]byte{0x7d, []byte{0, 3, 0x7d, 0xff}[c.R.Intn(4)]}, in[i:]...)...)
		case 7: // flip several bytes
			for k := 0; k < 3; k++ {
				in[c.R.Intn(len(in))] ^= byte(c.R.Intn(256))
			}
		}
		if bytes.IndexByte(in, 0x7e) >= 0 || len(in) == 0 || validPiece(in) {
			continue
		}
		return append(append([]byte{0x7e}, in...), 0x7e)
	}
}

// c03: three kinds of disturbance around valid requests.
func c03(c *Ctx) {
	real := c.Env.Name() == "S"
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		d := c.UpOpt(c.RandVer(), DialOpt{ReadChunk: Chunker(c.R)})
		other := c.NewDev(c.RandVer()) // never registered; its registration is only ever sent corrupted
		l0 := c.RandLoc()
		must(d.Locate(l0))
		before := c.Dir()
		put := func(b []byte) {
			if err := d.T.Raw(b); err != nil {
				c.Violate("connection not usable: %v", err)
				Abort()
			}
		}
		// (a) corrupted frames
		n := 1 + c.R.Intn(4)
		if c.R.Intn(12) == 0 {
			n = 10 + c.R.Intn(60) // a long run without any valid frame
		}
		if real {
			n = 2
			if i == 0 {
				n = 12
			}
		}
		var sent [][]byte
		for k := 0; k < n; k++ {
			var m *jt.Msg
			switch c.R.Intn(7) {
			case 0:
				m = d.MBeat()
			case 1, 2:
				l := c.RandLoc()
				if c.R.Intn(2) == 0 {
					l.Extra = make([]byte, c.R.Intn(jt.MaxBody-28))
					c.R.Read(l.Extra)
				}
				m = d.MLoc(l)
			case 3:
				m = d.MAuth(d.Code + "x")
			case 4:
				m = d.MOut()
			case 5:
				m = other.MReg()
			case 6:
				m = d.Msg(0x0200, l0.Body())
				m.Frag, m.Total, m.Index = true, 2, 1
			}
			b := c.badFrame(m.Frame())
			sent = append(sent, b)
			put(b)
			c.Rec.Case("%x", b)
			c.Rec.Event("corrupted_frames", 1)
		}
		hb := d.MBeat()
		put(hb.Frame())
		if !d.ExpectAns(hb, 0) {
			c.ViolateD(sent, "after corrupted frames %x", bytes.Join(sent, nil))
			return
		}
		c.ExpectSilence(d.T, "after corrupted frames")
		after := c.Dir()
		if len(before) != len(after) {
			c.Violate("corrupted frames %x changed the directory from %d to %d devices", sent, len(before), len(after))
			return
		}
		for p, b := range before {
			if stable(after[p]) != stable(b) {
				c.Violate("corrupted frames %x changed device %s: %+v -> %+v", sent, p, b, after[p])
				return
			}
		}
		if err := MatchGeo(c.GetGeo(d.Phone), d.Phone, l0); err != nil {
			c.Violate("corrupted frames %x changed the location: %v", sent, err)
			return
		}
		// (b) noise without delimiter, anywhere between frames
		var wire []byte
		var ms []*jt.Msg
		var last *jt.Loc
		for k := 0; k < 3; k++ {
			nz := make([]byte, c.R.Intn(60))
			c.R.Read(nz)
			for x := range nz {
				if nz[x] == 0x7e {
					nz[x] = 0x7d
				}
			}
			switch c.R.Intn(20) {
			case 0, 1:
				nz = bytes.Repeat([]byte{0x7d}, 5000)
			case 2:
				nz = bytes.Repeat([]byte{byte(c.R.Intn(0x7d))}, 1000+c.R.Intn(9000))
			}
			last = c.RandLoc()
			m := d.MLoc(last)
			ms = append(ms, m)
			wire = append(append(wire, nz...), m.Frame()...)
			c.Rec.Event("noise_bytes", int64(len(nz)))
		}
		put(wire)
		for _, m := range ms {
			if !d.ExpectAns(m, 0) {
				c.Violate("stream with noise between frames: %x", wire)
				return
			}
		}
		c.ExpectSilence(d.T, "noise between frames")
		if err := MatchGeo(c.GetGeo(d.Phone), d.Phone, last); err != nil {
			c.Violate("noise between frames altered a report: %v", err)
			return
		}
		// (c) noise with delimiters
		var nz []byte
		for {
			nz = make([]byte, 1+c.R.Intn(40))
			if c.R.Intn(12) == 0 { // longer than any frame
				nz = make([]byte, 1000+c.R.Intn(9000))
			}
			c.R.Read(nz)
			if len(nz) > 40 {
				for x := range nz {
					if nz[x] == 0x7e {
						nz[x] = 0
					}
				}
			}
			k := 1 + c.R.Intn(4)
			if real {
				k = 1 + c.R.Intn(2)
			}
			for ; k > 0; k-- {
				nz[c.R.Intn(len(nz))] = 0x7e
			}
			if c.R.Intn(6) == 0 {
				nz = append(nz, 0x7e)
			}
			ok := true
			pc := bytes.Split(nz, []byte{0x7e})
			for _, p := range pc[1:] {
				// the last piece may be completed by the next frame's delimiter
				if validPiece(p) {
					ok = false
				}
			}
			if ok {
				break
			}
		}
		f1, f2, f3 := d.MLoc(c.RandLoc()), d.MBeat(), d.MLoc(c.RandLoc())
		put(append(append(append(append([]byte{}, nz...), f1.Frame()...), f2.Frame()...), f3.Frame()...))
		r, o := d.T.Next()
		if o != Got {
			c.Violate("after noise %x: got %s", nz, d.T.Describe(r, o))
			return
		}
		if d.MatchAns(r.Msg, f1, 0) == nil {
			c.Rec.Event("first_frame_survived", 1)
			r, o = d.T.Next()
		} else {
			c.Rec.Event("first_frame_absorbed", 1)
		}
		if o != Got {
			c.Violate("after noise %x: got %s", nz, d.T.Describe(r, o))
			return
		}
		if err := d.MatchAns(r.Msg, f2, 0); err != nil {
			c.Violate("after noise %x the second frame %s is not processed: %v", nz, f2, err)
			return
		}
		if !d.ExpectAns(f3, 0) {
			c.Violate("after noise %x the third frame is not processed", nz)
			return
		}
		c.ExpectSilence(d.T, "noise with delimiters")
		if err := d.MatchDevice(c.Find(d.Phone), true); err != nil {
			c.Violate("after noise %x: %v", nz, err)
			return
		}
		c.Rec.Case("noise %x", nz)
		if i == 0 {
			c.Rec.Sample(map[string]any{"corrupted": fmt.Sprintf("%x", sent[0]), "noise": fmt.Sprintf("%x", nz)})
		}
		must(d.Logout())
		d.T.Close()
	}
}

// c03sum: for frames of many lengths, every wrong check byte is refused.
func c03sum(c *Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		d := c.Up(c.RandVer())
		l0 := c.RandLoc()
		must(d.Locate(l0))
		for diff := 1; diff < 256 && !c.Failed(); diff++ {
			l := c.RandLoc()
			l.Extra = make([]byte, []int{0, c.R.Intn(jt.MaxBody - 27), jt.MaxBody - 28 - c.R.Intn(10)}[(i+diff)%3])
			c.R.Read(l.Extra)
			m := d.MLoc(l)
			f := m.Frame()
			raw := lenient(f[1 : len(f)-1])
			raw[len(raw)-1] ^= byte(diff)
			b := append(append([]byte{0x7e}, jt.Escape(raw)...), 0x7e)
			hb := d.MBeat()
			if err := d.T.Raw(append(b, hb.Frame()...)); err != nil {
				c.Violate("connection not usable: %v", err)
				Abort()
			}
			if !d.ExpectAns(hb, 0) {
				c.ViolateD(fmt.Sprintf("%x", b), "frame of %d bytes whose check byte is off by %02x", len(b), diff)
				return
			}
			c.Rec.Case("%x", b)
			c.Rec.Event("corrupted_frames", 1)
		}
		if err := MatchGeo(c.GetGeo(d.Phone), d.Phone, l0); err != nil {
			c.Violate("after reports with a wrong check byte: %v", err)
			return
		}
		must(d.Logout())
		d.T.Close()
	}
}
