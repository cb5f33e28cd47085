package scn

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

// ForceCheck adjusts the serial number so that the check byte of m becomes want.
func ForceCheck(m *jt.Msg, want byte) {
	m.Serial ^= uint16(jt.XOR(m.Raw()) ^ want)
}

// AnsCheck is the check byte a general answer to m would have (the serial
// number occurs twice and cancels out).
func (d *Dev) AnsCheck(id uint16, result uint8) byte {
	v := d.Ver
	a := &jt.Msg{ID: 0x8001, Ver: v, VerByte: d.VerByte, Phone: d.Phone, Body: jt.Ans{ID: id, Result: result}.Body()}
	return jt.XOR(a.Raw())
}

// DevAnsCheck makes an identity whose answer to id has a check byte that needs escaping.
func (c *Ctx) DevAnsCheck(v jt.Ver, id uint16) *Dev {
	for {
		d := c.NewDev(v)
		if x := d.AnsCheck(id, 0); x == 0x7d || x == 0x7e {
			return d
		}
	}
}

// Chunker makes a random read size function.
func Chunker(r *rand.Rand) func(int) int {
	mode := r.Intn(4)
	rr := rand.New(rand.NewSource(r.Int63()))
	return func(n int) int {
		switch mode {
		case 0:
			return 1
		case 1:
			return 1 + rr.Intn(3)
		case 2:
			return 1 + rr.Intn(n)
		}
		if rr.Intn(3) == 0 {
			return 1
		}
		return n
	}
}

// SendSplit writes b in random pieces.
func (c *Ctx) SendSplit(t *Term, b []byte) error {
	for len(b) > 0 {
		n := len(b)
		switch c.R.Intn(4) {
		case 0:
			n = 1
		case 1:
			n = 1 + c.R.Intn(len(b))
		}
		if err := t.Raw(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if len(b) > 0 && c.R.Intn(8) == 0 {
			time.Sleep(time.Millisecond)
		}
	}
	return nil
}

// Unsupported message ids (valid layout, not implemented by the platform).
var Unsupported = []uint16{0x0005, 0x0006, 0x0107, 0x0201, 0x0301, 0x0302, 0x0303, 0x0500, 0x0700, 0x0702, 0x0704, 0x0705, 0x0800, 0x0801, 0x0900, 0x0901, 0x0A00, 0x0F01, 0x1003, 0x1206, 0x7E7D}

// Quiet messages: answers and uploads that need no answer.
func (d *Dev) MQuiet(r *rand.Rand) *jt.Msg {
	switch r.Intn(3) {
	case 0:
		return d.Msg(0x0001, jt.Ans{Serial: uint16(r.Intn(65536)), ID: 0x8103, Result: uint8(r.Intn(4))}.Body())
	case 1:
		b := binary.BigEndian.AppendUint16(nil, uint16(r.Intn(65536)))
		return d.Msg(0x0104, append(b, jt.Items(RandItems(r, r.Intn(12)))...))
	}
	b := binary.BigEndian.AppendUint16(nil, uint16(r.Intn(65536)))
	n := r.Intn(5)
	b = binary.BigEndian.AppendUint32(b, uint32(n))
	for k := 0; k < n; k++ {
		b = append(b, MediaQuery(r)...)
		b = binary.BigEndian.AppendUint32(b, r.Uint32())
	}
	return d.Msg(0x1205, b)
}

// MediaQuery is the body of 0x9205 (and the start of a 0x1205 item).
func MediaQuery(r *rand.Rand) []byte {
	b := []byte{byte(r.Intn(38))}
	b = append(b, jt.BCD(RandTime(r))...)
	b = append(b, jt.BCD(RandTime(r))...)
	b = binary.BigEndian.AppendUint32(b, r.Uint32())
	b = binary.BigEndian.AppendUint32(b, r.Uint32())
	return append(b, byte(r.Intn(4)), byte(r.Intn(3)), byte(r.Intn(3)))
}

var paramIDs = func() []uint32 {
	var l []uint32
	for i := range jt.Params {
		l = append(l, i)
	}
	for i := range l { // sort: map order must not leak into the workload
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}()

// ParamIDs returns the supported parameter ids in order.
func ParamIDs() []uint32 { return paramIDs }

// RandText is text that survives GBK, with escape-relevant characters.
func RandText(r *rand.Rand, max int) string {
	s := ""
	for len(jt.GBK(s)) < max && r.Intn(12) != 0 {
		if r.Intn(3) == 0 && len(jt.GBK(s))+2 <= max {
			s += string(jt.Hanzi(r.Intn(jt.HanziCount)))
		} else {
			s += ascii(r, 1)
		}
	}
	return s
}

// RandVal is a random value of a parameter kind: wire bytes and JSON value.
func RandVal(r *rand.Rand, k jt.Kind, max int) ([]byte, any) {
	edge := r.Intn(4) == 0
	switch k {
	case jt.KByte:
		v := uint8(r.Intn(256))
		if edge {
			v = []uint8{0, 255, 0x7d, 0x7e}[r.Intn(4)]
		}
		return []byte{v}, v
	case jt.KWord:
		v := uint16(r.Intn(65536))
		if edge {
			v = []uint16{0, 65535, 0x7d7e, 0x7e7d, 0x8000, 0x7d01}[r.Intn(6)]
		}
		return binary.BigEndian.AppendUint16(nil, v), v
	case jt.KDWord:
		v := r.Uint32()
		if edge {
			v = []uint32{0, 0xffffffff, 0x7d7e7d7e, 0x80000000, 0x7d017d02, 1 << 24, 0x01000001}[r.Intn(7)]
		}
		return binary.BigEndian.AppendUint32(nil, v), v
	case jt.KBytes:
		n := r.Intn(max + 1)
		b := make([]byte, n)
		r.Read(b)
		if edge && n > 0 {
			for i := range b {
				b[i] = []byte{0xff, 0x0f, 0xf0, 0x00, 0x7e, 0x7d}[r.Intn(6)]
			}
		}
		return b, fmt.Sprintf("%X", b)
	case jt.KGBK:
		s := RandText(r, max)
		return jt.GBK(s), s
	}
	s := ascii(r, r.Intn(max+1))
	return []byte(s), s
}

// RandItems is a random list of distinct supported parameters.
func RandItems(r *rand.Rand, n int) []jt.Item {
	var out []jt.Item
	for _, i := range r.Perm(len(paramIDs)) {
		if len(out) == n {
			break
		}
		v, _ := RandVal(r, jt.Params[paramIDs[i]], 12)
		out = append(out, jt.Item{ID: paramIDs[i], Val: v})
	}
	return out
}

// HTTPParam is one entry of a PUT body.
type HTTPParam struct {
	ParamID    uint32 `json:"paramId"`
	ParamLen   int    `json:"paramLen"`
	ParamValue any    `json:"paramValue"`
}

// PutBody encodes a PUT /device/:phone/params body.
func PutBody(ps []HTTPParam) []byte {
	b, err := json.Marshal(map[string]any{"paramCnt": len(ps), "params": ps})
	if err != nil {
		panic(err)
	}
	return b
}

// RandPut is a random parameter list: PUT entries and expected wire items.
func RandPut(r *rand.Rand, n, max int) ([]HTTPParam, []jt.Item) {
	var ps []HTTPParam
	var its []jt.Item
	for _, i := range r.Perm(len(paramIDs)) {
		if len(ps) == n {
			break
		}
		id := paramIDs[i]
		w, v := RandVal(r, jt.Params[id], max)
		ps = append(ps, HTTPParam{id, len(w), v})
		its = append(its, jt.Item{ID: id, Val: w})
	}
	return ps, its
}

// BigPut is a list that fills a whole message; half of them need escaping throughout.
func BigPut(r *rand.Rand) []HTTPParam {
	var ps []HTTPParam
	left := jt.MaxBody - 1
	for _, id := range []uint32{0x0010, 0x0011, 0x0012, 0x0013, 0x0014} {
		n := left - 5
		if n > 255 {
			n = 255
		}
		if n < 0 {
			break
		}
		s := ascii(r, n)
		if r.Intn(2) == 0 {
			s = strings.Repeat([]string{"~", "}", "}~"}[r.Intn(3)], n)[:n]
		}
		ps = append(ps, HTTPParam{id, n, s})
		left -= 5 + n
	}
	return ps
}

// Dir is the directory keyed by phone.
func (c *Ctx) Dir() map[string]Device {
	m := map[string]Device{}
	for _, d := range c.List() {
		if _, dup := m[d.Phone]; dup {
			c.Violate("phone %s listed twice", d.Phone)
		}
		m[d.Phone] = d
	}
	return m
}

// stable is a directory entry without its last-communication time.
func stable(d Device) Device { d.LastComTime = ""; return d }

// must aborts the scenario when a step already recorded its violation.
func must(ok bool) {
	if !ok {
		Abort()
	}
}

// ExpectSilence checks that nothing has arrived on a connection so far.
func (c *Ctx) ExpectSilence(t *Term, what string) {
	for _, r := range t.Drain() {
		c.Violate("%s: unexpected frame %s", what, r.Msg)
	}
	if b := t.Bad(); b != nil {
		c.Violate("%s: malformed stream: %v", what, b)
	}
}

// Must ends the scenario when a step, already reported, failed.
func Must(ok bool) { must(ok) }
