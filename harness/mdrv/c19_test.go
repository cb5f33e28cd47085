package mdrv

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/fakeyanss/jt808-server-go/internal/codec/gbk"
	"github.com/fakeyanss/jt808-server-go/internal/codec/hex"
	"github.com/fakeyanss/jt808-server-go/internal/protocol"
	"github.com/fakeyanss/jt808-server-go/internal/protocol/model"
	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
)

func init() {
	registry["m19msg"] = m19msg
	registry["m19hdr"] = m19hdr
	registry["m19prim"] = m19prim
}

// rt is one message: the independent encoding and the model's view of it.
type rt struct {
	id    uint16
	body  []byte
	msg   model.JT808Msg        // with the same field values, header unset
	fresh func() model.JT808Msg // empty one to decode into
	ver   jt.Ver
}

func setHeader(m model.JT808Msg, h *model.MsgHeader) {
	reflect.ValueOf(m).Elem().FieldByName("Header").Set(reflect.ValueOf(h))
}

// fields renders all exported fields except the header.
func fields(m any) string {
	v := reflect.ValueOf(m).Elem()
	var sb strings.Builder
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.Name == "Header" || f.PkgPath != "" {
			continue
		}
		b, err := json.Marshal(v.Field(i).Interface())
		if err != nil {
			b = []byte(err.Error())
		}
		fmt.Fprintf(&sb, "%s=%s;", f.Name, b)
	}
	return sb.String()
}

func ptime(s string) *time.Time {
	t, err := time.Parse("060102150405", s)
	if err != nil {
		panic(err)
	}
	return &t
}

func text(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		switch r.Intn(4) {
		case 0:
			b[i] = []byte{0x7d, 0x7e, '0', ' ' + 1, ' ', '\t'}[r.Intn(6)]
		default:
			b[i] = byte(0x21 + r.Intn(0x7f-0x21))
		}
	}
	if r.Intn(4) == 0 { // characters of several bytes; the field is as long as before
		for k := 1 + r.Intn(3); k > 0; k-- {
			u := []string{"é", "中", "文", "\u00ff", "\U0001f69a"}[r.Intn(5)]
			if at := r.Intn(n + 1); at+len(u) <= n && !bytes.ContainsFunc(b[at:at+len(u)], func(c rune) bool { return c >= 0x80 }) {
				copy(b[at:], u)
			}
		}
	}
	return string(b)
}

func word(r *rand.Rand) uint16 {
	if r.Intn(3) == 0 {
		return []uint16{0, 1, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7d7e, 0x7e7d, 0x7d01, 0x7d02, 0xff00}[r.Intn(12)]
	}
	return uint16(r.Intn(65536))
}

func dword(r *rand.Rand) uint32 {
	if r.Intn(3) == 0 {
		return []uint32{0, 1, 0x80000000, 0x7fffffff, 0xffffffff, 0x7d7e7d7e, 0x00ff00ff, 0xff00ff00, 0x10000, 0xffff}[r.Intn(10)]
	}
	return r.Uint32()
}

func media(r *rand.Rand) (model.DeviceMediaQuery, []byte) {
	st, et := scn.RandTime(r), scn.RandTime(r)
	q := model.DeviceMediaQuery{LogicChannelID: uint8(r.Intn(256)), StartTime: ptime(st), EndTime: ptime(et), AlarmSign: dword(r), AlarmSignExt: dword(r),
		MediaType: uint8(r.Intn(256)), StreamType: uint8(r.Intn(256)), StorageType: uint8(r.Intn(256))}
	b := []byte{q.LogicChannelID}
	b = append(b, jt.BCD(st)...)
	b = append(b, jt.BCD(et)...)
	b = binary.BigEndian.AppendUint32(b, q.AlarmSign)
	b = binary.BigEndian.AppendUint32(b, q.AlarmSignExt)
	return q, append(b, q.MediaType, q.StreamType, q.StorageType)
}

// params is a random list of supported parameters: model and items.
func params(r *rand.Rand, n, limit int) (*model.DeviceParams, []jt.Item) {
	ids := scn.ParamIDs()
	p := &model.DeviceParams{}
	var its []jt.Item
	for _, i := range r.Perm(len(ids)) {
		if len(its) == n {
			break
		}
		k := jt.Params[ids[i]]
		w, v := scn.RandVal(r, k, []int{8, 40, 255}[r.Intn(3)])
		if limit -= 5 + len(w); limit < 0 {
			break
		}
		if s, ok := v.(string); ok && k == jt.KBytes {
			v = strings.ToUpper(s)
		}
		its = append(its, jt.Item{ID: ids[i], Val: w})
		p.Params = append(p.Params, &model.ParamData{ParamID: ids[i], ParamLen: uint8(len(w)), ParamValue: v})
	}
	p.ParamCnt = uint8(len(its))
	return p, its
}

func gen19(c *scn.Ctx, v jt.Ver) rt {
	r := c.R
	switch r.Intn(15) {
	case 0:
		a := jt.Ans{Serial: word(r), ID: word(r), Result: uint8(r.Intn(256))}
		return rt{id: 0x0001, body: a.Body(), msg: &model.Msg0001{AnswerSerialNumber: a.Serial, AnswerMessageID: a.ID, Result: a.Result}, fresh: func() model.JT808Msg { return &model.Msg0001{} }}
	case 1:
		return rt{id: 0x0002, msg: &model.Msg0002{}, fresh: func() model.JT808Msg { return &model.Msg0002{} }}
	case 2:
		return rt{id: 0x0003, msg: &model.Msg0003{}, fresh: func() model.JT808Msg { return &model.Msg0003{} }}
	case 3:
		return rt{id: 0x0004, msg: &model.Msg0004{}, fresh: func() model.JT808Msg { return &model.Msg0004{} }}
	case 4:
		a, b, w := v.Widths()
		n := func(w int) int {
			if r.Intn(3) == 0 {
				return []int{0, w, w - 1}[r.Intn(3)]
			}
			return r.Intn(w + 1)
		}
		plate := scn.RandText(r, 10)
		if plate == "" {
			plate = "A"
		}
		if v != jt.V2011 && r.Intn(3) == 0 {
			plate = "B" + scn.RandText(r, 250)
		}
		g := jt.Reg{Province: word(r), City: word(r), Manu: text(r, n(a)), Model: text(r, n(b)), DevID: text(r, n(w)), Color: uint8(r.Intn(256)), Plate: plate}
		return rt{id: 0x0100, ver: v, body: g.Body(v), msg: &model.Msg0100{ProvinceID: g.Province, CityID: g.City, ManufacturerID: g.Manu, DeviceMode: g.Model, DeviceID: g.DevID, PlateColor: g.Color, PlateNumber: g.Plate}, fresh: func() model.JT808Msg { return &model.Msg0100{} }}
	case 5:
		code := text(r, r.Intn(30))
		if r.Intn(4) == 0 {
			code = text(r, []int{0, 127, 128, 200, 255}[r.Intn(5)])
		}
		imei, sw := text(r, 15), text(r, r.Intn(21))
		m := &model.Msg0102{AuthCode: code}
		if v == jt.V2019 {
			m = &model.Msg0102{AuthCodeLen: uint8(len(code)), AuthCode: code, IMEI: imei, SoftwareVersion: sw}
		}
		return rt{id: 0x0102, body: jt.Auth(v, code, imei, sw), msg: m, fresh: func() model.JT808Msg { return &model.Msg0102{} }}
	case 6:
		sn := word(r)
		p, its := params(r, r.Intn(100), 1000)
		return rt{id: 0x0104, body: append(binary.BigEndian.AppendUint16(nil, sn), jt.Items(its)...), msg: &model.Msg0104{AnswerSerialNumber: sn, AnswerParamCnt: p.ParamCnt, Parameters: p}, fresh: func() model.JT808Msg { return &model.Msg0104{} }}
	case 7:
		l := jt.Loc{Alarm: dword(r), Status: dword(r), Lat: dword(r), Lon: dword(r), Alt: word(r), Speed: word(r), Dir: word(r), Time: scn.RandTime(r)}
		return rt{id: 0x0200, body: l.Body(), msg: &model.Msg0200{AlarmSign: l.Alarm, StatusSign: l.Status, Latitude: l.Lat, Longitude: l.Lon, Altitude: l.Alt, Speed: l.Speed, Direction: l.Dir, Time: l.Time}, fresh: func() model.JT808Msg { return &model.Msg0200{} }}
	case 8:
		m := &model.Msg1205{AnswerSerialNumber: word(r)}
		b := binary.BigEndian.AppendUint16(nil, m.AnswerSerialNumber)
		n := r.Intn(4)
		if r.Intn(5) == 0 {
			n = r.Intn(37)
		}
		m.MediaCount = uint32(n)
		b = binary.BigEndian.AppendUint32(b, uint32(n))
		for k := 0; k < n; k++ {
			q, qb := media(r)
			d := &model.DeviceMedia{DeviceMediaQuery: q, Size: dword(r)}
			m.MediaList = append(m.MediaList, d)
			b = append(b, qb...)
			b = binary.BigEndian.AppendUint32(b, d.Size)
		}
		return rt{id: 0x1205, body: b, msg: m, fresh: func() model.JT808Msg { return &model.Msg1205{} }}
	case 9:
		a := jt.Ans{Serial: word(r), ID: word(r), Result: uint8(r.Intn(256))}
		return rt{id: 0x8001, body: a.Body(), msg: &model.Msg8001{AnswerSerialNumber: a.Serial, AnswerMessageID: a.ID, Result: model.ResultCode(a.Result)}, fresh: func() model.JT808Msg { return &model.Msg8001{} }}
	case 10:
		t := scn.RandTime(r)
		return rt{id: 0x8004, body: jt.BCD(t), msg: &model.Msg8004{ServerTime: ptime(t)}, fresh: func() model.JT808Msg { return &model.Msg8004{} }}
	case 11:
		a := jt.RegAns{Serial: word(r), Result: uint8(r.Intn(256)), Code: text(r, r.Intn(40))}
		if r.Intn(5) == 0 {
			a.Code = text(r, 1020)
		}
		return rt{id: 0x8100, body: a.Body(), msg: &model.Msg8100{AnswerSerialNumber: a.Serial, Result: model.ResultCodeType(a.Result), AuthCode: a.Code}, fresh: func() model.JT808Msg { return &model.Msg8100{} }}
	case 12:
		p, its := params(r, r.Intn(100), 1000)
		return rt{id: 0x8103, body: jt.Items(its), msg: &model.Msg8103{ParamCnt: p.ParamCnt, Parameters: p}, fresh: func() model.JT808Msg { return &model.Msg8103{} }}
	case 13:
		return rt{id: 0x8104, msg: &model.Msg8104{}, fresh: func() model.JT808Msg { return &model.Msg8104{} }}
	}
	q, b := media(r)
	return rt{id: 0x9205, body: b, msg: &model.Msg9205{DeviceMediaQuery: q}, fresh: func() model.JT808Msg { return &model.Msg9205{} }}
}

func phone(r *rand.Rand, v jt.Ver) string {
	b := make([]byte, v.PhoneLen())
	for i := range b {
		b[i] = '0' + byte(r.Intn(10))
	}
	if r.Intn(4) == 0 {
		for i := range b[:r.Intn(len(b))] {
			b[i] = '0'
		}
	}
	return string(b)
}

func header(m *jt.Msg, reg2011 bool) *model.MsgHeader {
	a := &model.MsgBodyAttr{Encryption: m.Enc, VersionDesc: model.Version2013}
	if m.Ver == jt.V2019 {
		a.VersionSign, a.VersionDesc = 1, model.Version2019
	} else if reg2011 {
		a.VersionDesc = model.Version2011
	}
	if m.Extra {
		a.Extra = 1
	}
	h := &model.MsgHeader{MsgID: m.ID, Attr: a, PhoneNumber: m.Phone, SerialNumber: m.Serial}
	if m.Ver == jt.V2019 {
		h.ProtocolVersion = m.VerByte
	}
	if m.Frag {
		a.PacketFragmented, a.PacketFragmentedDesc = 1, true
		h.Frag = &model.MsgFragmentation{Total: m.Total, Index: m.Index}
	}
	return h
}

func checkHeader(h *model.MsgHeader, m *jt.Msg) error {
	b := func(x bool) uint8 {
		if x {
			return 1
		}
		return 0
	}
	switch {
	case h.MsgID != m.ID, h.PhoneNumber != m.Phone, h.SerialNumber != m.Serial, h.Attr == nil,
		h.Attr.BodyLength != uint16(len(m.Body)), h.Attr.Encryption != m.Enc, h.Attr.Extra != b(m.Extra), h.Attr.PacketFragmented != b(m.Frag),
		bool(h.Attr.PacketFragmentedDesc) != m.Frag, h.IsFragmented() != m.Frag,
		h.Attr.VersionSign != b(m.Ver == jt.V2019), (h.Attr.VersionDesc == model.Version2019) != (m.Ver == jt.V2019),
		m.Ver == jt.V2019 && h.ProtocolVersion != m.VerByte, m.Ver != jt.V2019 && h.ProtocolVersion != 0,
		m.Frag && (h.Frag == nil || h.Frag.Total != m.Total || h.Frag.Index != m.Index), !m.Frag && h.Frag != nil:
		hb, _ := json.Marshal(h)
		return fmt.Errorf("header of %s decoded as %s", m, hb)
	}
	return nil
}

// m19msg: every message type in every version.
func m19msg(c *scn.Ctx) {
	pc := protocol.NewJT808PacketCodec()
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		v := []jt.Ver{jt.V2011, jt.V2013, jt.V2019}[c.R.Intn(3)]
		x := gen19(c, v)
		hm := &jt.Msg{ID: x.id, Ver: v, Phone: phone(c.R, v), Serial: word(c.R), Body: x.body}
		if v == jt.V2019 {
			hm.VerByte = uint8(1 + c.R.Intn(255))
		}
		if c.R.Intn(4) == 0 { // make the check byte need an escape
			scn.ForceCheck(hm, []byte{0x7d, 0x7e}[c.R.Intn(2)])
		}
		frame := hm.Frame()
		what := fmt.Sprintf("message %04x, version %s, body %x", x.id, v, x.body)
		platform(c, what, func() {
			// fields -> bytes
			setHeader(x.msg, header(hm, v == jt.V2011))
			enc, err := pc.Encode(x.msg)
			if err != nil {
				c.Violate("%s: encoding fails: %v", what, err)
				return
			}
			if !bytes.Equal(enc, frame) {
				c.Violate("%s: encoded as %x, should be %x", what, enc, frame)
				return
			}
			// bytes -> fields
			pd, err := pc.Decode(append([]byte{}, frame...))
			if err != nil {
				c.Violate("%s: decoding fails: %v", what, err)
				return
			}
			if err := checkHeader(pd.Header, hm); err != nil {
				c.Violate("%s: %v", what, err)
				return
			}
			m := x.fresh()
			if err := m.Decode(pd); err != nil {
				c.Violate("%s: decoding the body fails: %v", what, err)
				return
			}
			if g, ok := m.(*model.Msg0100); ok {
				want := map[jt.Ver]model.VersionType{jt.V2011: model.Version2011, jt.V2013: model.Version2013, jt.V2019: model.Version2019}[v]
				if g.Header.Attr.VersionDesc != want {
					c.Violate("%s: recognised as version %d", what, g.Header.Attr.VersionDesc)
					return
				}
				g.LocationDesc = "" // derived
			}
			clearPhones(m)
			if a, b := fields(m), fields(x.msg); a != b {
				c.Violate("%s: decoded fields %s, sent %s", what, a, b)
				return
			}
			// and back
			enc, err = pc.Encode(m)
			if err != nil || !bytes.Equal(enc, frame) {
				c.Violate("%s: encoded again as %x (%v), was %x", what, enc, err, frame)
				return
			}
			if l, ok := m.(*model.Msg0200); ok {
				geo19(c, l, hm.Phone)
			}
		})
		c.Rec.Event(fmt.Sprintf("%04x/%s", x.id, v), 1)
		c.Rec.Case("%x", frame)
		if i < 3 {
			c.Rec.Sample(map[string]any{"message": hm.String()})
		}
	}
}

func clearPhones(m model.JT808Msg) {
	switch m := m.(type) {
	case *model.Msg0104:
		m.Parameters.DevicePhone = ""
	case *model.Msg8103:
		m.Parameters.DevicePhone = ""
	}
}

func geo19(c *scn.Ctx, l *model.Msg0200, ph string) {
	g := &model.DeviceGeo{}
	if err := g.Decode(ph, l); err != nil {
		c.Violate("location of %+v: %v", *l, err)
		return
	}
	st := l.StatusSign
	bit := func(n uint) uint8 { return uint8(st >> n & 1) }
	want := model.GeoMeta{ACCStatus: bit(0), LocationStatus: bit(1), LatitudeType: bit(2), LongitudeType: bit(3), OperatingStatus: bit(4), GeoEncryptionStatus: bit(5),
		LoadStatus: uint8(st >> 8 & 3), FuelSystemStatus: bit(10), AlternatorSystemStatus: bit(11), DoorLockedStatus: bit(12), FrontDoorStatus: bit(13), MidDoorStatus: bit(14),
		BackDoorStatus: bit(15), DriverDoorStatus: bit(16), CustomDoorStatus: bit(17), GPSLocationStatus: bit(18), BeidouLocationStatus: bit(19), GLONASSLocationStatus: bit(20),
		GalileoLocationStatus: bit(21), DrivingStatus: bit(22)}
	const mask = 0x007fff3f
	switch {
	case *g.Geo != want:
		c.Violate("status word %08x decoded as %+v", st, *g.Geo)
	case g.Geo.Encode() != st&mask:
		c.Violate("status word %08x encoded again as %08x", st, g.Geo.Encode())
	case want.Encode() != st&mask:
		c.Violate("status flags %+v encoded as %08x", want, want.Encode())
	case g.Phone != ph, jt.MicroDeg(g.Location.Latitude) != int64(l.Latitude), jt.MicroDeg(g.Location.Longitude) != int64(l.Longitude),
		g.Location.Altitude != l.Altitude, g.Drive.Direction != l.Direction, int64(g.Drive.Speed*10+0.5) != int64(l.Speed), !g.Time.Equal(*ptime(l.Time)):
		b, _ := json.Marshal(g)
		c.Violate("report %+v becomes %s", *l, b)
	}
}

// m19hdr: header attribute combinations, exhaustively over the attribute word.
func m19hdr(c *scn.Ctx) {
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		for attr := 0; attr < 65536 && !c.Failed(); attr++ {
			m := &jt.Msg{ID: word(c.R), Enc: uint8(attr >> 10 & 7), Frag: attr>>13&1 == 1, Ver: jt.V2013, Extra: attr>>15&1 == 1, Serial: word(c.R), Body: make([]byte, attr&1023)}
			if attr>>14&1 == 1 {
				m.Ver = jt.V2019
				m.VerByte = uint8(c.R.Intn(256))
			}
			if m.Frag {
				m.Total, m.Index = word(c.R), word(c.R)
			}
			m.Phone = phone(c.R, m.Ver)
			hb := m.Header()
			platform(c, fmt.Sprintf("header %x", hb), func() {
				h := &model.MsgHeader{}
				if err := h.Decode(append(append([]byte{}, hb...), m.Body...)); err != nil {
					c.Violate("header %x: %v", hb, err)
					return
				}
				if err := checkHeader(h, m); err != nil {
					c.Violate("%v", err)
					return
				}
				if h.Idx != len(hb) {
					c.Violate("header %x: body expected at %d instead of %d", hb, h.Idx, len(hb))
					return
				}
				if e, err := h.Encode(); err != nil || !bytes.Equal(e, hb) {
					c.Violate("header %x encoded again as %x (%v)", hb, e, err)
					return
				}
				h2 := header(m, false)
				h2.Attr.BodyLength = uint16(len(m.Body))
				if e, err := h2.Encode(); err != nil || !bytes.Equal(e, hb) {
					c.Violate("header fields of %x encoded as %x (%v)", hb, e, err)
				}
			})
		}
		c.Rec.Case("attribute words, round %d", i)
		c.Rec.Event("headers", 65536)
	}
}

// m19prim: the primitive readers and writers, and parameter lists with unknown ids.
func m19prim(c *scn.Ctx) {
	r := c.R
	for i := 0; i < c.Scale && !c.Failed(); i++ {
		platform(c, "primitive codec", func() {
			var want []byte
			pre := make([]byte, r.Intn(4))
			want = append(want, pre...)
			got := append([]byte{}, pre...)
			b, w, d := uint8(r.Intn(256)), word(r), dword(r)
			raw := make([]byte, r.Intn(40))
			r.Read(raw)
			s := text(r, r.Intn(40))
			num := phone(r, []jt.Ver{jt.V2013, jt.V2019}[r.Intn(2)])
			n := r.Intn(50)
			if r.Intn(40) == 0 {
				n = 9000
			}
			g := scn.RandText(r, n)
			for n == 9000 && len(g) < 8000 {
				g += scn.RandText(r, 500) + string(jt.Hanzi(r.Intn(jt.HanziCount)))
			}
			tm := scn.RandTime(r)
			want = append(want, b)
			want = binary.BigEndian.AppendUint16(want, w)
			want = binary.BigEndian.AppendUint32(want, d)
			want = append(want, raw...)
			want = append(want, s...)
			want = append(want, jt.BCD(num)...)
			want = append(want, jt.GBK(g)...)
			want = append(want, jt.BCD(tm)...)
			got = hex.WriteByte(got, b)
			got = hex.WriteWord(got, w)
			got = hex.WriteDoubleWord(got, d)
			got = hex.WriteBytes(got, raw)
			got = hex.WriteString(got, s)
			got = hex.WriteBCD(got, num)
			got = hex.WriteGBK(got, g)
			got = hex.WriteTime(got, *ptime(tm))
			if !bytes.Equal(want, got) {
				c.Violate("byte %d word %d dword %d bytes %x string %q bcd %s gbk %q time %s written as %x, should be %x", b, w, d, raw, s, num, g, tm, got, want)
				return
			}
			idx := len(pre)
			cp := append([]byte{}, want...)
			b1, w1, d1 := hex.ReadByte(cp, &idx), hex.ReadWord(cp, &idx), hex.ReadDoubleWord(cp, &idx)
			raw1, s1 := hex.ReadBytes(cp, &idx, len(raw)), hex.ReadString(cp, &idx, len(s))
			num1, g1, t1 := hex.ReadBCD(cp, &idx, len(num)/2), hex.ReadGBK(cp, &idx, len(jt.GBK(g))), hex.ReadTime(cp, &idx)
			if b1 != b || w1 != w || d1 != d || !bytes.Equal(raw1, raw) || s1 != s || num1 != num || g1 != g || !t1.Equal(*ptime(tm)) || idx != len(want) || !bytes.Equal(cp, want) {
				c.Violate("%x read as %d %d %d %x %q %s %q %v, index %d", want, b1, w1, d1, raw1, s1, num1, g1, *t1, idx)
				return
			}
			u, err := gbk.GBK2UTF8(jt.GBK(g))
			k, err2 := gbk.UTF82GBK([]byte(g))
			if err != nil || err2 != nil || string(u) != g || !bytes.Equal(k, jt.GBK(g)) {
				c.Violate("text %q: %q %x (%v %v)", g, u, k, err, err2)
				return
			}
			if h := hex.Byte2Str(raw); !bytes.Equal(hex.Str2Byte(h), raw) || h != fmt.Sprintf("%x", raw) {
				c.Violate("bytes %x printed as %q and read back as %x", raw, h, hex.Str2Byte(h))
				return
			}
			c.Rec.Case("%x", want)
			// a list with unknown ids keeps the others
			p, its := params(r, 1+r.Intn(12), 900)
			var mixed []jt.Item
			for _, it := range its {
				for r.Intn(3) == 0 {
					u := jt.Item{ID: 0xF000 + uint32(r.Intn(4096)), Val: make([]byte, r.Intn(6))}
					r.Read(u.Val)
					mixed = append(mixed, u)
				}
				mixed = append(mixed, it)
			}
			q := &model.DeviceParams{}
			if err := q.Decode("1", uint8(len(mixed)), jt.ItemBytes(mixed)); err != nil {
				c.Violate("parameter list %x: %v", jt.Items(mixed), err)
				return
			}
			q.DevicePhone = ""
			if a, b := fields(q), fields(p); a != b {
				c.Violate("parameter list %x decoded as %s, should be %s", jt.Items(mixed), a, b)
				return
			}
			if e, err := q.Encode(); err != nil || !bytes.Equal(e, jt.Items(its)) {
				c.Violate("parameter list %x encoded again as %x (%v)", jt.Items(its), e, err)
				return
			}
			c.Rec.Event("parameter_lists", 1)
		})
	}
}
