package scn

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
)

// Dev is a simulated terminal identity.
type Dev struct {
	c       *Ctx
	Ver     jt.Ver
	VerByte uint8
	Phone   string
	Reg     jt.Reg
	Code    string
	IMEI    string
	SW      string
	T       *Term
	serial  uint16
}

const asciiSet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789~}{|_-. abcxyz"

func ascii(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = asciiSet[r.Intn(len(asciiSet))]
	}
	return string(b)
}

func digits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	return string(b)
}

func base36(n uint64) string {
	const cs = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	s := ""
	for {
		s = string(cs[n%36]) + s
		n /= 36
		if n == 0 {
			return s
		}
	}
}

// Versions exercised.
var Versions = []jt.Ver{jt.V2011, jt.V2013, jt.V2019}

// NewPhone makes a unique phone number for a layout.
func (c *Ctx) NewPhone(v jt.Ver) string {
	phones.Lock()
	defer phones.Unlock()
	if q := phones.last; q != "" && !c.noTwin && c.R.Intn(6) == 0 { // ends as the one before does
		phones.last = ""
		hi := min(v.PhoneLen()-1, len(q))
		k := 8 + c.R.Intn(hi-7)
		if c.R.Intn(2) == 0 {
			k = min(hi, 12)
		}
		for {
			if p := fmt.Sprint(1+c.R.Intn(9)) + digits(c.R, v.PhoneLen()-k-1) + q[len(q)-k:]; p != q {
				return p
			}
		}
	}
	tail := fmt.Sprintf("%01d%07d", c.Worker%10, Uniq()%10000000)
	n := v.PhoneLen() - len(tail)
	var head string
	switch c.R.Intn(3) {
	case 0:
		head = strings.Repeat("0", n)
	case 1:
		head = digits(c.R, n)
	default:
		k := c.R.Intn(n + 1)
		head = strings.Repeat("0", k) + digits(c.R, n-k)
	}
	phones.last = head + tail
	return phones.last
}

// phones remembers the last number made.
var phones struct {
	sync.Mutex
	last string
}

// NewPlate makes a unique plate of at most 12 GBK bytes.
func (c *Ctx) NewPlate() string {
	h := []rune("京津沪渝冀豫云辽黑湘皖鲁新苏浙赣鄂桂甘晋蒙陕吉闽贵粤青藏川宁琼")
	p := string(h[c.R.Intn(len(h))])
	if c.R.Intn(4) == 0 {
		p = string(jt.Hanzi(c.R.Intn(jt.HanziCount)))
	}
	u := base36(uint64(c.Worker%36)) + base36(Uniq()+36*36)
	p += u
	room := 12 - len(jt.GBK(p))
	if room > 0 && c.R.Intn(2) == 0 {
		p += ascii(c.R, c.R.Intn(room+1))
	}
	p = strings.TrimRight(p, " ")
	if len(jt.GBK(p)) < 12 { // spaces are characters like any other
		switch c.R.Intn(10) {
		case 0:
			p += " "
		case 1:
			p = " " + p
		}
	}
	return p
}

func trimName(s string) string { return strings.Trim(s, " ") }

// NewDev makes a fresh identity (not connected).
func (c *Ctx) NewDev(v jt.Ver) *Dev {
	a, b, w := v.Widths()
	d := &Dev{c: c, Ver: v, Phone: c.NewPhone(v)}
	if v == jt.V2019 {
		d.VerByte = 1
		if c.R.Intn(3) == 0 {
			d.VerByte = []uint8{1, 2, 0x7d, 0x7e, 0xff, uint8(c.R.Intn(255) + 1)}[c.R.Intn(6)]
		}
		d.IMEI = digits(c.R, 15)
		d.SW = ascii(c.R, c.R.Intn(21))
	}
	d.Reg = jt.Reg{
		Province: uint16(c.R.Intn(100)), City: uint16(c.R.Intn(10000)),
		Manu: ascii(c.R, 1+c.R.Intn(a)), Model: ascii(c.R, 1+c.R.Intn(b)),
		DevID: ascii(c.R, 1+c.R.Intn(w)), Color: uint8(c.R.Intn(10)), Plate: c.NewPlate(),
	}
	switch c.R.Intn(4) {
	case 0:
		d.serial = uint16(0xfff0 + c.R.Intn(16))
	case 1:
		d.serial = uint16(0x7d00 + c.R.Intn(0x200))
	default:
		d.serial = uint16(c.R.Intn(65536))
	}
	return d
}

// RandDev makes a fresh identity of a random version.
func (c *Ctx) RandDev() *Dev { return c.NewDev(Versions[c.R.Intn(3)]) }

// View is an identity observed from the platform side.
func (c *Ctx) View(v jt.Ver, verByte uint8, phone string) *Dev {
	return &Dev{c: c, Ver: v, VerByte: verByte, Phone: phone}
}

// On attaches the identity to a connection.
func (d *Dev) On(t *Term) *Dev { d.T = t; return d }

// Msg builds a message with the next serial number.
func (d *Dev) Msg(id uint16, body []byte) *jt.Msg {
	d.serial++
	return &jt.Msg{ID: id, Ver: d.Ver, VerByte: d.VerByte, Phone: d.Phone, Serial: d.serial, Body: body}
}

func (d *Dev) MReg() *jt.Msg  { return d.Msg(0x0100, d.Reg.Body(d.Ver)) }
func (d *Dev) MBeat() *jt.Msg { return d.Msg(0x0002, nil) }
func (d *Dev) MOut() *jt.Msg  { return d.Msg(0x0003, nil) }
func (d *Dev) MAuth(code string) *jt.Msg {
	return d.Msg(0x0102, jt.Auth(d.Ver, code, d.IMEI, d.SW))
}
func (d *Dev) MLoc(l *jt.Loc) *jt.Msg { return d.Msg(0x0200, l.Body()) }

// RandLoc makes a random legal location report (ACC on unless acc0).
func (c *Ctx) RandLoc() *jt.Loc {
	r := c.R
	word := func() uint32 {
		if r.Intn(4) == 0 {
			return []uint32{0x7e7e7e7e, 0x7d7d7d7d, 0x7d027e01, 0xffffffff, 0, 0x007d0200}[r.Intn(6)]
		}
		return r.Uint32()
	}
	l := &jt.Loc{Alarm: word(), Status: word() | 1, Lat: uint32(r.Intn(90000001)), Lon: uint32(r.Intn(180000001)),
		Alt: uint16(r.Intn(65536)), Speed: uint16(r.Intn(65536)), Dir: uint16(r.Intn(360)),
		Time: RandTime(r)}
	if r.Intn(8) == 0 {
		l.Lat = []uint32{0, 90000000, 1, 0x007e7d7e}[r.Intn(4)]
		l.Lon = []uint32{0, 180000000, 1, 0x0a7e7d7e}[r.Intn(4)]
		l.Alt = []uint16{0, 65535, 0x7e7e, 0x7d7d}[r.Intn(4)]
		l.Speed = []uint16{0, 65535, 0x7d02, 0x7e7d}[r.Intn(4)]
	}
	switch r.Intn(3) {
	case 0:
		l.Extra = []byte{0x01, 0x04, 0, 0, 0x7e, 0x7d}
	case 1:
		n := r.Intn(64)
		l.Extra = make([]byte, n)
		r.Read(l.Extra)
	}
	return l
}

// RandTime is a random valid 12-digit timestamp.
func RandTime(r *rand.Rand) string {
	if r.Intn(6) == 0 {
		return []string{"000101000000", "991231235959", "240229120000", "680101000001", "690101000000", "701231000000", "491010101010", "500630235959", "120131090807"}[r.Intn(9)]
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	m := r.Intn(12)
	return fmt.Sprintf("%02d%02d%02d%02d%02d%02d", r.Intn(100), 1+m, 1+r.Intn(days[m]), r.Intn(24), r.Intn(60), r.Intn(60))
}

// CheckHeader verifies that a received frame is addressed in the terminal's own layout.
func (d *Dev) CheckHeader(m *jt.Msg) error {
	want := d.Ver
	if want == jt.V2011 {
		want = jt.V2013
	}
	switch {
	case m.Ver != want:
		return fmt.Errorf("header layout %s, terminal uses %s: %s", m.Ver, d.Ver, m)
	case m.Phone != d.Phone:
		return fmt.Errorf("phone %s, terminal is %s: %s", m.Phone, d.Phone, m)
	case want == jt.V2019 && m.VerByte != d.VerByte:
		return fmt.Errorf("version byte %d, terminal uses %d: %s", m.VerByte, d.VerByte, m)
	case m.Frag:
		return fmt.Errorf("fragment flag set on an unfragmented message: %s", m)
	case m.Enc != 0:
		return fmt.Errorf("encryption bits set: %s", m)
	}
	return nil
}

// ExpectAns waits for the general answer to req with the given result.
func (d *Dev) ExpectAns(req *jt.Msg, result uint8) bool {
	r, o := d.T.Next()
	if o != Got {
		d.c.Violate("request %s: expected general answer, got %s", req, d.T.Describe(r, o))
		return false
	}
	if err := d.MatchAns(r.Msg, req, result); err != nil {
		d.c.Violate("request %s: %v", req, err)
		return false
	}
	return true
}

// MatchAns checks a general answer.
func (d *Dev) MatchAns(m, req *jt.Msg, result uint8) error {
	if m.ID != 0x8001 {
		return fmt.Errorf("expected general answer, got %s", m)
	}
	if err := d.CheckHeader(m); err != nil {
		return err
	}
	a, err := jt.ParseAns(m.Body)
	if err != nil {
		return err
	}
	if a.Serial != req.Serial || a.ID != req.ID {
		return fmt.Errorf("answer correlates with serial %d id %04x", a.Serial, a.ID)
	}
	if a.Result != result {
		return fmt.Errorf("answer result %d, expected %d", a.Result, result)
	}
	return nil
}

// DoReg registers and returns the result code (-1 after a violation).
func (d *Dev) DoReg() (int, string) {
	m := d.MReg()
	if err := d.T.Send(m); err != nil {
		d.c.Violate("registration could not be sent: %v", err)
		return -1, ""
	}
	r, o := d.T.Next()
	if o != Got {
		d.c.Violate("registration %s: expected registration answer, got %s", m, d.T.Describe(r, o))
		return -1, ""
	}
	a, err := d.MatchReg(r.Msg, m)
	if err != nil {
		d.c.Violate("registration %s: %v", m, err)
		return -1, ""
	}
	return int(a.Result), a.Code
}

// MatchReg checks a registration answer.
func (d *Dev) MatchReg(m, req *jt.Msg) (jt.RegAns, error) {
	if m.ID != 0x8100 {
		return jt.RegAns{}, fmt.Errorf("expected registration answer, got %s", m)
	}
	if err := d.CheckHeader(m); err != nil {
		return jt.RegAns{}, err
	}
	a, err := jt.ParseRegAns(m.Body)
	if err != nil {
		return a, err
	}
	if a.Serial != req.Serial {
		return a, fmt.Errorf("registration answer names serial %d", a.Serial)
	}
	return a, nil
}

// Register registers, expecting success.
func (d *Dev) Register() bool {
	res, code := d.DoReg()
	if res < 0 {
		return false
	}
	if res != 0 {
		d.c.Violate("registration of fresh %s/%s refused with result %d", d.Phone, d.Reg.Plate, res)
		return false
	}
	d.Code = code
	return true
}

// do sends one message and expects a general answer.
func (d *Dev) do(m *jt.Msg, result uint8) bool {
	if err := d.T.Send(m); err != nil {
		d.c.Violate("%s could not be sent: %v", m, err)
		return false
	}
	return d.ExpectAns(m, result)
}

func (d *Dev) Auth() bool               { return d.do(d.MAuth(d.Code), 0) }
func (d *Dev) Beat() bool               { return d.do(d.MBeat(), 0) }
func (d *Dev) Logout() bool             { return d.do(d.MOut(), 0) }
func (d *Dev) Locate(l *jt.Loc) bool    { return d.do(d.MLoc(l), 0) }
func (d *Dev) BadAuth(code string) bool { return d.do(d.MAuth(code), 1) }

// Up dials, registers and authenticates a fresh device.
func (c *Ctx) Up(v jt.Ver) *Dev { return c.UpOpt(v, DialOpt{}) }

// UpOpt is Up with transport options.
func (c *Ctx) UpOpt(v jt.Ver, o DialOpt) *Dev {
	d := c.NewDev(v).On(c.DialOpt(o))
	if !d.Register() || !d.Auth() {
		Abort()
	}
	return d
}

// Vary leads an authenticated device through a random stretch of life before
// the step under test: what happens to it must not depend on that.
func (c *Ctx) Vary(d *Dev) string {
	how := ""
	virtual := c.Env.Name() == "V"
	for k := c.R.Intn(4); k > 0; k-- {
		switch c.R.Intn(9) {
		case 0: // goes to sleep
			l := c.RandLoc()
			l.Status &^= 1
			must(d.Locate(l))
			how += "sleep,"
		case 1:
			must(d.Locate(c.RandLoc()))
			how += "loc,"
		case 2: // the location history fills up and wraps around
			n := 2 + c.R.Intn(8)
			if virtual && c.R.Intn(3) == 0 {
				n = []int{99, 100, 101, 150, 200, 201}[c.R.Intn(6)]
			}
			for ; n > 0; n-- {
				must(d.Locate(c.RandLoc()))
			}
			how += "locs,"
		case 3:
			must(d.Beat())
			how += "beat,"
		case 4:
			must(d.Auth())
			how += "auth,"
		case 5: // moves to a new connection
			d.T.Close()
			d.On(c.Dial())
			must(d.Auth())
			how += "reconnect,"
		case 6: // a transfer that is never completed
			m := d.Msg(0x0200, c.RandLoc().Body()[:10])
			m.Frag, m.Total, m.Index = true, 3, 1
			must(d.do(m, 0))
			how += "partial,"
		case 7:
			c.timeQuery(d)
			how += "time,"
		case 8:
			if !virtual || c.R.Intn(4) > 0 {
				continue
			}
			for n := 0; ; n++ { // falls silent until it is reported offline
				e := c.Find(d.Phone)
				if e == nil {
					c.Violate("silent device %s removed without having been reported offline", d.Phone)
					Abort()
				}
				if e.Status == 0 {
					break
				}
				if n > 200 {
					c.Violate("silent device %s still reported online after %d s", d.Phone, n)
					Abort()
				}
				time.Sleep(time.Second)
			}
			return how + "offline,"
		}
	}
	return how
}

// RandVer picks a version.
func (c *Ctx) RandVer() jt.Ver { return Versions[c.R.Intn(3)] }

// Find looks a phone up in the directory.
func (c *Ctx) Find(phone string) *Device {
	l := c.List()
	var f *Device
	for i := range l {
		if l[i].Phone == phone {
			f = &l[i]
		}
	}
	return f
}

// List fetches the directory.
func (c *Ctx) List() []Device {
	l, err := c.Env.Devices()
	if err != nil {
		if e := c.Env.Check(); e != nil {
			c.Violate("platform is gone: %v", e)
		} else {
			c.Violate("device directory not served: %v", err)
		}
		Abort()
	}
	return l
}

// GetGeo fetches the latest location (nil: none).
func (c *Ctx) GetGeo(phone string) *Geo {
	g, err := c.Env.Geo(phone)
	if err != nil {
		if e := c.Env.Check(); e != nil {
			c.Violate("platform is gone: %v", e)
		} else {
			c.Violate("location query failed: %v", err)
		}
		Abort()
	}
	return g
}

var statusBits = []struct {
	name  string
	shift uint
	mask  uint32
}{
	{"accStatus", 0, 1}, {"locationStatus", 1, 1}, {"latitudeType", 2, 1}, {"longitudeType", 3, 1},
	{"operatingStatus", 4, 1}, {"geoEncryptionStatus", 5, 1}, {"loadStatus", 8, 3}, {"FuelSystemStatus", 10, 1},
	{"AlternatorSystemStatus", 11, 1}, {"DoorLockedStatus", 12, 1}, {"frontDoorStatus", 13, 1}, {"midDoorStatus", 14, 1},
	{"backDoorStatus", 15, 1}, {"driverDoorStatus", 16, 1}, {"customDoorStatus", 17, 1}, {"gpsLocationStatus", 18, 1},
	{"beidouLocationStatus", 19, 1}, {"glonassLocationStatus", 20, 1}, {"galileoLocationStatus", 21, 1}, {"drivingStatus", 22, 1},
}

// MatchGeo compares a location view with the report that was sent.
func MatchGeo(g *Geo, phone string, l *jt.Loc) error {
	if g == nil {
		return fmt.Errorf("no location")
	}
	if g.Phone != phone {
		return fmt.Errorf("location of phone %s under %s", g.Phone, phone)
	}
	if jt.MicroDeg(g.Location.Latitude) != int64(l.Lat) || jt.MicroDeg(g.Location.Longitude) != int64(l.Lon) {
		return fmt.Errorf("position %v,%v, sent %d,%d", g.Location.Latitude, g.Location.Longitude, l.Lat, l.Lon)
	}
	if g.Location.Altitude != int(l.Alt) {
		return fmt.Errorf("altitude %d, sent %d", g.Location.Altitude, l.Alt)
	}
	if d := g.Drive.Speed*10 - float64(l.Speed); d > 0.01 || d < -0.01 {
		return fmt.Errorf("speed %v, sent %d/10", g.Drive.Speed, l.Speed)
	}
	if g.Drive.Direction != int(l.Dir) {
		return fmt.Errorf("direction %d, sent %d", g.Drive.Direction, l.Dir)
	}
	if ts := g.Time.Format("060102150405"); ts != l.Time {
		return fmt.Errorf("time stamp %s, sent %s", ts, l.Time)
	}
	for _, b := range statusBits {
		v, ok := g.Gis[b.name].(float64)
		if !ok {
			return fmt.Errorf("status flag %s missing", b.name)
		}
		if uint32(v) != l.Status>>b.shift&b.mask {
			return fmt.Errorf("status flag %s is %v, sent %d (status word %08x)", b.name, v, l.Status>>b.shift&b.mask, l.Status)
		}
	}
	return nil
}

// MatchDevice compares a directory entry with the registered identity.
func (d *Dev) MatchDevice(v *Device, authed bool) error {
	if v == nil {
		return fmt.Errorf("not in the directory")
	}
	switch {
	case v.ID != d.Reg.DevID:
		return fmt.Errorf("device id %q, registered %q", v.ID, d.Reg.DevID)
	case v.Plate != d.Reg.Plate:
		return fmt.Errorf("plate %q, registered %q", v.Plate, d.Reg.Plate)
	case v.Phone != d.Phone:
		return fmt.Errorf("phone %q, registered %q", v.Phone, d.Phone)
	case v.VersionDesc != int(d.Ver):
		return fmt.Errorf("version %d, registered as %s", v.VersionDesc, d.Ver)
	case v.ProtocolVersion != int(d.VerByte):
		return fmt.Errorf("protocol version byte %d, registered %d", v.ProtocolVersion, d.VerByte)
	case authed && v.AuthCode != d.Code:
		return fmt.Errorf("auth code %q, issued %q", v.AuthCode, d.Code)
	case authed && v.IMEI != d.IMEI:
		return fmt.Errorf("IMEI %q, sent %q", v.IMEI, d.IMEI)
	case authed && v.SoftwareVersion != d.SW:
		return fmt.Errorf("software version %q, sent %q", v.SoftwareVersion, d.SW)
	case !authed && (v.AuthCode != "" || v.IMEI != "" || v.SoftwareVersion != ""):
		return fmt.Errorf("authentication data %q/%q/%q before authentication", v.AuthCode, v.IMEI, v.SoftwareVersion)
	}
	return nil
}
