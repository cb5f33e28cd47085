package jt

import (
	"encoding/binary"
	"fmt"
	"math"
)

func pad(s string, n int) []byte {
	b := []byte(s)
	if len(b) > n {
		panic("jt: field too long")
	}
	for len(b) < n {
		b = append(b, 0)
	}
	return b
}

// Reg is a registration body.
type Reg struct {
	Province, City uint16
	Manu, Model    string
	DevID          string
	Color          uint8
	Plate          string
}

// Widths of manufacturer, model and device id.
func (v Ver) Widths() (int, int, int) {
	switch v {
	case V2019:
		return 11, 30, 30
	case V2013:
		return 5, 20, 7
	}
	return 5, 8, 7
}

// Body encodes the registration.
func (r *Reg) Body(v Ver) []byte {
	a, b, c := v.Widths()
	o := binary.BigEndian.AppendUint16(nil, r.Province)
	o = binary.BigEndian.AppendUint16(o, r.City)
	o = append(o, pad(r.Manu, a)...)
	o = append(o, pad(r.Model, b)...)
	o = append(o, pad(r.DevID, c)...)
	o = append(o, r.Color)
	return append(o, GBK(r.Plate)...)
}

// Auth encodes an authentication body.
func Auth(v Ver, code, imei, sw string) []byte {
	if v != V2019 {
		return []byte(code)
	}
	if len(code) > 255 {
		panic("jt: code too long")
	}
	o := []byte{byte(len(code))}
	o = append(o, code...)
	o = append(o, pad(imei, 15)...)
	return append(o, pad(sw, 20)...)
}

// Loc is a location report.
type Loc struct {
	Alarm, Status, Lat, Lon uint32
	Alt, Speed, Dir         uint16
	Time                    string // 12 digits
	Extra                   []byte
}

// Body encodes the report.
func (l *Loc) Body() []byte {
	o := binary.BigEndian.AppendUint32(nil, l.Alarm)
	o = binary.BigEndian.AppendUint32(o, l.Status)
	o = binary.BigEndian.AppendUint32(o, l.Lat)
	o = binary.BigEndian.AppendUint32(o, l.Lon)
	o = binary.BigEndian.AppendUint16(o, l.Alt)
	o = binary.BigEndian.AppendUint16(o, l.Speed)
	o = binary.BigEndian.AppendUint16(o, l.Dir)
	o = append(o, bcd(l.Time)...)
	return append(o, l.Extra...)
}

// Ans is a general answer.
type Ans struct {
	Serial, ID uint16
	Result     uint8
}

// ParseAns parses the body of 0x8001 / 0x0001.
func ParseAns(b []byte) (Ans, error) {
	if len(b) != 5 {
		return Ans{}, fmt.Errorf("general answer body of %d bytes: %x", len(b), b)
	}
	return Ans{binary.BigEndian.Uint16(b), binary.BigEndian.Uint16(b[2:]), b[4]}, nil
}

// Body encodes a general answer.
func (a Ans) Body() []byte {
	o := binary.BigEndian.AppendUint16(nil, a.Serial)
	o = binary.BigEndian.AppendUint16(o, a.ID)
	return append(o, a.Result)
}

// RegAns is a registration answer.
type RegAns struct {
	Serial uint16
	Result uint8
	Code   string
}

// ParseRegAns parses 0x8100.
func ParseRegAns(b []byte) (RegAns, error) {
	if len(b) < 3 {
		return RegAns{}, fmt.Errorf("registration answer body of %d bytes", len(b))
	}
	return RegAns{binary.BigEndian.Uint16(b), b[2], string(b[3:])}, nil
}

// Body encodes 0x8100.
func (a RegAns) Body() []byte {
	o := binary.BigEndian.AppendUint16(nil, a.Serial)
	o = append(o, a.Result)
	return append(o, a.Code...)
}

// Item is one raw parameter item.
type Item struct {
	ID  uint32
	Val []byte
}

// Items encodes a counted parameter list.
func Items(list []Item) []byte {
	o := []byte{byte(len(list))}
	return append(o, ItemBytes(list)...)
}

// ItemBytes encodes items without count.
func ItemBytes(list []Item) []byte {
	var o []byte
	for _, it := range list {
		o = binary.BigEndian.AppendUint32(o, it.ID)
		o = append(o, byte(len(it.Val)))
		o = append(o, it.Val...)
	}
	return o
}

// ParseItems strictly parses a counted list occupying all of b.
func ParseItems(b []byte) ([]Item, error) {
	if len(b) == 0 {
		return nil, fmt.Errorf("no item count")
	}
	n := int(b[0])
	b = b[1:]
	var out []Item
	for len(b) > 0 {
		if len(b) < 5 || len(b) < 5+int(b[4]) {
			return nil, fmt.Errorf("item truncated: %x", b)
		}
		l := int(b[4])
		out = append(out, Item{binary.BigEndian.Uint32(b), append([]byte{}, b[5:5+l]...)})
		b = b[5+l:]
	}
	if len(out) != n {
		return out, fmt.Errorf("item count %d, %d items present", n, len(out))
	}
	return out, nil
}

// Kind of a parameter value.
type Kind int

const (
	KByte Kind = iota
	KWord
	KDWord
	KBytes
	KGBK
	KStr
)

// Params lists the supported parameters and their value types (JT/T 808 and
// JT/T 1078 parameter tables).
var Params = func() map[uint32]Kind {
	m := map[uint32]Kind{}
	add := func(k Kind, ids ...uint32) {
		for _, i := range ids {
			m[i] = k
		}
	}
	add(KDWord, 1, 2, 3, 4, 5, 6, 7, 0x18, 0x19, 0x1b, 0x1c, 0x20, 0x21, 0x22, 0x27, 0x28, 0x29, 0x2c, 0x2d, 0x2e, 0x2f, 0x30,
		0x45, 0x46, 0x47, 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x64, 0x65, 0x70, 0x71, 0x72, 0x73, 0x74,
		0x80, 0x93, 0x95, 0x100, 0x102)
	add(KGBK, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x1a, 0x1d, 0x23, 0x24, 0x25, 0x26, 0x40, 0x41, 0x42, 0x43, 0x44, 0x48, 0x49, 0x83)
	add(KWord, 0x31, 0x5b, 0x5c, 0x5d, 0x5e, 0x81, 0x82, 0x101, 0x103)
	add(KByte, 0x84, 0x90, 0x91, 0x92, 0x94)
	add(KBytes, 0x32, 0x75, 0x76, 0x77, 0x79, 0x7a, 0x7b, 0x7c)
	add(KStr, 0x110)
	return m
}()

// MicroDeg converts a reported coordinate back to millionths of a degree.
func MicroDeg(f float64) int64 { return int64(math.Round(f * 1e6)) }
