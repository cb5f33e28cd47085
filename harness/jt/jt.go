// Package jt is an independent implementation of the JT/T 808 wire format used
// by the monitors as the reference. It shares no code with the platform.
package jt

import (
	_ "embed"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"unicode/utf8"
)

// Ver is a protocol layout.
type Ver int

const (
	V2011 Ver = iota
	V2013
	V2019
)

func (v Ver) String() string { return [...]string{"2011", "2013", "2019"}[v] }

// PhoneLen is the number of phone digits on the wire.
func (v Ver) PhoneLen() int {
	if v == V2019 {
		return 20
	}
	return 12
}

// MaxBody is the largest body of one message.
const MaxBody = 1023

// Msg is one JT808 message (or fragment).
type Msg struct {
	ID      uint16
	Ver     Ver // V2011 and V2013 share the header layout
	VerByte uint8
	Phone   string // exactly PhoneLen digits
	Serial  uint16
	Enc     uint8
	Extra   bool
	Frag    bool
	Total   uint16
	Index   uint16
	Body    []byte
}

func (m *Msg) String() string {
	s := fmt.Sprintf("%04x/%s#%d phone=%s", m.ID, m.Ver, m.Serial, m.Phone)
	if m.Frag {
		s += fmt.Sprintf(" frag %d/%d", m.Index, m.Total)
	}
	return s + fmt.Sprintf(" body=%x", m.Body)
}

func bcd(s string) []byte {
	out := make([]byte, 0, len(s)/2)
	for i := 0; i+1 < len(s); i += 2 {
		out = append(out, nibble(s[i])<<4|nibble(s[i+1]))
	}
	return out
}

// nibble also takes A to F, which are no decimal digits but fit the field.
func nibble(c byte) byte {
	if c >= 'A' {
		return c - 'A' + 10
	}
	return c - '0'
}

func unbcd(b []byte) (string, bool) {
	var sb strings.Builder
	ok := true
	for _, x := range b {
		h, l := x>>4, x&15
		if h > 9 || l > 9 {
			ok = false
		}
		fmt.Fprintf(&sb, "%X%X", h, l)
	}
	return sb.String(), ok
}

// BCD encodes an even number of decimal digits.
func BCD(s string) []byte { return bcd(s) }

// UnBCD decodes BCD, reporting whether all nibbles are decimal.
func UnBCD(b []byte) (string, bool) { return unbcd(b) }

// Header returns the header bytes.
func (m *Msg) Header() []byte {
	attr := uint16(len(m.Body))
	if len(m.Body) > MaxBody {
		panic("jt: body too long")
	}
	attr |= uint16(m.Enc&7) << 10
	if m.Frag {
		attr |= 1 << 13
	}
	if m.Ver == V2019 {
		attr |= 1 << 14
	}
	if m.Extra {
		attr |= 1 << 15
	}
	if len(m.Phone) != m.Ver.PhoneLen() {
		panic(fmt.Sprintf("jt: phone %q for %s", m.Phone, m.Ver))
	}
	b := binary.BigEndian.AppendUint16(nil, m.ID)
	b = binary.BigEndian.AppendUint16(b, attr)
	if m.Ver == V2019 {
		b = append(b, m.VerByte)
	}
	b = append(b, bcd(m.Phone)...)
	b = binary.BigEndian.AppendUint16(b, m.Serial)
	if m.Frag {
		b = binary.BigEndian.AppendUint16(b, m.Total)
		b = binary.BigEndian.AppendUint16(b, m.Index)
	}
	return b
}

// Raw is header plus body, without check byte.
func (m *Msg) Raw() []byte { return append(m.Header(), m.Body...) }

// Frame is the message as sent on the wire.
func (m *Msg) Frame() []byte { return FrameRaw(m.Raw()) }

// XOR is the check byte of raw.
func XOR(raw []byte) byte {
	var c byte
	for _, x := range raw {
		c ^= x
	}
	return c
}

// FrameRaw adds a correct check byte, escapes and delimits arbitrary content.
func FrameRaw(raw []byte) []byte {
	return Delimit(append(append([]byte{}, raw...), XOR(raw)))
}

// Delimit escapes content (check byte included) and adds delimiters.
func Delimit(content []byte) []byte {
	out := []byte{0x7e}
	out = append(out, Escape(content)...)
	return append(out, 0x7e)
}

// Escape escapes content.
func Escape(content []byte) []byte {
	out := make([]byte, 0, len(content)+8)
	for _, x := range content {
		switch x {
		case 0x7e:
			out = append(out, 0x7d, 0x02)
		case 0x7d:
			out = append(out, 0x7d, 0x01)
		default:
			out = append(out, x)
		}
	}
	return out
}

// Unescape is strict: 0x7d must be followed by 01 or 02, 0x7e must not occur.
func Unescape(b []byte) ([]byte, error) {
	out := make([]byte, 0, len(b))
	for i := 0; i < len(b); i++ {
		switch b[i] {
		case 0x7e:
			return nil, fmt.Errorf("unescaped delimiter at %d", i)
		case 0x7d:
			if i+1 >= len(b) {
				return nil, errors.New("escape mark at end of frame")
			}
			switch b[i+1] {
			case 1:
				out = append(out, 0x7d)
			case 2:
				out = append(out, 0x7e)
			default:
				return nil, fmt.Errorf("illegal escape 7d%02x at %d", b[i+1], i)
			}
			i++
		default:
			out = append(out, b[i])
		}
	}
	return out, nil
}

// Parse strictly parses one complete frame (with delimiters).
func Parse(frame []byte) (*Msg, error) {
	n := len(frame)
	if n < 2 || frame[0] != 0x7e || frame[n-1] != 0x7e {
		return nil, fmt.Errorf("not delimited: %x", frame)
	}
	c, err := Unescape(frame[1 : n-1])
	if err != nil {
		return nil, fmt.Errorf("%w in frame %x", err, frame)
	}
	if len(c) < 2 {
		return nil, fmt.Errorf("frame too short: %x", frame)
	}
	raw := c[:len(c)-1]
	if XOR(raw) != c[len(c)-1] {
		return nil, fmt.Errorf("bad check byte %02x, want %02x in frame %x", c[len(c)-1], XOR(raw), frame)
	}
	m := &Msg{}
	if len(raw) < 12 {
		return nil, fmt.Errorf("header too short: %x", frame)
	}
	m.ID = binary.BigEndian.Uint16(raw)
	attr := binary.BigEndian.Uint16(raw[2:])
	i := 4
	m.Enc = uint8(attr>>10) & 7
	m.Frag = attr&(1<<13) != 0
	m.Extra = attr&(1<<15) != 0
	m.Ver = V2013
	pl := 6
	if attr&(1<<14) != 0 {
		m.Ver = V2019
		m.VerByte = raw[i]
		i++
		pl = 10
	}
	need := i + pl + 2
	if m.Frag {
		need += 4
	}
	if len(raw) < need {
		return nil, fmt.Errorf("header truncated: %x", frame)
	}
	m.Phone, _ = unbcd(raw[i : i+pl]) // digits of terminals that use others are theirs
	i += pl
	m.Serial = binary.BigEndian.Uint16(raw[i:])
	i += 2
	if m.Frag {
		m.Total = binary.BigEndian.Uint16(raw[i:])
		m.Index = binary.BigEndian.Uint16(raw[i+2:])
		i += 4
	}
	m.Body = raw[i:]
	if int(attr&0x3ff) != len(m.Body) {
		return nil, fmt.Errorf("body length field %d, body has %d bytes, in frame %x", attr&0x3ff, len(m.Body), frame)
	}
	return m, nil
}

// Splitter cuts an emitted byte stream into frames, strictly: outside a frame
// only a start delimiter may occur, a frame is never empty.
type Splitter struct {
	buf []byte
	in  bool
}

// Feed returns the completed frames; err reports a malformed stream.
func (s *Splitter) Feed(p []byte) (frames [][]byte, err error) {
	for _, x := range p {
		if !s.in {
			if x != 0x7e {
				return frames, fmt.Errorf("byte %02x outside any frame", x)
			}
			s.in = true
			s.buf = []byte{x}
			continue
		}
		s.buf = append(s.buf, x)
		if x == 0x7e {
			if len(s.buf) == 2 {
				return frames, errors.New("empty frame (7e7e)")
			}
			frames = append(frames, s.buf)
			s.buf = nil
			s.in = false
		}
	}
	return frames, nil
}

// Partial returns the bytes of an unfinished frame.
func (s *Splitter) Partial() []byte {
	if s.in {
		return s.buf
	}
	return nil
}

//go:embed hanzi.bin
var hanzi []byte

// HanziCount is the number of characters Hanzi can produce.
const HanziCount = 0x9FA6 - 0x4E00

// Hanzi returns the i-th unified ideograph.
func Hanzi(i int) rune { return rune(0x4E00 + i%HanziCount) }

var gbkRev map[[2]byte]rune

func init() {
	gbkRev = make(map[[2]byte]rune, HanziCount)
	for i := 0; i < HanziCount; i++ {
		gbkRev[[2]byte{hanzi[2*i], hanzi[2*i+1]}] = rune(0x4E00 + i)
	}
}

// GBK encodes ASCII and unified ideographs.
func GBK(s string) []byte {
	var out []byte
	for _, r := range s {
		switch {
		case r < 0x80:
			out = append(out, byte(r))
		case r >= 0x4E00 && r < 0x9FA6:
			i := int(r-0x4E00) * 2
			out = append(out, hanzi[i], hanzi[i+1])
		default:
			panic(fmt.Sprintf("jt: no GBK for %q", r))
		}
	}
	return out
}

// UnGBK decodes what GBK encodes.
func UnGBK(b []byte) (string, bool) {
	var out []byte
	for i := 0; i < len(b); {
		if b[i] < 0x80 {
			out = append(out, b[i])
			i++
			continue
		}
		if i+1 >= len(b) {
			return "", false
		}
		r, ok := gbkRev[[2]byte{b[i], b[i+1]}]
		if !ok {
			return "", false
		}
		out = utf8.AppendRune(out, r)
		i += 2
	}
	return string(out), true
}
