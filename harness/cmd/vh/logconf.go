package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/jt"
	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
	"github.com/fakeyanss/jt808-server-go/zzverif/senv"
)

// step21 is one stimulus of the script.
type step21 struct {
	what   string
	conn   int       // connection index within the actor
	raw    []byte    // bytes to send, or
	auth   *scn.Dev  // authentication with the issued code of this device
	serial uint16    // of that authentication
	http   [3]string // method, path, body
	noise  bool
	probes []*jt.Msg
	dev    *scn.Dev
}

// script21 is what one actor does; actors do not interact.
type script21 struct {
	devs  []*scn.Dev
	steps []step21
}

func genScript21(c *scn.Ctx, n int) script21 {
	r := c.R
	var s script21
	for k := 0; k < 2; k++ {
		d := c.RandDev()
		if d.Ver != jt.V2011 && r.Intn(2) == 0 { // long and awkward to print
			d.Reg.Plate += strings.Repeat([]string{"x", "<&>", "\"", "\\", "%d%s", "\x1b[0m", "\n", "京"}[r.Intn(8)], 1+r.Intn(200))
			d.Reg.Model = []string{"\"},{", "\x00\x01", "\xff\xfe", "a\r\nb"}[r.Intn(4)]
		}
		s.devs = append(s.devs, d)
	}
	var stranger = c.RandDev()
	conns := 1
	add := func(x step21) {
		x.conn = conns - 1
		s.steps = append(s.steps, x)
	}
	msg := func(what string, d *scn.Dev, m *jt.Msg) { add(step21{what: what, raw: m.Frame(), dev: d}) }
	auth := func(d *scn.Dev) {
		add(step21{what: "auth", auth: d, serial: d.MBeat().Serial, dev: d})
	}
	d := s.devs[0]
	msg("register", d, d.MReg())
	for k := 0; k < n; k++ {
		if r.Intn(6) == 0 {
			d = s.devs[r.Intn(2)]
		}
		if r.Intn(8) == 0 {
			conns++
		}
		switch r.Intn(22) {
		case 0, 1:
			msg("register", d, d.MReg())
		case 2, 3:
			auth(d)
		case 4:
			msg("bad auth", d, d.MAuth("not this"))
		case 5:
			msg("beat", d, d.MBeat())
		case 6, 7:
			l := c.RandLoc()
			if r.Intn(3) == 0 {
				l.Status &^= 1
			}
			msg("location", d, d.MLoc(l))
		case 8:
			if r.Intn(2) == 0 {
				msg("logout", d, d.MOut())
			}
		case 9:
			m := []*jt.Msg{stranger.MBeat(), stranger.MLoc(c.RandLoc()), stranger.MAuth("x"), stranger.MOut()}[r.Intn(4)]
			msg("stranger", stranger, m)
			conns++
		case 10:
			f := d.MBeat().Frame()
			f[3] ^= 0x15
			add(step21{what: "corrupted", raw: f, dev: d})
		case 11:
			b := make([]byte, 1+r.Intn(80))
			r.Read(b)
			add(step21{what: "noise", raw: b, noise: true, dev: d})
		case 12:
			msg("unsupported", d, d.Msg(scn.Unsupported[r.Intn(len(scn.Unsupported))], []byte("x")))
		case 13:
			msg("upload", d, d.MQuiet(r))
		case 14:
			b := c.RandLoc().Body()
			ms := d.Cut(0x0200, b, []int{9, 20})
			for _, m := range ms {
				msg("fragment", d, m)
			}
		case 20: // large messages in many fragments
			var ms []*jt.Msg
			if r.Intn(2) == 0 {
				l := c.RandLoc()
				l.Extra = make([]byte, 500+r.Intn(3000))
				b := l.Body()
				ms = d.Cut(0x0200, b, c.RandCuts(len(b)))
			} else {
				_, its := scn.RandPut(r, 60, 100)
				b := append([]byte{1, 2}, jt.Items(its)...)
				ms = d.Cut(0x0104, b, c.RandCuts(len(b)))
			}
			var all []byte
			for _, m := range ms {
				all = append(all, m.Frame()...)
			}
			add(step21{what: "large fragmented", raw: all, dev: d})
		case 21:
			l := c.RandLoc()
			l.Extra = make([]byte, 900)
			r.Read(l.Extra)
			msg("long location", d, d.MLoc(l))
		case 15:
			add(step21{what: "hostile", raw: c.Hostile(d), noise: true, dev: d})
			conns++
		case 16:
			add(step21{what: "query command", http: [3]string{"GET", "/device/" + d.Phone + "/params", ""}, dev: d})
		case 17:
			ps, _ := scn.RandPut(r, 1+r.Intn(6), 20)
			add(step21{what: "set command", http: [3]string{"PUT", "/device/" + d.Phone + "/params", string(scn.PutBody(ps))}, dev: d})
		case 18:
			add(step21{what: "bad command", http: [3]string{"PUT", "/device/" + d.Phone + "/params", `{"params": [`}, dev: d})
		case 19:
			id := []uint16{0x8001, 0x8100, 0x8103, 0x8104, 0x9205}[r.Intn(5)]
			msg("platform message", d, d.Msg(id, jt.Items(scn.RandItems(r, 2))))
		}
	}
	for i := range s.steps {
		x := &s.steps[i]
		n := 1
		if x.noise {
			n = 2
		}
		for k := 0; k < n; k++ {
			x.probes = append(x.probes, x.dev.Msg(0x0004, nil))
		}
	}
	return s
}

// raw21 is a connection read without any judgement.
type raw21 struct {
	l      scn.Link
	frames chan []byte
}

func dial21(env *senv.Srv) (*raw21, error) {
	l, err := env.Dial(scn.DialOpt{})
	if err != nil {
		return nil, err
	}
	x := &raw21{l: l, frames: make(chan []byte, 4096)}
	go func() {
		defer close(x.frames)
		var cur []byte
		in := false
		buf := make([]byte, 4096)
		for {
			n, err := l.Read(buf)
			for _, b := range buf[:n] {
				switch {
				case b == 0x7e && in && len(cur) > 1:
					x.frames <- append(cur, b)
					cur, in = nil, false
				case b == 0x7e:
					cur, in = []byte{b}, true
				default:
					cur, in = append(cur, b), true
				}
			}
			if err != nil {
				if !errors.Is(err, io.EOF) && len(cur) == 0 {
					return
				}
				if len(cur) > 0 {
					x.frames <- cur
				}
				return
			}
		}
	}()
	return x, nil
}

// play runs one actor and returns its transcript.
func (s script21) play(env *senv.Srv, timeout time.Duration) (tr []string, err error) {
	conns := map[int]*raw21{}
	addr := map[string]string{}
	codes := map[string]string{}
	defer func() {
		for _, x := range conns {
			x.l.Close()
		}
	}()
	for i, st := range s.steps {
		x := conns[st.conn]
		if x == nil {
			if x, err = dial21(env); err != nil {
				return nil, err
			}
			conns[st.conn] = x
			addr[x.l.ID()] = fmt.Sprintf("conn%d", st.conn)
		}
		line := fmt.Sprintf("%d %s:", i, st.what)
		out := st.raw
		if st.auth != nil {
			d := st.auth
			m := &jt.Msg{ID: 0x0102, Ver: d.Ver, VerByte: d.VerByte, Phone: d.Phone, Serial: st.serial, Body: jt.Auth(d.Ver, codes[d.Phone], d.IMEI, d.SW)}
			out = m.Frame()
		}
		if st.http[0] != "" {
			code, body, err := env.HTTP(st.http[0], st.http[1], []byte(st.http[2]))
			if err != nil {
				if e := env.Check(); e != nil {
					return nil, e
				}
				return nil, fmt.Errorf("%s: %w", line, err)
			}
			b := string(body)
			for a, n := range addr {
				b = strings.ReplaceAll(b, a, n)
			}
			line += fmt.Sprintf(" http %d %s;", code, b)
		}
		var all []byte
		all = append(all, out...)
		for _, p := range st.probes {
			all = append(all, p.Frame()...)
		}
		x.l.Write(all)
		last := st.probes[len(st.probes)-1].Serial
		tm := time.NewTimer(timeout)
	wait:
		for {
			select {
			case f, ok := <-x.frames:
				if !ok {
					line += " closed"
					break wait
				}
				m, perr := jt.Parse(f)
				if perr == nil && m.ID == 0x8004 && len(m.Body) == 6 {
					m.Body = nil // the time of day
					line += fmt.Sprintf(" time-answer#%d", m.Serial)
					if m.Serial == last {
						break wait
					}
					continue
				}
				if perr == nil && m.ID == 0x8100 {
					if a, err := jt.ParseRegAns(m.Body); err == nil && a.Result == 0 {
						codes[m.Phone] = a.Code
					}
				}
				if u, err := jt.Unescape(f[min(1, len(f)-1) : len(f)-1]); err == nil && len(u) > 9 && u[0] == 0x80 && u[1] == 0x04 {
					f = u[:len(u)-7] // without the time of day and check byte
				}
				line += " " + hex.EncodeToString(f)
			case <-tm.C:
				if e := env.Check(); e != nil {
					return nil, e
				}
				line += " STALL"
				break wait
			}
		}
		tm.Stop()
		tr = append(tr, line)
		// what the platform now says about the actor's devices
		v, err := view21(env, s.devs, addr)
		if err != nil {
			return nil, err
		}
		tr = append(tr, v...)
		if strings.HasSuffix(line, "STALL") {
			return tr, nil
		}
	}
	return tr, nil
}

func view21(env *senv.Srv, devs []*scn.Dev, addr map[string]string) (out []string, err error) {
	code, b, err := env.HTTP("GET", "/device", nil)
	if err != nil {
		if e := env.Check(); e != nil {
			return nil, e
		}
		return nil, err
	}
	var l []map[string]any
	if err := json.Unmarshal(b, &l); err != nil {
		return []string{fmt.Sprintf("listing %d %s", code, b)}, nil
	}
	mine := map[string]bool{}
	for _, d := range devs {
		mine[d.Phone] = true
	}
	for _, e := range l {
		p, _ := e["phone"].(string)
		if devs != nil && !mine[p] {
			continue
		}
		delete(e, "lastComTime")
		if id, _ := e["sessionId"].(string); addr != nil {
			e["sessionId"] = addr[id]
		} else {
			delete(e, "sessionId")
		}
		j, _ := json.Marshal(e)
		out = append(out, "device "+string(j))
	}
	sort.Strings(out)
	for _, d := range devs {
		code, b, err := env.HTTP("GET", "/device/"+url.PathEscape(d.Phone)+"/geo", nil)
		if err != nil {
			return nil, err
		}
		var g struct {
			Gis map[string]any `json:"gis"`
		}
		if code == 200 && json.Unmarshal(b, &g) == nil && g.Gis != nil {
			if ts, _ := g.Gis["time"].(string); ts != "" {
				if t, err := time.Parse(time.RFC3339Nano, ts); err == nil && time.Since(t).Abs() < time.Hour {
					g.Gis["time"] = "NOW" // unreadable time of a hostile report
				}
			}
		}
		j, _ := json.Marshal(g.Gis)
		out = append(out, fmt.Sprintf("location %d %s", code, j))
	}
	return out, nil
}

type conf21 struct {
	level               string
	console, file, json bool
}

func (k conf21) String() string {
	return fmt.Sprintf("level %q console %v file %v json %v", k.level, k.console, k.file, k.json)
}

// run21 plays all actors under one configuration.
func run21(r *Run, c *scn.Ctx, name string, k conf21, scripts []script21) ([]string, error) {
	bin, err := r.bin("server", false)
	if err != nil {
		return nil, scn.HarnessErr{Err: err}
	}
	timeout := 30 * time.Second
	if r.Tier == "thorough" {
		timeout = 60 * time.Second
	}
	srv, err := senv.Start(senv.Opt{Bin: bin, Dir: filepath.Join(r.Scratch, "log-"+name), Level: k.level, Console: k.console, File: k.file, JSON: k.json, Timeout: timeout, Host: "127.9.0.1"})
	if err != nil {
		return nil, fmt.Errorf("%s: the platform does not start: %w", k, err)
	}
	defer srv.Stop()
	trs := make([][]string, len(scripts))
	errs := make([]error, len(scripts))
	var wg sync.WaitGroup
	for i := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			trs[i], errs[i] = scripts[i].play(srv, timeout)
		}()
	}
	wg.Wait()
	var out []string
	for i := range scripts {
		if errs[i] != nil {
			return nil, fmt.Errorf("%s: %w", k, errs[i])
		}
		for _, l := range trs[i] {
			out = append(out, fmt.Sprintf("actor %d: %s", i, l))
		}
	}
	all, err := view21(srv, nil, nil)
	if err != nil {
		return nil, fmt.Errorf("%s: %w", k, err)
	}
	for _, l := range all {
		out = append(out, "finally: "+l)
	}
	return out, nil
}

// firstDiff is the first differing line.
func firstDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("%s\n  instead of\n%s", y, x)
		}
	}
	return ""
}

// c21: the same traffic under many logging configurations.
func c21(r *Run, c *scn.Ctx) {
	base := conf21{"ERROR", false, false, false}
	var confs []conf21
	levels := []string{"DEBUG", "INFO", "WARN", "ERROR", "FATAl", "FATAL"}
	if r.Tier == "thorough" {
		for _, l := range levels {
			for b := 0; b < 8; b++ {
				confs = append(confs, conf21{l, b&1 > 0, b&2 > 0, b&4 > 0})
			}
		}
	} else {
		for i, l := range levels {
			b := c.R.Intn(8)
			confs = append(confs, conf21{l, b&1 > 0, b&2 > 0, b&4 > 0})
			if i < 2 {
				b ^= 7
				confs = append(confs, conf21{l, b&1 > 0, b&2 > 0, b&4 > 0})
			}
		}
	}
	for round := 0; round < c.Scale && !c.Failed(); round++ {
		var scripts []script21
		for k := 0; k < 16; k++ {
			scripts = append(scripts, genScript21(c, 14))
		}
		judge := func(what string, err error) {
			var h scn.HarnessErr
			if errors.As(err, &h) {
				panic(h)
			}
			c.Violate("%s: %v", what, err)
			scn.Abort()
		}
		ref, err := run21(r, c, fmt.Sprintf("%d-%d-ref", c.Worker, round), base, scripts)
		if err != nil {
			judge("reference configuration", err)
		}
		const par = 4
		for i := 0; i < len(confs); i += par {
			batch := confs[i:min(i+par, len(confs))]
			c.Par(len(batch), func(w int, c *scn.Ctx) {
				k := batch[w]
				name := fmt.Sprintf("%d-%d-%d", c.Worker, round, i+w)
				got, err := run21(r, c, name, k, scripts)
				if err != nil {
					judge("configuration", err)
				}
				if diff := firstDiff(ref, got); diff != "" {
					// once more, both: a difference must be the configuration's doing
					ref2, e1 := run21(r, c, name+"-ref2", base, scripts)
					got2, e2 := run21(r, c, name+"-again", k, scripts)
					if e1 != nil || e2 != nil {
						judge("configuration", errors.Join(e1, e2))
					}
					if d2 := firstDiff(ref2, got2); d2 != "" && firstDiff(ref, ref2) == "" {
						c.Violate("under %s the platform does\n%s\n(%s)", k, d2, base)
						scn.Abort()
					}
					c.Rec.Event("irreproducible_differences", 1)
					if os.Getenv("VERIF_VERBOSE") != "" {
						fmt.Fprintln(os.Stderr, "DIFF", diff)
					}
					return
				}
				c.Rec.Case("%d %s", round, k)
				c.Rec.Event("transcript_lines_compared", int64(len(got)))
			})
		}
		if round == 0 {
			c.Rec.Sample(map[string]any{"reference_transcript_start": ref[:min(12, len(ref))]})
		}
		for _, s := range scripts {
			for _, st := range s.steps {
				c.Rec.Event("step: "+st.what, 1)
			}
		}
	}
}
