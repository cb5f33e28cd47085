package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
	"github.com/fakeyanss/jt808-server-go/zzverif/senv"
)

// tapEnv records what goes over every connection.
type tapEnv struct {
	*senv.Srv
	mu    sync.Mutex
	links []*tapLink
}

type tapLink struct {
	scn.Link
	mu      sync.Mutex
	in, out []byte
}

func (e *tapEnv) Dial(o scn.DialOpt) (scn.Link, error) {
	l, err := e.Srv.Dial(o)
	if err != nil {
		return nil, err
	}
	t := &tapLink{Link: l}
	e.mu.Lock()
	e.links = append(e.links, t)
	e.mu.Unlock()
	return t, nil
}

func (l *tapLink) Write(b []byte) (int, error) {
	n, err := l.Link.Write(b)
	l.mu.Lock()
	l.in = append(l.in, b[:n]...)
	l.mu.Unlock()
	return n, err
}

func (l *tapLink) Read(b []byte) (int, error) {
	n, err := l.Link.Read(b)
	l.mu.Lock()
	l.out = append(l.out, b[:n]...)
	l.mu.Unlock()
	return n, err
}

// frames counts every frame that passed, in hexadecimal.
func (e *tapEnv) frames() map[string]int {
	out := map[string]int{}
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, l := range e.links {
		l.mu.Lock()
		for _, s := range [][]byte{l.in, l.out} {
			for len(s) > 1 && s[0] == 0x7e {
				k := bytes.IndexByte(s[1:], 0x7e)
				if k < 0 {
					break
				}
				out[hex.EncodeToString(s[:k+2])]++
				s = s[k+2:]
			}
		}
		l.mu.Unlock()
	}
	return out
}

// logRec is one record of the log.
type logRec struct {
	level string
	time  time.Time
	text  string
	vals  []string
}

var textRec = regexp.MustCompile(`^(\S+) \| ([A-Z]+) *\| (.*)$`)

// parseLog reads a log; a record that is not one whole line is an error.
func parseLog(b []byte, asJSON bool) ([]logRec, error) {
	var out []logRec
	for i, l := range strings.SplitAfter(string(b), "\n") {
		if l == "" {
			continue
		}
		if !strings.HasSuffix(l, "\n") {
			return nil, fmt.Errorf("incomplete record at the end: %.300q", l)
		}
		l = l[:len(l)-1]
		r := logRec{text: l}
		var ts string
		if asJSON {
			m := map[string]any{}
			if err := json.Unmarshal([]byte(l), &m); err != nil {
				return nil, fmt.Errorf("record %d is not a JSON object: %v: %.300q", i, err, l)
			}
			r.level, _ = m["level"].(string)
			r.level = strings.ToUpper(r.level)
			ts, _ = m["time"].(string)
			for _, v := range m {
				if s, ok := v.(string); ok {
					r.vals = append(r.vals, s)
				}
			}
		} else {
			m := textRec.FindStringSubmatch(l)
			if m == nil {
				return nil, fmt.Errorf("record %d is not a text record: %.300q", i, l)
			}
			ts, r.level = m[1], m[2]
			for _, f := range strings.Fields(m[3]) {
				if k := strings.IndexByte(f, '='); k > 0 {
					r.vals = append(r.vals, f[k+1:])
				}
			}
		}
		if _, ok := rank[r.level]; !ok {
			return nil, fmt.Errorf("record %d has no level: %.300q", i, l)
		}
		t, err := time.Parse(time.RFC3339Nano, ts)
		if err != nil {
			return nil, fmt.Errorf("record %d has no time: %.300q", i, l)
		}
		r.time = t
		out = append(out, r)
	}
	return out, nil
}

var rank = map[string]int{"DEBUG": 0, "INFO": 1, "WARN": 2, "ERROR": 3, "FATAL": 4}

// c22: what is logged, where and how.
func c22(r *Run, c *scn.Ctx) {
	levels := []string{"DEBUG", "INFO", "WARN", "ERROR", "FATAL"}
	for round := 0; round < c.Scale && !c.Failed(); round++ {
		const par = 4
		confs := make([]conf21, 0, 12)
		for i := 0; i < 12; i++ {
			l := levels[i%5]
			b := c.R.Intn(8)
			switch i {
			case 0:
				b = 7
			case 5:
				b = 3
			case 10:
				l, b = "DEBUG", 2|c.R.Intn(2)*4
			case 11:
				l, b = "DEBUG", 1|c.R.Intn(2)*4
			}
			confs = append(confs, conf21{l, b&1 > 0, b&2 > 0, b&4 > 0})
		}
		for i := 0; i < len(confs) && !c.Failed(); i += par {
			c.Par(par, func(w int, c *scn.Ctx) { c22one(r, c, confs[i+w], round, i+w) })
		}
		c.Par(3, func(w int, c *scn.Ctx) { c22roll(r, c, round, w) })
	}
}

func (e *tapEnv) logFile() string { return filepath.Join(e.O.Dir, e.O.LogDir, e.O.LogFile) }

func c22one(r *Run, c *scn.Ctx, k conf21, round, n int) {
	begin := time.Now()
	dir := fmt.Sprintf("out %d", n)
	if n%2 == 0 {
		dir = "a/b.c/logs"
	}
	srv := r.startServer(fmt.Sprintf("X/c22/r%d-%d", round, n), senv.Opt{
		Level: k.level, Console: k.console, File: k.file, JSON: k.json,
		Split: true, LogDir: dir, LogFile: []string{"server.log", "JT808 Platform.Log", "x"}[n%3], MaxSize: 100, Backups: 5, MaxAge: 7})
	defer srv.Stop()
	e := &tapEnv{Srv: srv}
	c.Env = e
	var mu sync.Mutex
	var refused []string // connections whose message was refused
	c.Par(8, func(w int, c *scn.Ctx) {
		d := c.Up(c.RandVer())
		for j := 0; j < 25; j++ {
			switch c.R.Intn(4) {
			case 0:
				scn.Must(d.Beat())
			case 1, 2:
				l := c.RandLoc()
				l.Extra = make([]byte, c.R.Intn(900))
				c.R.Read(l.Extra)
				if c.R.Intn(4) == 0 { // frames of up to twice the size
					for i := range l.Extra {
						l.Extra[i] = []byte{0x7e, 0x7d, 0x7e, l.Extra[i]}[c.R.Intn(4)]
					}
				}
				scn.Must(d.Locate(l))
			case 3:
				c.Command(d, d.T, "command")
			}
		}
		if w%2 == 0 { // a wrong check byte
			b := d.MLoc(c.RandLoc()).Frame()
			if i := len(b) - 2; b[i]^0x10 < 0x7d && b[i-1] != 0x7d {
				b[i] ^= 0x10
				d.T.Raw(b)
			}
		}
		// refused messages
		t := c.Dial()
		x := c.NewDev(c.RandVer()).On(t)
		t.Send(x.MBeat())
		if _, closed := t.WaitClosed(); closed {
			mu.Lock()
			refused = append(refused, t.L.ID())
			mu.Unlock()
		}
		scn.Must(d.Beat())
		scn.Must(d.Logout())
		d.T.Close()
	})
	want := e.frames()
	total := 0
	for _, v := range want {
		total += v
	}
	check := func() error {
		outs := map[string][]logRec{}
		cb, err := os.ReadFile(srv.Stderr())
		if err != nil {
			scn.Harness("%v", err)
		}
		recs, err := parseLog(cb, false)
		if err != nil {
			return fmt.Errorf("console: %v", err)
		}
		if !k.console && len(recs) > 0 {
			return fmt.Errorf("console logging is off, standard error has %s", recs[0].text)
		}
		if k.console {
			outs["console"] = recs
		}
		fb, err := os.ReadFile(e.logFile())
		switch {
		case k.file && err != nil && rank[k.level] < 4:
			return fmt.Errorf("file logging is on: %v", err)
		case !k.file && err == nil:
			return fmt.Errorf("file logging is off, %s exists", e.logFile())
		case k.file:
			recs, err := parseLog(fb, k.json)
			if err != nil {
				return fmt.Errorf("file: %v", err)
			}
			outs["file"] = recs
		}
		end := time.Now()
		for where, recs := range outs {
			seen := map[string]int{}
			got := map[string]int{}
			names := map[string]bool{}
			for _, x := range recs {
				if rank[x.level] < rank[k.level] {
					return fmt.Errorf("%s: level %s, but a record of level %s: %s", where, k.level, x.level, x.text)
				}
				if x.time.Before(begin.Add(-2*time.Second)) || x.time.After(end.Add(2*time.Second)) {
					return fmt.Errorf("%s: a record dated %v in a run from %v to %v", where, x.time, begin, end)
				}
				seen[x.level]++
				for _, v := range x.vals {
					if strings.HasPrefix(v, "7e") {
						got[v]++
					}
					if x.level == "ERROR" {
						names[v] = true
					}
				}
			}
			if k.level == "DEBUG" {
				for f, n := range want {
					if got[f] != n {
						return fmt.Errorf("%s: frame %s passed %d times, recorded %d times", where, f, n, got[f])
					}
				}
				for f, n := range got {
					if want[f] != n {
						return fmt.Errorf("%s: frame %s passed %d times, recorded %d times", where, f, want[f], n)
					}
				}
			}
			if rank[k.level] <= 1 && seen["INFO"] == 0 {
				return fmt.Errorf("%s: level %s, no INFO record", where, k.level)
			}
			if rank[k.level] <= 3 {
				for _, id := range refused {
					if !names[id] {
						return fmt.Errorf("%s: level %s, no ERROR record names connection %s whose message was refused", where, k.level, id)
					}
				}
			}
			c.Rec.Event("records_"+where, int64(len(recs)))
		}
		if len(outs) == 2 && len(outs["file"]) != len(outs["console"]) {
			return fmt.Errorf("%d records on the console, %d in the file", len(outs["console"]), len(outs["file"]))
		}
		return nil
	}
	until := time.Now().Add(srv.ReplyTimeout())
	for {
		err := check()
		if err == nil {
			break
		}
		if time.Now().After(until) {
			c.Violate("%s: %v", k, err)
			scn.Abort()
		}
		time.Sleep(200 * time.Millisecond)
	}
	c.Rec.Event("frames", int64(total))
	c.Rec.Event("refusals", int64(len(refused)))
	c.Rec.Case("%d %d %s", round, n, k)
	if n == 0 {
		c.Rec.Sample(map[string]any{"configuration": k.String(), "frames": total, "refused": refused})
	}
}

// c22roll: rolling files lose nothing, and keep to the limits.
func c22roll(r *Run, c *scn.Ctx, round, w int) {
	o := senv.Opt{Level: "DEBUG", File: true, JSON: c.R.Intn(2) == 0, Split: true, LogDir: "logs", LogFile: "server.log",
		MaxSize: 1, Backups: []int{60, 2, 60}[w], MaxAge: []int{5, 5, 0}[w]}
	o.Dir = filepath.Join(r.Scratch, fmt.Sprintf("roll-%d-%d-%d", c.Worker, round, w))
	if err := os.MkdirAll(filepath.Join(o.Dir, o.LogDir), 0o755); err != nil {
		scn.Harness("%v", err)
	}
	// files of an earlier run
	stamp := func(days int) string {
		t := time.Now().Add(-time.Duration(days)*24*time.Hour - time.Hour).UTC()
		return filepath.Join(o.Dir, o.LogDir, "server-"+t.Format("2006-01-02T15-04-05.000")+".log")
	}
	young, old := stamp(3), stamp(8)
	for _, f := range []string{young, old} {
		if err := os.WriteFile(f, nil, 0o644); err != nil {
			scn.Harness("%v", err)
		}
	}
	srv := r.startServer("", o)
	defer srv.Stop()
	e := &tapEnv{Srv: srv}
	c.Env = e
	c.Par(6, func(_ int, c *scn.Ctx) {
		d := c.Up(c.RandVer())
		for j := 0; j < 250; j++ {
			l := c.RandLoc()
			l.Extra = make([]byte, 500+c.R.Intn(400))
			c.R.Read(l.Extra)
			scn.Must(d.Locate(l))
		}
		scn.Must(d.Logout())
		d.T.Close()
	})
	want := e.frames()
	var files int
	check := func() error {
		fs, err := filepath.Glob(filepath.Join(o.Dir, o.LogDir, "*"))
		if err != nil {
			scn.Harness("%v", err)
		}
		has := map[string]bool{}
		got := map[string]int{}
		back := 0
		for _, f := range fs {
			has[f] = true
			if f != e.logFile() {
				back++
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return fmt.Errorf("%v", err)
			}
			if len(b) > 1<<20 {
				return fmt.Errorf("%s has %d bytes, the limit is 1 MB", filepath.Base(f), len(b))
			}
			recs, err := parseLog(b, o.JSON)
			if err != nil {
				return fmt.Errorf("%s: %v", filepath.Base(f), err)
			}
			for _, x := range recs {
				for _, v := range x.vals {
					if strings.HasPrefix(v, "7e") {
						got[v]++
					}
				}
			}
			c.Rec.Event("records_rolled", int64(len(recs)))
		}
		files = len(fs)
		if o.Backups < 10 {
			if back > o.Backups {
				return fmt.Errorf("%d rolled files are kept, the limit is %d", back, o.Backups)
			}
			for f, n := range got {
				if n > want[f] {
					return fmt.Errorf("frame %s passed %d times, recorded %d times", f, want[f], n)
				}
			}
			return nil
		}
		if back < 3 {
			return fmt.Errorf("%d rolled files after megabytes of log", back)
		}
		for f, n := range want {
			if got[f] != n {
				return fmt.Errorf("frame %s passed %d times, recorded %d times in %d files", f, n, got[f], len(fs))
			}
		}
		if !has[young] {
			return fmt.Errorf("a rolled file of 3 days was removed, the limit is %d days", o.MaxAge)
		}
		if has[old] != (o.MaxAge == 0) {
			return fmt.Errorf("a rolled file of 8 days is kept: %v, the limit is %d days (0: none)", has[old], o.MaxAge)
		}
		return nil
	}
	until := time.Now().Add(srv.ReplyTimeout())
	for {
		err := check()
		if err == nil {
			break
		}
		if time.Now().After(until) {
			c.Violate("rolling files of 1 MB, %d backups, %d days: %v", o.Backups, o.MaxAge, err)
			scn.Abort()
		}
		time.Sleep(200 * time.Millisecond)
	}
	c.Rec.Event("log_files", int64(files))
	c.Rec.Case("roll %d %d %d", round, w, files)
}
