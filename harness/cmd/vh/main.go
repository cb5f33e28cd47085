// vh runs the check of one property.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/build"
	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
	"github.com/fakeyanss/jt808-server-go/zzverif/senv"
)

// Spec is one kind of run a check consists of.
type Spec struct {
	Env      string // "V", "S", "M" (model packages) or "X" (custom, runs in the orchestrator)
	Scenario string
	Q, T     int // scale quick / thorough
	WQ, WT   int // workers quick / thorough
	Race     bool
	Yield    int
	Debug    bool
	GCTrace  bool
	Sim      bool // needs the simulator binary
	Custom   func(*Run, *scn.Ctx)
}

// Plan is a check.
type Plan struct {
	Rule  string
	Min   int64 // fewer evaluations than this: inconclusive
	Specs []Spec
}

// Run is the state of one check.
type Run struct {
	ID      string
	Tier    string
	Seed    int64
	Scratch string
	Verif   string
	B       *build.Builder

	mu      sync.Mutex
	bins    map[string]string
	binErr  map[string]error
	evals   int64
	hashes  map[string]bool
	events  map[string]int64
	samples []any
	viol    []found
	notes   []string
	inconc  []string
	jobs    int
	servers int
	races   map[string]bool
}

type found struct {
	scn.Violation
	Job string `json:"job"`
}

func (r *Run) bin(kind string, race bool) (string, error) {
	k := fmt.Sprintf("%s/%v", kind, race)
	r.mu.Lock()
	defer r.mu.Unlock()
	if e, ok := r.binErr[k]; ok {
		return r.bins[k], e
	}
	var p string
	var err error
	switch kind {
	case "server":
		p, err = r.B.Server(race)
	case "client":
		p, err = r.B.Client(race)
	case "vdrv":
		p, err = r.B.VDrv(race)
	case "mdrv":
		p, err = r.B.MDrv(race)
	}
	r.bins[k], r.binErr[k] = p, err
	return p, err
}

type jobResult struct {
	Harness string `json:"harness"`
	Rec     struct {
		Evals      int64            `json:"evals"`
		Hashes     []string         `json:"hashes"`
		Events     map[string]int64 `json:"events"`
		Samples    []any            `json:"samples"`
		Violations []scn.Violation  `json:"violations"`
	} `json:"rec"`
}

func (r *Run) merge(job string, res *jobResult) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.jobs++
	r.evals += res.Rec.Evals
	for _, h := range res.Rec.Hashes {
		r.hashes[h] = true
	}
	for k, v := range res.Rec.Events {
		r.events[k] += v
	}
	if len(r.samples) < 6 {
		for _, s := range res.Rec.Samples {
			if len(r.samples) < 6 {
				r.samples = append(r.samples, s)
			}
		}
	}
	for _, v := range res.Rec.Violations {
		r.viol = append(r.viol, found{v, job})
	}
	if res.Harness != "" {
		r.inconc = append(r.inconc, job+": "+res.Harness)
	}
}

func (r *Run) violate(job, msg string) {
	r.mu.Lock()
	r.viol = append(r.viol, found{scn.Violation{Prop: r.ID, Msg: msg}, job})
	r.mu.Unlock()
}

func (r *Run) inconclusive(job, msg string) {
	r.mu.Lock()
	r.inconc = append(r.inconc, job+": "+msg)
	r.mu.Unlock()
}

func (r *Run) note(f string, a ...any) {
	r.mu.Lock()
	r.notes = append(r.notes, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

var lineNo = regexp.MustCompile(`:\d+( \+0x[0-9a-f]+)?`)

// repoRace extracts the platform frames of a race report; "" if none.
func repoRace(blk string) string {
	var fr []string
	for _, l := range strings.Split(blk, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, build.Repo+"/") && strings.Contains(l, ".go:") {
			fr = append(fr, lineNo.ReplaceAllString(strings.TrimPrefix(l, build.Repo+"/"), ""))
		}
	}
	return strings.Join(fr, " < ")
}

// addRaces turns race reports into violations, deduplicated.
func (r *Run) addRaces(job string, blks []string) {
	for _, b := range blks {
		k := repoRace(b)
		if k == "" {
			r.note("race report without platform frames in %s", job)
			continue
		}
		r.mu.Lock()
		dup := r.races[k]
		r.races[k] = true
		n := len(r.races)
		r.mu.Unlock()
		if !dup && n <= 12 {
			r.violate(job, "data race: "+strings.TrimSpace(b))
		}
	}
}

// crash classifies the output of a driver process that died.
func crashInPlatform(out string) (string, bool) {
	i := strings.Index(out, "panic: ")
	if j := strings.Index(out, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return "", false
	}
	tr := out[i:]
	// first goroutine block is the culprit
	g := strings.Index(tr, "goroutine ")
	if g < 0 {
		return "", false
	}
	blk := tr[g:]
	if e := strings.Index(blk, "\n\n"); e >= 0 {
		blk = blk[:e]
	}
	for _, l := range strings.Split(blk, "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "/harness/") {
			return "", false
		}
		if strings.HasPrefix(l, build.Repo+"/") {
			if len(tr) > 3000 {
				tr = tr[:3000]
			}
			return tr, true
		}
	}
	return "", false
}

func (r *Run) runV(s Spec, w, scale int) {
	job := fmt.Sprintf("%s/%s/w%d", s.Env, s.Scenario, w)
	kind, test := "vdrv", "^TestV$"
	if s.Env == "M" {
		kind, test = "mdrv", "^TestM$"
	}
	bin, err := r.bin(kind, s.Race)
	if err != nil {
		r.note("%s not buildable: %v", kind, err)
		r.inconclusive(job, "driver not buildable: "+err.Error())
		return
	}
	dir := filepath.Join(r.Scratch, fmt.Sprintf("v-%s-%d-%v-%v-%d", s.Scenario, w, s.Race, s.Debug, s.Yield))
	os.MkdirAll(dir, 0o755)
	out := filepath.Join(dir, "out.json")
	wall := 300
	if r.Tier == "thorough" {
		wall = 10800
	}
	jb, _ := json.Marshal(map[string]any{"scenario": s.Scenario, "prop": r.ID, "seed": r.Seed, "scale": scale, "worker": w,
		"out": out, "race": s.Race, "debug": s.Debug, "wall_s": wall})
	jf := filepath.Join(dir, "job.json")
	os.WriteFile(jf, jb, 0o644)
	ef, _ := os.Create(filepath.Join(dir, "stderr"))
	c := exec.Command(bin, "-test.run", test, "-test.timeout", "0")
	c.Dir = dir
	c.Stdout, c.Stderr = ef, ef
	c.Env = append(os.Environ(), "TZ=UTC", "VERIF_JOB="+jf, "GOTRACEBACK=all", "VERIF_YIELD="+strconv.Itoa(s.Yield),
		"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err = c.Run()
	ef.Close()
	if s.Race {
		fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			var blks []string
			for _, blk := range strings.Split(string(b), "==================") {
				if strings.Contains(blk, "WARNING: DATA RACE") {
					blks = append(blks, blk)
				}
			}
			if r.ID == "C16" {
				r.addRaces(job, blks)
			}
		}
	}
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		var res jobResult
		if e := json.Unmarshal(b, &res); e != nil {
			r.inconclusive(job, e.Error())
			return
		}
		r.merge(job, &res)
		return
	}
	eb, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	if tr, ok := crashInPlatform(string(eb)); ok {
		r.violate(job, "platform crashed: "+tr)
		return
	}
	if st, e := os.ReadFile(out + ".stall"); e == nil {
		if d := deadlocked(string(st)); d != "" {
			r.violate(job, "platform does not make progress: "+d)
			return
		}
		os.WriteFile(filepath.Join(r.Verif, "evidence", "stall-"+r.ID+".txt"), st, 0o644)
		r.inconclusive(job, "wall clock watchdog without blocked platform code")
		return
	}
	t := string(eb)
	if len(t) > 4000 {
		t = t[:4000]
	}
	r.inconclusive(job, fmt.Sprintf("driver ended: %v\n%s", err, t))
}

// deadlocked finds platform goroutines stuck on locks or busy for the whole run.
func deadlocked(dump string) string {
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.Contains(g, build.Repo+"/") {
			continue
		}
		head := g
		if i := strings.Index(g, "\n"); i >= 0 {
			head = g[:i]
		}
		if strings.Contains(head, "Mutex.Lock") || strings.Contains(head, "RWMutex") || strings.Contains(head, "semacquire") || strings.Contains(head, "runnable") || strings.Contains(head, "running") {
			if len(g) > 1500 {
				g = g[:1500]
			}
			return g
		}
	}
	return ""
}

func (r *Run) ctx(env scn.Env, s Spec, w, scale int) *scn.Ctx {
	return &scn.Ctx{Env: env, Prop: r.ID, R: rand.New(rand.NewSource(r.Seed*1000003 + int64(w)*7919 + 99991)),
		Rec: scn.NewRec(), Scale: scale, Worker: w, Race: s.Race}
}

func (r *Run) finishCtx(job string, c *scn.Ctx, err error) {
	b := c.Rec.Finish()
	var res jobResult
	json.Unmarshal(b, &res.Rec)
	if err != nil {
		res.Harness = err.Error()
	}
	r.merge(job, &res)
}

// startServer builds and launches the platform.
func (r *Run) startServer(job string, o senv.Opt) *senv.Srv {
	bin, err := r.bin("server", o.Race)
	if err != nil {
		scn.Harness("server not buildable: %v", err)
	}
	o.Bin = bin
	if o.Dir == "" {
		r.mu.Lock()
		r.servers++
		o.Dir = filepath.Join(r.Scratch, fmt.Sprintf("s%d-%s", r.servers, strings.ReplaceAll(job, "/", "-")))
		r.mu.Unlock()
	}
	if r.Tier == "thorough" {
		o.Timeout = 60 * time.Second
	}
	s, err := senv.Start(o)
	if err != nil {
		if strings.Contains(err.Error(), "goroutine ") || strings.Contains(err.Error(), "not served") {
			r.violate(job, "platform does not start: "+err.Error())
			scn.Abort()
		}
		scn.Harness("server does not start: %v", err)
	}
	return s
}

func (r *Run) runS(s Spec, w, scale int) {
	job := fmt.Sprintf("S/%s/w%d", s.Scenario, w)
	if s.Debug {
		job += "d"
	}
	var c *scn.Ctx
	err := scn.RunSafe(func() {
		lvl := "ERROR"
		if s.Debug {
			lvl = "DEBUG"
		}
		o := senv.Opt{Race: s.Race, Yield: s.Yield, Level: lvl, File: s.Debug}
		if s.GCTrace {
			o.ExtraEnv = []string{"GODEBUG=gctrace=1"}
		}
		srv := r.startServer(job, o)
		defer srv.Stop()
		c = r.ctx(srv, s, w, scale)
		fn := scn.Registry[s.Scenario]
		if fn == nil {
			scn.Harness("unknown scenario %s", s.Scenario)
		}
		e := scn.RunSafe(func() { fn(c) })
		if d := srv.Check(); d != nil {
			c.Violate("platform crashed: %v", d)
			e = nil
		}
		if s.Race && r.ID == "C16" {
			r.addRaces(job, srv.Races())
		}
		if e != nil {
			panic(scn.HarnessErr{Err: e})
		}
	})
	if c == nil {
		if err != nil {
			r.inconclusive(job, err.Error())
		}
		return
	}
	r.finishCtx(job, c, err)
}

func (r *Run) runX(s Spec, w, scale int) {
	job := fmt.Sprintf("X/%s/w%d", s.Scenario, w)
	c := r.ctx(nil, s, w, scale)
	err := scn.RunSafe(func() { s.Custom(r, c) })
	r.finishCtx(job, c, err)
}

func main() {
	if len(os.Args) != 2 {
		fmt.Fprintln(os.Stderr, "usage: vh <property id>")
		os.Exit(2)
	}
	id := os.Args[1]
	plan, ok := Plans[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	base := os.Getenv("TMPDIR")
	scratch, err := os.MkdirTemp(base, "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 2
	func() {
		if os.Getenv("VERIF_KEEP") == "" {
			defer os.RemoveAll(scratch)
		} else {
			fmt.Fprintln(os.Stderr, "scratch:", scratch)
		}
		r := &Run{ID: id, Tier: tier, Seed: seed, Scratch: scratch, Verif: verif,
			B:    &build.Builder{Scratch: scratch, Harness: filepath.Join(verif, "harness")},
			bins: map[string]string{}, binErr: map[string]error{}, hashes: map[string]bool{}, events: map[string]int64{}, races: map[string]bool{}}
		code = r.run(plan, t0)
	}()
	os.Exit(code)
}

func (r *Run) run(p Plan, t0 time.Time) int {
	// build first, so compilation does not compete with the workloads
	for _, s := range p.Specs {
		switch s.Env {
		case "V":
			r.bin("vdrv", s.Race)
		case "M":
			r.bin("mdrv", s.Race)
		case "S":
			r.bin("server", s.Race)
		case "X":
			r.bin("server", s.Race)
			if s.Sim {
				r.bin("client", false)
			}
		}
	}
	if err := r.binErr["vdrv/false"]; err != nil {
		// after a deep refactoring the in-process driver may not compile; the same
		// scenarios then run against the server process, fewer of them
		r.note("in-process driver not buildable, using the server process: %v", err)
		virtual := map[string]bool{"c08exp": true, "c15exp": true}
		for i := range p.Specs {
			s := &p.Specs[i]
			if s.Env == "V" && !virtual[s.Scenario] {
				s.Env = "S"
				s.Q, s.T = (s.Q+19)/20, (s.T+19)/20
				s.WQ, s.WT = 1, 1
				if s.Scenario == "c18" { // minutes of real time
					s.Q = 1
				}
			}
		}
		p.Min /= 40
		r.bin("server", false)
	}
	known := loadKnown(filepath.Join(r.Verif, "known_findings.txt"), r.ID)
	slots := make(chan struct{}, max(2, runtime.NumCPU()*3/4))
	var wg sync.WaitGroup
	only := os.Getenv("VERIF_ONLY")
	for _, s := range p.Specs {
		if only != "" && s.Scenario != only {
			continue
		}
		n, scale := s.WQ, s.Q
		if r.Tier == "thorough" {
			n, scale = s.WT, s.T
		}
		if n == 0 {
			n = 1
		}
		for w := 0; w < n; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				slots <- struct{}{}
				defer func() { <-slots }()
				if r.failed(known) {
					return
				}
				ts := time.Now()
				switch s.Env {
				case "V", "M":
					r.runV(s, w, scale)
				case "S":
					r.runS(s, w, scale)
				case "X":
					r.runX(s, w, scale)
				}
				if os.Getenv("VERIF_VERBOSE") != "" {
					fmt.Fprintf(os.Stderr, "%s/%s/w%d %.1fs\n", s.Env, s.Scenario, w, time.Since(ts).Seconds())
				}
			}()
		}
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	limit := 780 * time.Second
	if r.Tier == "thorough" {
		limit = 4 * time.Hour
	}
	end := time.Now().Add(limit)
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	decided := false
	for wait := true; wait; {
		select {
		case <-fin:
			wait = false
		case now := <-tick.C:
			if !decided && r.failed(known) { // the others get a moment to add what they see
				decided = true
				end = now.Add(20 * time.Second)
			}
			if now.Before(end) {
				continue
			}
			wait = false
			if !decided {
				r.inconclusive("all", "wall clock limit of the check reached")
				if os.Getenv("VERIF_VERBOSE") != "" {
					pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
				}
			}
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()

	var fresh []found
	seenKnown := map[string]bool{}
	for _, v := range r.viol {
		if k := match(known, v); len(k) > 0 {
			for _, t := range k {
				seenKnown[t] = true
			}
		} else {
			fresh = append(fresh, v)
		}
	}
	var ks []string
	for k := range seenKnown {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, k)
	}
	r.evidence(p, t0, len(fresh))
	for _, n := range r.notes {
		fmt.Fprintln(os.Stderr, "note:", n)
	}
	if len(fresh) > 0 {
		rp := filepath.Join(r.Verif, "evidence", "replay-"+r.ID+".json")
		b, _ := json.MarshalIndent(map[string]any{
			"property": r.ID, "seed": r.Seed, "tier": r.Tier,
			"rerun":      fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s bash run.sh %s", r.Seed, r.Tier, r.ID),
			"violations": fresh,
		}, "", " ")
		os.WriteFile(rp, b, 0o644)
		for i, v := range fresh {
			if i == 5 {
				break
			}
			m := v.Msg
			if len(m) > 1200 {
				m = m[:1200] + "..."
			}
			fmt.Printf("[%s] %s\n", v.Job, m)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
		return 1
	}
	if len(r.inconc) > 0 {
		for _, s := range r.inconc {
			if len(s) > 3000 {
				s = s[:3000]
			}
			fmt.Fprintln(os.Stderr, "inconclusive:", s)
		}
		// the virtual-time driver may be unavailable after a deep refactoring; the
		// system driver alone then decides, provided it observed enough
		if !(allDriver(r.inconc) && r.evals >= p.Min) {
			return 2
		}
	}
	if r.evals < p.Min {
		fmt.Fprintf(os.Stderr, "inconclusive: only %d evaluations, need %d\n", r.evals, p.Min)
		return 2
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs\n", r.ID, r.evals, len(r.hashes), time.Since(t0).Seconds())
	return 0
}

// match lists the known findings a violation is an instance of.
func match(known []knownFinding, v found) (out []string) {
	for _, k := range known {
		if k.re.MatchString(v.Msg) {
			out = append(out, k.text)
		}
	}
	return out
}

// failed: a violation that is not known was found.
func (r *Run) failed(known []knownFinding) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, v := range r.viol {
		if len(match(known, v)) == 0 {
			return true
		}
	}
	return false
}

func allDriver(in []string) bool {
	for _, s := range in {
		if !strings.Contains(s, "driver not buildable") && !strings.Contains(s, "no net.Listener field") {
			return false
		}
	}
	return true
}

func (r *Run) evidence(p Plan, t0 time.Time, nv int) {
	if r.samples == nil {
		r.samples = []any{}
	}
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": r.evals, "distinct_nontrivial": len(r.hashes), "rule": p.Rule, "samples": r.samples,
			"monitor_events": r.events, "worker_runs": r.jobs, "yield_points_injected": r.B.Points,
		},
		"assumptions": []string{
			"held on the executions observed; unexplored inputs and schedules are not covered",
			"the independent codec in harness/jt is the reference for the wire format",
		},
		"wall_s": time.Since(t0).Seconds(), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.Verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(r.Verif, "evidence", r.ID+".json"), b, 0o644)
}

type knownFinding struct {
	re   *regexp.Regexp
	text string
}

// loadKnown reads lines "finding: property=<id> match=<regexp> :: <text>".
func loadKnown(path, id string) (out []knownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" match=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" match=")
		m, text, ok := strings.Cut(rest, " :: ")
		if !ok {
			continue
		}
		out = append(out, knownFinding{regexp.MustCompile(m), text})
	}
	return out
}
