package vdrv

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
)

// Job is what the orchestrator asks for.
type Job struct {
	Scenario string `json:"scenario"`
	Prop     string `json:"prop"`
	Seed     int64  `json:"seed"`
	Scale    int    `json:"scale"`
	Worker   int    `json:"worker"`
	Out      string `json:"out"`
	Race     bool   `json:"race"`
	WallS    int    `json:"wall_s"`
	Debug    bool   `json:"debug"` // platform log level debug
}

// Result is what it gets back.
type Result struct {
	Harness string          `json:"harness,omitempty"`
	Rec     json.RawMessage `json:"rec"`
}

func loadJob() *Job {
	b, err := os.ReadFile(os.Getenv("VERIF_JOB"))
	if err != nil {
		return nil
	}
	j := &Job{}
	if err := json.Unmarshal(b, j); err != nil {
		panic(err)
	}
	return j
}

func writeResult(j *Job, rec *scn.Rec, herr error) {
	r := Result{Rec: rec.Finish()}
	if herr != nil {
		r.Harness = herr.Error()
	}
	b, _ := json.Marshal(r)
	if err := os.WriteFile(j.Out+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	os.Rename(j.Out+".tmp", j.Out)
}

func watchdog(j *Job) {
	w := j.WallS
	if w == 0 {
		w = 240
	}
	time.Sleep(time.Duration(w) * time.Second)
	buf := make([]byte, 16<<20)
	n := runtime.Stack(buf, true)
	os.WriteFile(j.Out+".stall", buf[:n], 0o644)
	fmt.Fprintln(os.Stderr, "vdrv: wall clock watchdog")
	os.Exit(3)
}

func runJob(j *Job, env scn.Env) {
	c := &scn.Ctx{Env: env, Prop: j.Prop, R: rand.New(rand.NewSource(j.Seed*1000003 + int64(j.Worker)*7919 + 17)),
		Rec: scn.NewRec(), Scale: j.Scale, Worker: j.Worker, Race: j.Race}
	fn := scn.Registry[j.Scenario]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", j.Scenario)
		os.Exit(4)
	}
	err := scn.RunSafe(func() { fn(c) })
	writeResult(j, c.Rec, err)
	os.Exit(0)
}
