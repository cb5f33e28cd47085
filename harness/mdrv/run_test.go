// Package mdrv drives the platform's model packages directly.
package mdrv

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"testing"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"

	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
)

type job struct {
	Scenario string `json:"scenario"`
	Prop     string `json:"prop"`
	Seed     int64  `json:"seed"`
	Scale    int    `json:"scale"`
	Worker   int    `json:"worker"`
	Out      string `json:"out"`
	WallS    int    `json:"wall_s"`
}

var registry = map[string]func(*scn.Ctx){}

// platform runs fn, which calls platform code; a panic is a violation.
func platform(c *scn.Ctx, what string, fn func()) {
	defer func() {
		if v := recover(); v != nil {
			if scn.IsAbort(v) {
				panic(v)
			}
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			c.Violate("%s: panic: %v\n%s", what, v, buf)
			scn.Abort()
		}
	}()
	fn()
}

func TestM(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_JOB"))
	if err != nil {
		t.Skip("no job")
	}
	j := &job{}
	if err := json.Unmarshal(b, j); err != nil {
		t.Fatal(err)
	}
	log.Logger = zerolog.New(io.Discard).Level(zerolog.ErrorLevel)
	go func() {
		time.Sleep(time.Duration(j.WallS) * time.Second)
		buf := make([]byte, 8<<20)
		os.WriteFile(j.Out+".stall", buf[:runtime.Stack(buf, true)], 0o644)
		os.Exit(3)
	}()
	c := &scn.Ctx{Prop: j.Prop, R: rand.New(rand.NewSource(j.Seed*1000003 + int64(j.Worker)*7919 + 23)),
		Rec: scn.NewRec(), Scale: j.Scale, Worker: j.Worker}
	fn := registry[j.Scenario]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", j.Scenario)
		os.Exit(4)
	}
	herr := scn.RunSafe(func() { fn(c) })
	r := map[string]any{"rec": json.RawMessage(c.Rec.Finish())}
	if herr != nil {
		r["harness"] = herr.Error()
	}
	ob, _ := json.Marshal(r)
	os.WriteFile(j.Out+".tmp", ob, 0o644)
	os.Rename(j.Out+".tmp", j.Out)
	os.Exit(0)
}
