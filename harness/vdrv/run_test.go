package vdrv

import (
	"fmt"
	"io"
	"os"
	"testing"
	"testing/synctest"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"

	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
)

func TestV(t *testing.T) {
	j := loadJob()
	if j == nil {
		t.Skip("no job")
	}
	lvl := zerolog.ErrorLevel
	if j.Debug {
		lvl = zerolog.DebugLevel
	}
	log.Logger = zerolog.New(io.Discard).Level(lvl)
	go watchdog(j)
	if scn.NoPlatform[j.Scenario] {
		runJob(j, nil)
	}
	synctest.Test(t, func(t *testing.T) {
		env, err := NewEnv()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(5)
		}
		runJob(j, env)
	})
}
