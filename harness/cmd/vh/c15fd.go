package main

import (
	"fmt"
	"net"
	"sync"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
	"github.com/fakeyanss/jt808-server-go/zzverif/senv"
)

// c15fd: peers open more connections than the platform has descriptors. The devices already
// connected are served throughout; once the peers are gone, new devices are.
func c15fd(r *Run, c *scn.Ctx) {
	srv := r.startServer(fmt.Sprintf("X/c15fd/w%d", c.Worker), senv.Opt{Level: "FATAL"})
	defer srv.Stop()
	c.Env = srv
	var devs []*scn.Dev
	for i := 0; i < 4; i++ {
		devs = append(devs, c.Up(scn.Versions[i%3]))
	}
	for n := 0; n < c.Scale && !c.Failed(); n++ {
		have, err := srv.FDs()
		if err != nil {
			scn.Harness("descriptors: %v", err)
		}
		room := 6 + c.R.Intn(20)
		if err := srv.LimitFiles(have + room); err != nil {
			scn.Harness("limit: %v", err)
		}
		var hs []net.Conn
		var mu sync.Mutex
		flood := func(k int) {
			for i := 0; i < k; i++ {
				h, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", srv.TCP), 2*time.Second)
				if err != nil {
					return
				}
				if i%3 == 0 {
					h.Write([]byte{0x7e, 1, 2, 3})
				}
				mu.Lock()
				hs = append(hs, h)
				mu.Unlock()
			}
		}
		flood(room + 30)
		full := 0
		for i := 0; i < 60; i++ {
			if k, _ := srv.FDs(); k >= have+room {
				full++
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		for k := 0; k < 6; k++ {
			for _, d := range devs {
				if !d.Beat() || !d.Locate(c.RandLoc()) {
					scn.Abort()
				}
				c.Rec.Event("bystander_answers_without_descriptors", 2)
			}
			time.Sleep(30 * time.Millisecond)
		}
		for i, h := range hs {
			if (i+n)%2 == 0 {
				h.(*net.TCPConn).SetLinger(0)
			}
			h.Close()
		}
		// recovery
		d := c.Up(scn.Versions[c.R.Intn(3)])
		if !d.Locate(c.RandLoc()) || !d.Logout() {
			scn.Abort()
		}
		d.T.Close()
		if len(c.List()) < len(devs) {
			c.Violate("devices missing from the listing after a flood of connections")
		}
		c.Rec.Event("floods_reaching_the_descriptor_limit", int64(full))
		c.Rec.Case("flood %d room %d conns %d", n, room, len(hs))
	}
}
