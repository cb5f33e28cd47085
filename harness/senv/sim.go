package senv

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"time"

	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
)

// SimOpt configures the terminal simulator.
type SimOpt struct {
	Bin, Dir    string
	Version     string
	Phone       string // regular expressions
	Plate       string
	ID          string
	IMEI        string
	Keepalive   int
	Interval    int
	Level       string
	Concurrency int
	Race        bool
}

// Sim is a running simulator and the listener it connects to.
type Sim struct {
	O      SimOpt
	L      net.Listener
	cmd    *exec.Cmd
	exited chan struct{}
	err    error
	out    string
}

// StartSim launches the simulator against a listener owned by the monitor.
func StartSim(o SimOpt) *Sim {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		scn.Harness("listen: %v", err)
	}
	os.MkdirAll(o.Dir, 0o755)
	if o.Concurrency == 0 {
		o.Concurrency = 1
	}
	cfg := fmt.Sprintf(`log:
  consoleEnable: false
  fileEnable: true
  printAsJson: false
  logLevel: "%s"
  logDirectory: "%s"
  logFile: "client.log"
  maxSizeOfRolling: 50
  maxBackupsOfRolling: 2
  maxAgeOfRolling: 7
client:
  name: "verif"
  concurrency: %d
  conn:
    remoteAddr: "%s"
  device:
    idReg: "%s"
    imeiReg: "%s"
    phoneReg: "%s"
    plateReg: "%s"
    protocolVersion: "%s"
    transProto: "TCP"
    keepalive: %d
    provinceIdReg: "[0-9]{2}"
    cityIdReg: "[0-9]{4}"
    plateColorReg: "[0123459]{1}"
  deviceGeo:
    locationReportInterval: %d
    geo:
`, o.Level, filepath.Join(o.Dir, "logs"), o.Concurrency, l.Addr(), o.ID, o.IMEI, o.Phone, o.Plate, o.Version, o.Keepalive, o.Interval)
	for _, k := range []string{"accStatusReg", "locationStatusReg", "latitudeTypeReg", "longitudeTypeReg", "operatingStatusReg", "geoEncryptionStatusReg", "loadStatusReg", "FuelSystemStatusReg", "AlternatorSystemStatusReg", "DoorLockedStatusReg", "frontDoorStatusReg", "midDoorStatusReg", "backDoorStatusReg", "driverDoorStatusReg", "customDoorStatusReg", "gpsLocationStatusReg", "beidouLocationStatusReg", "glonassLocationStatusReg", "galileoLocationStatusReg", "drivingStatusReg"} {
		cfg += fmt.Sprintf("      %s: \"0|1\"\n", k)
	}
	cfg += `    location:
      latitudeReg: "[0-8][0-9]|90"
      longitudeReg: "[0-9]{2}|1[0-7][0-9]|180"
      altitudeReg: "[0-9]|[0-9]{4}|499[0-9]"
    drive:
      speedReg: "[0-9]|[0-9]{2}|29[0-9]"
      directionReg: "[0-9]{2}|[1-2][0-9]{2}|3[0-5][0-9]"
`
	cf := filepath.Join(o.Dir, "client.yaml")
	if err := os.WriteFile(cf, []byte(cfg), 0o644); err != nil {
		scn.Harness("%v", err)
	}
	s := &Sim{O: o, L: l, exited: make(chan struct{}), out: filepath.Join(o.Dir, "stderr")}
	ef, err := os.Create(s.out)
	if err != nil {
		scn.Harness("%v", err)
	}
	s.cmd = exec.Command(o.Bin, "-c", cf)
	s.cmd.Dir = o.Dir
	s.cmd.Stdout, s.cmd.Stderr = ef, ef
	s.cmd.Env = append(os.Environ(), "TZ=UTC", "GOTRACEBACK=all", "VERIF_YIELD=0", "GORACE=halt_on_error=0 log_path="+filepath.Join(o.Dir, "race"))
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		scn.Harness("simulator: %v", err)
	}
	ef.Close()
	go func() {
		s.err = s.cmd.Wait()
		close(s.exited)
	}()
	return s
}

// Accept waits for the simulator's next connection.
func (s *Sim) Accept(d time.Duration) (scn.Link, error) {
	s.L.(*net.TCPListener).SetDeadline(time.Now().Add(d))
	c, err := s.L.Accept()
	if err != nil {
		return nil, err
	}
	return &link{c.(*net.TCPConn)}, nil
}

// Check reports that the simulator ended.
func (s *Sim) Check() error {
	select {
	case <-s.exited:
		b, _ := os.ReadFile(s.out)
		if len(b) > 2500 {
			b = b[len(b)-2500:]
		}
		return fmt.Errorf("simulator ended: %v\n%s", s.err, b)
	default:
		return nil
	}
}

// Stop kills the simulator.
func (s *Sim) Stop() {
	s.cmd.Process.Kill()
	<-s.exited
	s.L.Close()
}

// SimEnv is the Env of monitors that play the platform themselves.
type SimEnv struct{ S *Sim }

func (e SimEnv) Name() string                       { return "X" }
func (e SimEnv) Dial(scn.DialOpt) (scn.Link, error) { return nil, scn.ErrUnsupported }
func (e SimEnv) Devices() ([]scn.Device, error)     { return nil, scn.ErrUnsupported }
func (e SimEnv) Geo(string) (*scn.Geo, error)       { return nil, scn.ErrUnsupported }
func (e SimEnv) HTTP(string, string, []byte) (int, []byte, error) {
	return 0, nil, scn.ErrUnsupported
}
func (e SimEnv) ReplyTimeout() time.Duration { return 30 * time.Second }
func (e SimEnv) Check() error {
	if e.S == nil {
		return nil
	}
	return e.S.Check()
}

var _ scn.Env = SimEnv{}
