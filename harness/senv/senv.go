// Package senv runs the real server binary and talks to it over TCP and HTTP.
package senv

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/fakeyanss/jt808-server-go/zzverif/scn"
)

// Opt configures a server process.
type Opt struct {
	Bin      string
	Dir      string // scratch directory of this process
	Level    string
	Console  bool
	File     bool
	JSON     bool
	Race     bool
	Yield    int
	Banner   bool
	Timeout  time.Duration
	Host     string // address the platform is reached at
	Split    bool   // standard output goes to its own file
	LogDir   string // below Dir
	LogFile  string
	MaxSize  int
	Backups  int
	MaxAge   int
	ExtraEnv []string
}

// Srv is a running server.
type Srv struct {
	O        Opt
	TCP      int
	HTTPPort int
	cmd      *exec.Cmd
	exited   chan struct{}
	exitErr  error
	client   *http.Client
	stopping atomic.Bool
	nextIP   atomic.Uint32
	stderr   string
}

// FreePort asks the kernel for an unused port.
func FreePort() int {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		scn.Harness("no free port: %v", err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// Start launches the server and waits until both ports are served.
func Start(o Opt) (*Srv, error) {
	var last error
	for try := 0; try < 4; try++ {
		s, err := start(o, try)
		if err == nil {
			return s, nil
		}
		last = err
		if errors.Is(err, ErrCrashed) {
			continue
		}
	}
	return nil, last
}

// ErrCrashed: the process ended while starting.
var ErrCrashed = errors.New("server process ended while starting")

func start(o Opt, try int) (*Srv, error) {
	s := &Srv{O: o, TCP: FreePort(), exited: make(chan struct{})}
	for s.HTTPPort == 0 || s.HTTPPort == s.TCP {
		s.HTTPPort = FreePort()
	}
	if s.O.Timeout == 0 {
		s.O.Timeout = 30 * time.Second
	}
	if s.O.Level == "" {
		s.O.Level = "ERROR"
	}
	if o.LogFile == "" {
		o.LogFile = "server.log"
	}
	if o.LogDir == "" {
		o.LogDir, o.MaxSize, o.Backups, o.MaxAge = "logs", 50, 2, 7
	}
	if err := os.MkdirAll(o.Dir, 0o755); err != nil {
		return nil, err
	}
	cfg := fmt.Sprintf(`log:
  consoleEnable: %v
  fileEnable: %v
  printAsJson: %v
  logLevel: "%s"
  logDirectory: "%s"
  logFile: %q
  maxSizeOfRolling: %d
  maxBackupsOfRolling: %d
  maxAgeOfRolling: %d
server:
  name: "verif"
  port:
    tcpPort: "%d"
    udpPort: "%d"
    httpPort: "%d"
  banner:
    enable: %v
    bannerPath: "none"
`, o.Console, o.File, o.JSON, s.O.Level, filepath.Join(o.Dir, o.LogDir), o.LogFile, o.MaxSize, o.Backups, o.MaxAge, s.TCP, FreePort(), s.HTTPPort, o.Banner)
	cf := filepath.Join(o.Dir, "config.yaml")
	if err := os.WriteFile(cf, []byte(cfg), 0o644); err != nil {
		return nil, err
	}
	s.stderr = filepath.Join(o.Dir, fmt.Sprintf("stderr.%d", try))
	ef, err := os.Create(s.stderr)
	if err != nil {
		return nil, err
	}
	s.cmd = exec.Command(o.Bin, "-c", cf)
	s.cmd.Dir = o.Dir
	s.cmd.Stdout = ef
	if o.Split {
		of, err := os.Create(filepath.Join(o.Dir, fmt.Sprintf("stdout.%d", try)))
		if err != nil {
			return nil, err
		}
		defer of.Close()
		s.cmd.Stdout = of
	}
	s.cmd.Stderr = ef
	s.cmd.Env = append(os.Environ(), "TZ=UTC", "GOTRACEBACK=all", "VERIF_YIELD="+strconv.Itoa(o.Yield),
		"GORACE=halt_on_error=0 log_path="+filepath.Join(o.Dir, "race"))
	s.cmd.Env = append(s.cmd.Env, o.ExtraEnv...)
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	ef.Close()
	go func() {
		s.exitErr = s.cmd.Wait()
		close(s.exited)
	}()
	s.client = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 256, DisableCompression: true}, Timeout: s.O.Timeout}
	deadline := time.Now().Add(60 * time.Second)
	okT, okH := false, false
	for time.Now().Before(deadline) {
		select {
		case <-s.exited:
			return nil, fmt.Errorf("%w: %v: %s", ErrCrashed, s.exitErr, s.Tail())
		default:
		}
		if !okT {
			if c, err := net.DialTimeout("tcp", s.addr(s.TCP), time.Second); err == nil {
				c.Close()
				okT = true
			}
		}
		if !okH {
			if r, err := s.client.Get(s.url("/device")); err == nil {
				io.Copy(io.Discard, r.Body)
				r.Body.Close()
				okH = r.StatusCode == 200
			}
		}
		if okT && okH {
			return s, nil
		}
		time.Sleep(20 * time.Millisecond)
	}
	s.Stop()
	return nil, fmt.Errorf("configured ports not served (tcp %v http %v): %s", okT, okH, s.Tail())
}

func (s *Srv) addr(port int) string {
	h := s.O.Host
	if h == "" {
		h = "127.0.0.1"
	}
	return fmt.Sprintf("%s:%d", h, port)
}

func (s *Srv) url(p string) string { return "http://" + s.addr(s.HTTPPort) + p }

// Pid of the server.
func (s *Srv) Pid() int { return s.cmd.Process.Pid }

// Tail is the end of the process output.
func (s *Srv) Tail() string {
	b, _ := os.ReadFile(s.stderr)
	// prefer the crash message
	for _, k := range []string{"panic:", "fatal error:"} {
		if i := bytes.LastIndex(b, []byte(k)); i >= 0 && bytes.Contains(b[i:], []byte("goroutine ")) {
			e := i + 3000
			if e > len(b) {
				e = len(b)
			}
			return string(b[i:e])
		}
	}
	if len(b) > 2000 {
		b = b[len(b)-2000:]
	}
	return string(b)
}

// Stop kills the server.
func (s *Srv) Stop() {
	s.stopping.Store(true)
	s.cmd.Process.Kill()
	<-s.exited
}

// StopGraceful ends a race-instrumented process. Reports are written when they
// occur, so killing loses nothing.
func (s *Srv) Races() []string {
	fs, _ := filepath.Glob(filepath.Join(s.O.Dir, "race.*"))
	var out []string
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "WARNING: DATA RACE") {
				out = append(out, blk)
			}
		}
	}
	return out
}

func (s *Srv) Name() string                { return "S" }
func (s *Srv) ReplyTimeout() time.Duration { return s.O.Timeout }

// Check reports the death of the process.
func (s *Srv) Check() error {
	select {
	case <-s.exited:
		if s.stopping.Load() {
			return nil
		}
		return fmt.Errorf("server process ended: %v\n%s", s.exitErr, s.Tail())
	default:
		return nil
	}
}

type link struct {
	*net.TCPConn
}

func (l *link) Reset() {
	l.SetLinger(0)
	l.TCPConn.Close()
}
func (l *link) ID() string { return l.LocalAddr().String() }

// Dial connects; Addr selects the local address.
func (s *Srv) Dial(o scn.DialOpt) (scn.Link, error) {
	d := net.Dialer{Timeout: s.O.Timeout}
	if o.Addr != "" {
		a, err := net.ResolveTCPAddr("tcp", o.Addr)
		if err != nil {
			return nil, err
		}
		d.LocalAddr = a
	} else {
		// spread over loopback addresses so ephemeral ports never run out
		k := s.nextIP.Add(1)
		d.LocalAddr = &net.TCPAddr{IP: net.IPv4(127, 0, byte(1+k/200%200), byte(1+k%200))}
	}
	d.Control = func(_, _ string, rc syscall.RawConn) error {
		return rc.Control(func(fd uintptr) {
			syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
			if o.SmallBuf {
				syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 2048)
			}
		})
	}
	c, err := d.Dial("tcp", s.addr(s.TCP))
	if err != nil {
		return nil, err
	}
	return &link{c.(*net.TCPConn)}, nil
}

// DialHTTP opens a raw connection to the HTTP port.
func (s *Srv) DialHTTP() (net.Conn, error) {
	return net.DialTimeout("tcp", s.addr(s.HTTPPort), 10*time.Second)
}

// Stderr is the file that receives standard error.
func (s *Srv) Stderr() string { return s.stderr }

// FDs counts the open descriptors of the server.
func (s *Srv) FDs() (int, error) {
	s.client.CloseIdleConnections()
	e, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", s.Pid()))
	return len(e), err
}

// RSS is the resident memory of the server.
func (s *Srv) RSS() (int64, error) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", s.Pid()))
	if err != nil {
		return 0, err
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0, fmt.Errorf("statm: %q", b)
	}
	n, err := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize()), err
}

var gcLine = regexp.MustCompile(`(?m)^gc \d+ @.* \d+->\d+->(\d+) MB,`)

// LiveHeaps are the live heap sizes (MB) found by the garbage collections so far; needs GODEBUG=gctrace=1.
func (s *Srv) LiveHeaps() (out []int) {
	b, _ := os.ReadFile(s.stderr)
	for _, m := range gcLine.FindAllSubmatch(b, -1) {
		n, _ := strconv.Atoi(string(m[1]))
		out = append(out, n)
	}
	return
}

// Goroutines ends the server and counts the goroutines it had.
func (s *Srv) Goroutines() (int, string, error) {
	s.client.CloseIdleConnections()
	time.Sleep(2 * time.Second)
	if err := s.Check(); err != nil {
		return 0, "", err
	}
	before, _ := os.ReadFile(s.stderr)
	s.stopping.Store(true)
	if err := s.cmd.Process.Signal(syscall.SIGQUIT); err != nil {
		return 0, "", err
	}
	select {
	case <-s.exited:
	case <-time.After(60 * time.Second):
		return 0, "", errors.New("no goroutine dump within 60 s")
	}
	b, err := os.ReadFile(s.stderr)
	if err != nil {
		return 0, "", err
	}
	d := string(b[min(len(before), len(b)):])
	return strings.Count("\n"+d, "\ngoroutine ") - strings.Count("\n"+d, "\ngoroutine 0 "), d, nil
}

// HTTP performs one request.
func (s *Srv) HTTP(method, path string, body []byte) (int, []byte, error) {
	return s.HTTPClient(s.client, method, path, body)
}

// HTTPClient performs one request with a given client.
func (s *Srv) HTTPClient(cl *http.Client, method, path string, body []byte) (int, []byte, error) {
	method, typ, _ := strings.Cut(method, " ") // "PUT text/plain": with this content type, "PUT -": with none
	req, err := http.NewRequest(method, s.url(path), bytes.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	if typ == "" && body != nil {
		typ = "application/json"
	}
	if typ != "" && typ != "-" {
		req.Header.Set("Content-Type", typ)
	}
	r, err := cl.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return r.StatusCode, b, err
}

// Devices is GET /device.
func (s *Srv) Devices() ([]scn.Device, error) {
	st, b, err := s.HTTP("GET", "/device", nil)
	if err != nil {
		return nil, err
	}
	if st != 200 {
		return nil, fmt.Errorf("GET /device: status %d %s", st, b)
	}
	var out []scn.Device
	if err := json.Unmarshal(b, &out); err != nil {
		return nil, fmt.Errorf("GET /device: %v: %.300s", err, b)
	}
	return out, nil
}

// Geo is GET /device/:phone/geo.
func (s *Srv) Geo(phone string) (*scn.Geo, error) {
	st, b, err := s.HTTP("GET", "/device/"+phone+"/geo", nil)
	if err != nil {
		return nil, err
	}
	if st >= 400 && st < 500 {
		return nil, nil
	}
	if st != 200 {
		return nil, fmt.Errorf("GET geo: status %d %s", st, b)
	}
	var v struct {
		Gis *scn.Geo `json:"gis"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, fmt.Errorf("GET geo: %v: %.300s", err, b)
	}
	return v.Gis, nil
}

var _ scn.Env = (*Srv)(nil)
var _ sync.Locker = (*sync.Mutex)(nil)

// LimitFiles lowers the number of descriptors the server may hold.
func (s *Srv) LimitFiles(n int) error {
	l := struct{ cur, max uint64 }{uint64(n), 1 << 16}
	var old struct{ cur, max uint64 }
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(s.Pid()), syscall.RLIMIT_NOFILE, 0, uintptr(unsafe.Pointer(&old)), 0, 0); e != 0 {
		return e
	}
	l.max = old.max
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(s.Pid()), syscall.RLIMIT_NOFILE, uintptr(unsafe.Pointer(&l)), 0, 0, 0); e != 0 {
		return e
	}
	return nil
}
