// Package build compiles the platform, from the working tree, with and without
// instrumentation.
package build

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Repo is the tree under test (VERIF_REPO is for development only).
var Repo = func() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}()

var yieldDirs = []string{
	"internal/server", "internal/protocol", "internal/protocol/model", "internal/storage",
	"internal/api", "internal/client", "pkg/container", "pkg/routines",
}

const yieldSrc = `package %s

import (
	zzrand "math/rand/v2"
	zzos "os"
	zzruntime "runtime"
	zzstrconv "strconv"
	zzsyscall "syscall"
)

var zzMode = func() uint64 { n, _ := zzstrconv.ParseUint(zzos.Getenv("VERIF_YIELD"), 10, 32); return n }()

func zzYield() {
	if zzMode == 0 {
		return
	}
	r := zzrand.Uint64()
	if r%%zzMode != 0 {
		return
	}
	if r>>60 < 12 {
		zzruntime.Gosched()
		return
	}
	ts := zzsyscall.Timespec{Nsec: int64(r>>20)%%150000 + 5000}
	zzsyscall.Nanosleep(&ts, nil)
}
`

// Instrument writes copies of the sources with yield points and returns an overlay file.
func Instrument(scratch string) (string, int, error) {
	repl := map[string]string{}
	points := 0
	for _, d := range yieldDirs {
		dir := filepath.Join(Repo, d)
		ents, err := os.ReadDir(dir)
		if err != nil {
			continue // the directory may have been moved by a refactoring
		}
		pkg := ""
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(dir, n)
			src, err := os.ReadFile(p)
			if err != nil {
				return "", 0, err
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, src, parser.SkipObjectResolution)
			if err != nil {
				return "", 0, err
			}
			pkg = f.Name.Name
			var offs []int
			add := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					offs = append(offs, fset.Position(s.Pos()).Offset)
				}
			}
			// only function bodies
			ast.Inspect(f, func(x ast.Node) bool {
				switch b := x.(type) {
				case *ast.BlockStmt:
					// the clause list of switch/select holds clauses, not statements
					if len(b.List) > 0 {
						switch b.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					add(b.List)
				case *ast.CaseClause:
					add(b.Body)
				case *ast.CommClause:
					add(b.Body)
				}
				return true
			})
			sort.Ints(offs)
			var out []byte
			last := 0
			for _, o := range offs {
				out = append(out, src[last:o]...)
				out = append(out, "zzYield(); "...)
				last = o
			}
			out = append(out, src[last:]...)
			points += len(offs)
			q := filepath.Join(scratch, "yield", d, n)
			if err := os.MkdirAll(filepath.Dir(q), 0o755); err != nil {
				return "", 0, err
			}
			if err := os.WriteFile(q, out, 0o644); err != nil {
				return "", 0, err
			}
			repl[p] = q
		}
		if pkg == "" {
			continue
		}
		q := filepath.Join(scratch, "yield", d, "zz_verif_yield.go")
		if err := os.WriteFile(q, []byte(fmt.Sprintf(yieldSrc, pkg)), 0o644); err != nil {
			return "", 0, err
		}
		repl[filepath.Join(dir, "zz_verif_yield.go")] = q
	}
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(scratch, "overlay.json")
	return ov, points, os.WriteFile(ov, b, 0o644)
}

// Env is the go environment of every build.
func Env() []string {
	e := os.Environ()
	return append(e, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1")
}

// Go runs the go command in dir.
func Go(dir string, args ...string) error {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = Env()
	out, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	return nil
}

// Builder caches the artefacts of one check.
type Builder struct {
	Scratch string
	Harness string // directory of the harness module
	ov      string
	Points  int
}

// overlay returns the yield overlay, falling back to none when it does not compile.
func (b *Builder) overlay() string {
	if b.ov == "" {
		ov, n, err := Instrument(b.Scratch)
		if err != nil {
			fmt.Fprintln(os.Stderr, "yield instrumentation unavailable:", err)
			ov = "-"
		}
		b.ov, b.Points = ov, n
	}
	return b.ov
}

func (b *Builder) build(dir string, race bool, args ...string) error {
	pre := []string{args[0]}
	if race {
		pre = append(pre, "-race")
	}
	rest := args[1:]
	if ov := b.overlay(); ov != "-" {
		err := Go(dir, append(append(append([]string{}, pre...), "-overlay", ov), rest...)...)
		if err == nil {
			return nil
		}
		fmt.Fprintln(os.Stderr, "build with yield points failed, building plain:", err)
		b.ov, b.Points = "-", 0
	}
	return Go(dir, append(pre, rest...)...)
}

// Server builds the platform binary.
func (b *Builder) Server(race bool) (string, error) {
	out := filepath.Join(b.Scratch, name("server", race))
	return out, b.build(Repo, race, "build", "-mod=readonly", "-o", out, ".")
}

// Client builds the terminal simulator.
func (b *Builder) Client(race bool) (string, error) {
	out := filepath.Join(b.Scratch, name("client", race))
	return out, b.build(Repo, race, "build", "-mod=readonly", "-o", out, "./test/client")
}

// VDrv builds the virtual-time driver.
func (b *Builder) VDrv(race bool) (string, error) { return b.drv("vdrv", race) }

// MDrv builds the driver of the model packages.
func (b *Builder) MDrv(race bool) (string, error) { return b.drv("mdrv", race) }

func (b *Builder) drv(pkg string, race bool) (string, error) {
	mf := filepath.Join(b.Scratch, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		c, err := os.ReadFile(filepath.Join(b.Harness, f))
		if err != nil {
			return "", err
		}
		c = []byte(strings.Replace(string(c), "=> /repo", "=> "+Repo, 1))
		if err := os.WriteFile(filepath.Join(b.Scratch, f), c, 0o644); err != nil {
			return "", err
		}
	}
	out := filepath.Join(b.Scratch, name(pkg, race))
	return out, b.build(b.Harness, race, "test", "-c", "-vet=off", "-mod=mod", "-modfile", mf, "-o", out, "./"+pkg)
}

func name(s string, race bool) string {
	if race {
		return s + "-race"
	}
	return s
}
