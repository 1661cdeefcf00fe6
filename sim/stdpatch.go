package main

// Build of the system under test: the real goledger main program from the
// repository's working tree, compiled against a Go standard library whose
// system-call layer, clock, randomness, HTTP transport and listeners are
// redirected to the simulator (by `go build -overlay`; nothing is written
// outside the work directory).

import (
	"bytes"
	"embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

//go:embed patch/*
var patchFS embed.FS

type edit struct{ old, new string }

// mapWriting is where a map is marked as being written: a goroutine may be
// preempted there, and another that uses the map ends the process.
var mapWriting = []edit{{"m.writing ^= 1 // toggle, see comment on writing\n", "m.writing ^= 1 // toggle\n\tif SimMapWrite != nil {\n\t\tSimMapWrite()\n\t}\n"}}

type stdPatch struct {
	file  string
	edits []edit
}

var stdPatches = []stdPatch{
	{"runtime/rand.go", []edit{
		{"seed[i%len(seed)] ^= c\n", "seed[i%len(seed)] ^= c&0 + byte(i*37+11)\n"},
		{"func rand() uint64 {\n", "func rand() uint64 {\n\tif simRandOn {\n\t\treturn simRand()\n\t}\n"},
		{"mp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n", "mp.cheaprand = uint32(bootstrapRand())\n\tmp.cheaprand64 = bootstrapRand()\n"},
	}},
	{"runtime/proc.go", []edit{
		// Goroutines change only where they block: no turn depends on how long something took.
		{"func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif simRandOn {\n\t\treturn false\n\t}\n"},
		{"if pp.schedtick%61 == 0 && !sched.runq.empty() {", "if !simRandOn && pp.schedtick%61 == 0 && !sched.runq.empty() {"},
	}},
	{"internal/runtime/maps/map.go", mapWriting},
	{"internal/runtime/maps/runtime.go", mapWriting},
	{"internal/runtime/maps/runtime_fast32.go", mapWriting},
	{"internal/runtime/maps/runtime_fast64.go", mapWriting},
	{"internal/runtime/maps/runtime_faststr.go", mapWriting},
	{"runtime/time.go", []edit{
		{"\t\t\tt.rand = cheaprand()\n", "\t\t\tt.rand = simSelectRand(1 << 31)\n"},
	}},
	{"runtime/select.go", []edit{
		{"j := cheaprandn(uint32(norder + 1))", "j := simSelectRand(uint32(norder + 1))"},
	}},
	{"syscall/syscall_linux.go", []edit{
		{"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n", "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\tif SimOn {\n\t\tif x, e, ok := simSys(trap, a1, a2, a3, 0, 0, 0); ok {\n\t\t\treturn x, 0, e\n\t\t}\n\t}\n"},
		{"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n", "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif SimOn {\n\t\tif x, e, ok := simSys(trap, a1, a2, a3, a4, a5, a6); ok {\n\t\t\treturn x, 0, e\n\t\t}\n\t}\n"},
	}},
	{"syscall/zsyscall_linux_amd64.go", []edit{
		{"func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n\tif SimOn {\n\t\tn, _ := SimCall(1003, 0, 0, nil)\n\t\treturn int(n)\n\t}\n"},
	}},
	{"time/time.go", []edit{
		{"var startNano int64 = runtimeNano() - 1", "var startNano int64 = simStartNano()"},
		{"func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n", "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n\tif syscall.SimOn {\n\t\tvar w int64\n\t\tw, mono = syscall.SimTime()\n\t\tsec, nsec = w/1000000000, int32(w%1000000000)\n\t\tmono += startNano\n\t}\n"},
		{"import (\n", "import (\n\t\"syscall\"\n"},
	}},
	{"internal/syscall/unix/getrandom.go", []edit{
		{"func GetRandom(p []byte, flags GetRandomFlag) (n int, err error) {\n", "func GetRandom(p []byte, flags GetRandomFlag) (n int, err error) {\n\tif syscall.SimOn {\n\t\tsyscall.SimRandFill(p)\n\t\treturn len(p), nil\n\t}\n"},
	}},
	{"net/http/transport.go", []edit{
		{"func (t *Transport) roundTrip(req *Request) (_ *Response, err error) {\n", "func (t *Transport) roundTrip(req *Request) (_ *Response, err error) {\n\tif syscall.SimOn {\n\t\treturn simRoundTrip(req)\n\t}\n"},
		{"import (\n", "import (\n\t\"syscall\"\n"},
	}},
	{"net/dial.go", []edit{
		{"func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif syscall.SimOn {\n\t\treturn simListen(ctx, network, address)\n\t}\n"},
		{"import (\n", "import (\n\t\"syscall\"\n"},
	}},
	{"os/pipe2_unix.go", []edit{
		{"func Pipe() (r *File, w *File, err error) {\n", "func Pipe() (r *File, w *File, err error) {\n\tif syscall.SimOn {\n\t\treturn simPipe()\n\t}\n"},
	}},
	{"os/exec_posix.go", []edit{
		{"func startProcess(name string, argv []string, attr *ProcAttr) (p *Process, err error) {\n", "func startProcess(name string, argv []string, attr *ProcAttr) (p *Process, err error) {\n\tif syscall.SimOn {\n\t\treturn simStartProcess(name, argv, attr)\n\t}\n"},
	}},
	{"os/exec_unix.go", []edit{
		{"func (p *Process) wait() (ps *ProcessState, err error) {\n", "func (p *Process) wait() (ps *ProcessState, err error) {\n\tif syscall.SimOn {\n\t\treturn simWait(p)\n\t}\n"},
		{"func (p *Process) signal(sig Signal) error {\n", "func (p *Process) signal(sig Signal) error {\n\tif syscall.SimOn {\n\t\treturn simSignal(p, sig)\n\t}\n"},
	}},
	{"sync/mutex.go", []edit{
		{"func (m *Mutex) Unlock() {\n", "func (m *Mutex) Unlock() {\n\tif SimUnlock != nil {\n\t\tdefer SimUnlock()\n\t}\n"},
		{"func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tif SimYield != nil {\n\t\tfor !m.mu.TryLock() {\n\t\t\tSimYield()\n\t\t}\n\t\treturn\n\t}\n"},
	}},
	{"sync/rwmutex.go", []edit{
		{"func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n\tif SimUnlock != nil {\n\t\tdefer SimUnlock()\n\t}\n"},
		{"func (rw *RWMutex) Unlock() {\n", "func (rw *RWMutex) Unlock() {\n\tif SimUnlock != nil {\n\t\tdefer SimUnlock()\n\t}\n"},
		{"func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\tif SimYield != nil {\n\t\tfor !rw.TryRLock() {\n\t\t\tSimYield()\n\t\t}\n\t\treturn\n\t}\n"},
		{"func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n\tif SimYield != nil {\n\t\tfor !rw.TryLock() {\n\t\t\tSimYield()\n\t\t}\n\t\treturn\n\t}\n"},
	}},
}

var stdAdds = map[string]string{
	"internal/runtime/maps/zz_sim.go": "patch/maps_sim.go.txt",
	"runtime/zz_sim.go":               "patch/runtime_sim.go.txt",
	"syscall/zz_sim.go":               "patch/syscall_sim.go.txt",
	"os/zz_sim.go":                    "patch/os_sim.go.txt",
	"net/zz_sim.go":                   "patch/net_sim.go.txt",
	"net/http/zz_sim.go":              "patch/http_sim.go.txt",
	"time/zz_sim.go":                  "patch/time_sim.go.txt",
	"sync/zz_sim.go":                  "patch/sync_sim.go.txt",
}

func goEnv(name string) (string, error) {
	out, err := exec.Command("go", "env", name).Output()
	return strings.TrimSpace(string(out)), err
}

// buildSUT compiles the simulated binary into out. conc selects the variant with
// statement-level scheduling points and the web command.
func buildSUT(repo, work, out string, conc bool) error {
	goroot, err := goEnv("GOROOT")
	if err != nil {
		return fmt.Errorf("go env: %v", err)
	}
	over := map[string]string{}
	variant := "base"
	if conc {
		variant = "conc"
	}
	put := func(target, name string, data []byte) error {
		p := filepath.Join(work, "overlay", name)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		over[target] = p
		if old, err := os.ReadFile(p); err == nil && bytes.Equal(old, data) {
			return nil
		}
		return os.WriteFile(p, data, 0644)
	}
	for _, sp := range stdPatches {
		path := filepath.Join(goroot, "src", sp.file)
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		s := string(b)
		for _, e := range sp.edits {
			i := strings.Index(s, e.old)
			if i < 0 {
				return fmt.Errorf("std patch: anchor not found in %s: %q", sp.file, e.old)
			}
			if strings.Contains(e.new, `"syscall"`) && strings.Contains(s, "\t\"syscall\"\n") {
				continue
			}
			if sp.edits[0] == mapWriting[0] {
				s = strings.ReplaceAll(s, e.old, e.new)
				continue
			}
			s = s[:i] + e.new + s[i+len(e.old):]
		}
		if err := put(path, "std/"+sp.file, []byte(s)); err != nil {
			return err
		}
	}
	for target, src := range stdAdds {
		b, err := patchFS.ReadFile(src)
		if err != nil {
			return err
		}
		if err := put(filepath.Join(goroot, "src", target), "std/"+target, b); err != nil {
			return err
		}
	}

	// The program's own main, renamed, run inside the simulator's bubble.
	mainSrc, err := renameMain(filepath.Join(repo, "main.go"))
	if err != nil {
		return err
	}
	if err := put(filepath.Join(repo, "main.go"), variant+"/main.go", mainSrc); err != nil {
		return err
	}
	simMain := "package main\n\nimport \"os\"\n\nfunc main() { os.SimMain(simRealMain) }\n"
	if coverFile != "" && !conc {
		if err := instrumentCover(repo, put); err != nil {
			return err
		}
	}
	if conc {
		simMain = "package main\n\nimport (\n\t\"os\"\n\t\"github.com/mescanne/goledger/cmd/utils/simyield\"\n)\n\nfunc main() { simyield.Init(); os.SimMain(simRealMain) }\n"
		if err := instrumentConc(repo, put); err != nil {
			return err
		}
	}
	if err := put(filepath.Join(repo, "zz_simmain.go"), variant+"/zz_simmain.go", []byte(simMain)); err != nil {
		return err
	}

	// go.mod/go.sum copies, so that the repository's are left as they are.
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(work, f), b, 0644); err != nil {
			return err
		}
	}
	ov := map[string]map[string]string{"Replace": over}
	j, _ := json.MarshalIndent(ov, "", " ")
	ovName := filepath.Join(work, filepath.Base(out)+".overlay.json")
	if err := os.WriteFile(ovName, j, 0644); err != nil {
		return err
	}
	cmd := exec.Command("go", "build", "-modfile="+filepath.Join(work, "go.mod"), "-overlay="+ovName, "-o", out, ".")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	var eb bytes.Buffer
	cmd.Stderr, cmd.Stdout = &eb, &eb
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("building the simulated binary: %v\n%s", err, eb.String())
	}
	return nil
}

func renameMain(path string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	found := false
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
			fd.Name.Name = "simRealMain"
			found = true
		}
	}
	if !found {
		return nil, fmt.Errorf("no func main in %s", path)
	}
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
