package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/nyaosorg/go-readline-ny"
const harnessPkg = modPath + "/internal/verifharness"

type HarnessSpec struct {
	Property string              `json:"property"`
	Func     string              `json:"func"`
	Env      map[string]string   `json:"env"`
	Envs     []map[string]string `json:"envs"` // run once per environment
	Params   map[string]int      `json:"params"`
	TParams  map[string]int      `json:"thorough_params"` // override params
	Reach    []string            `json:"reach"`
	What     string              `json:"what"`
	Bounds   map[string]string   `json:"bounds"` // tier -> text
	MaxSteps int64               `json:"max_steps"`
	Skip     map[string]bool     `json:"skip"` // tier -> not run
}

type Suite struct {
	Harnesses   []*HarnessSpec      `json:"harnesses"`
	Assumptions map[string][]string `json:"assumptions"`
}

// workspace is the generated build configuration of one run (in a temp dir).
type workspace struct {
	dir, repo, verif string
	overlay          map[string]string // target -> source file
}

func shortPath(p string) string {
	for _, pre := range []string{"/repo/", "/usr/local/go/src/", "/root/go/pkg/mod/"} {
		if strings.HasPrefix(p, pre) {
			return p[len(pre):]
		}
	}
	return p
}

func newWorkspace(repo, verif string) (*workspace, error) {
	dir, err := os.MkdirTemp("", "verif-")
	if err != nil {
		return nil, err
	}
	ws := &workspace{dir: dir, repo: repo, verif: verif, overlay: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(verif, "harness", "*.go"))
	for _, f := range files {
		ws.overlay[filepath.Join(repo, "internal", "verifharness", filepath.Base(f))] = f
	}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	txt := string(mod)
	stubs, _ := filepath.Glob(filepath.Join(verif, "harness", "stubs", "*", "go.mod"))
	for _, s := range stubs {
		b, err := os.ReadFile(s)
		if err != nil {
			return nil, err
		}
		name := strings.Fields(strings.SplitN(string(b), "\n", 2)[0])[1]
		if strings.Contains(txt, name+" ") {
			txt += fmt.Sprintf("\nreplace %s => %s\n", name, filepath.Dir(s))
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(txt), 0o644); err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	ov, _ := json.Marshal(map[string]any{"Replace": ws.overlay})
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), ov, 0o644); err != nil {
		return nil, err
	}
	return ws, nil
}

func (ws *workspace) close() { os.RemoveAll(ws.dir) }

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOTOOLCHAIN", "CGO_ENABLED", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOSUMDB=off")
}

func (ws *workspace) buildNative() (string, error) {
	out := filepath.Join(ws.dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", filepath.Join(ws.dir, "overlay.json"), "-modfile", filepath.Join(ws.dir, "go.mod"), "-o", out, "./internal/verifharness")
	cmd.Dir = ws.repo
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the harness: %v\n%s", err, b)
	}
	return out, nil
}

func (ws *workspace) load() (*Program, *ssa.Package, error) {
	ov := map[string][]byte{}
	for to, from := range ws.overlay {
		b, err := os.ReadFile(from)
		if err != nil {
			return nil, nil, err
		}
		ov[to] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        ws.repo,
		Env:        goEnv(),
		Overlay:    ov,
		BuildFlags: []string{"-modfile=" + filepath.Join(ws.dir, "go.mod")},
	}
	pkgs, err := packages.Load(cfg, "./internal/verifharness")
	if err != nil {
		return nil, nil, err
	}
	if len(pkgs) != 1 {
		return nil, nil, fmt.Errorf("loaded %d packages", len(pkgs))
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(pkgs[0].Errors) > 0 {
		return nil, nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, fns: map[*ssa.Function]*Fn{}, globIdx: map[*ssa.Global]int{}, redirect: map[string]*ssa.Function{}, pureTab: map[*Fn]int{}}
	P.initOK = initOK
	hp := spkgs[0]
	if hp == nil {
		return nil, nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	for name, target := range redirects {
		f := hp.Func(target)
		if f == nil {
			return nil, nil, fmt.Errorf("model %s missing in the harness", target)
		}
		P.redirect[name] = f
	}
	return P, hp, nil
}

var redirects = map[string]string{
	"fmt.Fprintf":  "mFprintf",
	"fmt.Fprintln": "mFprintln",
	"fmt.Fprint":   "mFprint",
	"fmt.Sprintf":  "mSprintf",
	"fmt.Sprint":   "mSprint",
	"fmt.Errorf":   "mErrorf",
	"fmt.Sprintln": "mSprintln",
	"fmt.Append":   "mAppend",
	"fmt.Appendf":  "mAppendf",
	"fmt.Appendln": "mAppendln",
	"errors.Is":    "mErrorsIs",
	"errors.As":    "mErrorsAs",

	"strings.Compare":        "mStringsCompare",
	"bytes.Compare":          "mBytesCompare",
	"strconv.AppendInt":      "mAppendInt",
	"strconv.AppendUint":     "mAppendUint",
	"sort.Slice":             "mSortSlice",
	"sort.SliceStable":       "mSortSlice",
	"sort.SliceIsSorted":     "mSliceIsSorted",
	"(*sync.Pool).Get":       "mPoolGet",
	"(*sync.Pool).Put":       "mPoolPut",
	"(*sync.Cond).Wait":      "mCondWait",
	"(*sync.Cond).Signal":    "mCondSignal",
	"(*sync.Cond).Broadcast": "mCondSignal",
	"(*sync.WaitGroup).Go":   "mWaitGroupGo",
	"time.Sleep":             "mSleep",

	"os.ReadDir":          "mReadDir",
	"(*os.File).Read":     "mFileRead",
	"(*os.File).Fd":       "mFileFd",
	"time.NewTicker":      "mNewTicker",
	"(*time.Ticker).Stop": "mTickerStop",
}

var initPkgs = map[string]bool{
	"io": true, "bufio": true, "strings": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"bytes": true, "math/bits": true, "strconv": true, "internal/strconv": true, "container/list": true, "context": true, "sort": true, "slices": true, "path/filepath": true, "internal/filepathlite": true,
	"io/fs": true, "internal/oserror": true, "path": true, "cmp": true, "iter": true, "maps": true, "internal/stringslite": true, "internal/bytealg": false,
	"github.com/mattn/go-runewidth": true,
	"github.com/atotto/clipboard":   true,
	"golang.org/x/term":             true,
	"github.com/mattn/go-tty":       true,
	"github.com/nyaosorg/go-box/v2": true,
}

func initOK(path string) bool {
	if strings.HasPrefix(path, modPath) {
		return true
	}
	return initPkgs[path]
}
