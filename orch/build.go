package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type layout struct {
	verif, repo, build, goroot string
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GOOS", "GOARCH", "CGO_ENABLED", "GOEXPERIMENT", "GODEBUG", "GOMAXPROCS", "GOGC", "GOMEMLIMIT":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
}

func newLayout() (*layout, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	l := &layout{}
	l.verif = os.Getenv("VERIF_DIR")
	if l.verif == "" {
		l.verif = filepath.Dir(filepath.Dir(exe)) // <verif>/.build/orch
	}
	l.repo = os.Getenv("REPO")
	if l.repo == "" {
		l.repo = "/repo"
	}
	if l.repo, err = filepath.Abs(l.repo); err != nil {
		return nil, err
	}
	l.build = filepath.Join(l.verif, ".build")
	if l.repo != "/repo" {
		h := sha256.Sum256([]byte(l.repo))
		l.build = filepath.Join(l.verif, ".build", "alt-"+hex.EncodeToString(h[:4]))
	}
	c := exec.Command("go", "env", "GOROOT")
	c.Env = goEnv()
	out, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("go env GOROOT: %v", err)
	}
	l.goroot = strings.TrimSpace(string(out))
	return l, nil
}

// buildWorker builds the simulator binary from the repository's working tree.
func (l *layout) buildWorker(race bool) (string, []siteInfo, time.Duration, error) {
	t0 := time.Now()
	ov, sites, err := makeOverlay(l.goroot, l.repo, l.verif, l.build, race)
	if err != nil {
		return "", nil, 0, err
	}
	// module file: the simulator's own requirements plus the repository's
	c := exec.Command("go", "mod", "edit", "-json")
	c.Dir = l.repo
	c.Env = goEnv()
	out, err := c.Output()
	if err != nil {
		return "", nil, 0, fmt.Errorf("go mod edit -json: %v", err)
	}
	var gm struct {
		Require []struct {
			Path, Version string
			Indirect      bool
		}
	}
	if err := json.Unmarshal(out, &gm); err != nil {
		return "", nil, 0, err
	}
	var mod bytes.Buffer
	fmt.Fprintf(&mod, "module verif/sim\n\ngo 1.27\n\nrequire github.com/tg123/phabrik v0.0.0\n\nreplace github.com/tg123/phabrik => %s\n", l.repo)
	for _, r := range gm.Require {
		fmt.Fprintf(&mod, "\nrequire %s %s // indirect\n", r.Path, r.Version)
	}
	if err := writeFile(filepath.Join(l.build, "sim.mod"), mod.Bytes()); err != nil {
		return "", nil, 0, err
	}
	sum, err := os.ReadFile(filepath.Join(l.repo, "go.sum"))
	if err != nil {
		return "", nil, 0, err
	}
	if err := os.WriteFile(filepath.Join(l.build, "sim.sum"), sum, 0o644); err != nil {
		return "", nil, 0, err
	}
	bin := filepath.Join(l.build, "worker")
	args := []string{"build", "-overlay", ov, "-modfile", filepath.Join(l.build, "sim.mod"), "-ldflags=-checklinkname=0", "-o", bin}
	if race {
		bin += "-race"
		args[len(args)-1] = bin
		// Everything but the harness is instrumented; without inlining it defines
		// no copies of generic library functions, which would take the place of
		// instrumented ones.
		args = append(args, "-race", "-gcflags=verif/sim=-race=false -l", "-gcflags=fmt=-race=false")
	}
	args = append(args, ".")
	b := exec.Command("go", args...)
	b.Dir = filepath.Join(l.verif, "sim")
	b.Env = goEnv()
	if race {
		// a specialised malloc, called from code that is not instrumented, would not clear shadow memory
		b.Env = append(b.Env, "CGO_ENABLED=1", "GOEXPERIMENT=nosizespecializedmalloc")
	}
	var eb bytes.Buffer
	b.Stdout, b.Stderr = &eb, &eb
	if err := b.Run(); err != nil {
		return "", nil, 0, fmt.Errorf("building the simulator failed: %v\n%s", err, eb.String())
	}
	return bin, sites, time.Since(t0), nil
}
