// Command driver builds the simulated system from the current sources and
// searches seeded schedules and fault sequences for property violations.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sync"
)

// variants of the code under test: with and without the assembly routines.
// The third one is watched by the race detector of the Go toolchain, which does
// not see into assembly.
var variants = []struct{ name, tags string }{{"asm", ""}, {"purego", "purego"}, {"race", "purego"}}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: driver build|check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "build":
		fs := flag.NewFlagSet("build", flag.ExitOnError)
		repo := fs.String("repo", "/repo", "")
		verif := fs.String("verif", "/verif", "")
		out := fs.String("out", "", "")
		fs.Parse(os.Args[2:])
		b, err := buildAll(*repo, *verif, *out, true)
		if err != nil {
			fmt.Fprintln(os.Stderr, "driver:", err)
			os.Exit(3)
		}
		for _, v := range b {
			fmt.Println(v.name, v.bin, "level", v.level, v.counts)
		}
	case "check":
		cmdCheck(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

// built is one compiled variant.
type built struct {
	name   string
	bin    string
	level  int
	counts map[string]int
	note   string
}

var moduleRE = regexp.MustCompile(`(?m)^module\s+(\S+)`)

// buildAll instruments and compiles every variant.
func buildAll(repo, verif, out string, race bool) ([]built, error) {
	n := len(variants)
	if !race {
		n--
	}
	res := make([]built, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := range res {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			res[i], errs[i] = buildOne(repo, verif, filepath.Join(out, variants[i].name), variants[i].name, variants[i].tags)
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	return res, nil
}

func buildOne(repo, verif, dir, name, tags string) (built, error) {
	b := built{name: name, bin: filepath.Join(dir, "worker")}
	var firstErr error
	from := 2
	if name == "race" {
		from = 1 // which step of a statement comes first does not matter to it
	}
	for level := from; level >= 1; level-- {
		src := filepath.Join(dir, fmt.Sprintf("src%d", level))
		counts, err := instrument(repo, src, tags, level)
		if err == nil {
			m := moduleRE.FindSubmatch(mustRead(filepath.Join(src, "go.mod")))
			if err = copySim(verif, src, string(m[1])); err == nil {
				args := []string{"build", "-tags=" + tags, "-o", b.bin}
				if name == "race" {
					args = append(args, "-race", "-gcflags="+string(m[1])+"/simrt/...=-race=false -l")
				}
				_, err = run(src, "go", append(args, "./simharness")...)
			}
		}
		if err == nil {
			b.level, b.counts = level, counts
			if firstErr != nil {
				b.note = "full instrumentation did not compile: " + firstErr.Error()
			}
			return b, nil
		}
		if firstErr == nil {
			firstErr = err
		}
	}
	return b, fmt.Errorf("%s: %w", name, firstErr)
}
