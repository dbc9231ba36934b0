//go:build go1.22

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"SIMMODULE/simrt"
)

// In the build watched by the race detector, a simulated execution in which two
// threads touch the same memory of the library with nothing ordering them is a
// violation, whatever the schedule made of it. The scheduler's own hand-overs do
// not count as order (see simrt/race.go); what the harness does to its own
// memory does not count as a race.

const raceLogEnv = "SIM_RACE_LOG"

// watchRaces restarts the process with the detector's reports going to a file.
func watchRaces() (done func()) {
	if !simrt.RaceOn {
		return func() {}
	}
	if os.Getenv(raceLogEnv) == "" {
		d, err := os.MkdirTemp("", "simrace")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		log := filepath.Join(d, "log")
		env := append(os.Environ(), raceLogEnv+"="+log,
			"GORACE=log_path="+log+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0")
		exe, err := os.Executable()
		if err == nil {
			err = syscall.Exec(exe, os.Args, env)
		}
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return func() { os.RemoveAll(filepath.Dir(os.Getenv(raceLogEnv))) }
}

// raceLog is the open log of the detector, read as it grows.
var raceLog struct {
	f    *os.File
	seen int
}

// newRaces returns the reports since the last call.
func newRaces() []string {
	if !simrt.RaceOn || simrt.RaceErrors() == raceLog.seen {
		return nil
	}
	raceLog.seen = simrt.RaceErrors()
	if raceLog.f == nil {
		log := os.Getenv(raceLogEnv)
		f, err := os.Open(fmt.Sprintf("%s.%d", log, os.Getpid()))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		raceLog.f = f
	}
	var sb strings.Builder
	buf := make([]byte, 1<<16)
	for {
		n, err := raceLog.f.Read(buf)
		sb.Write(buf[:n])
		if n == 0 || err != nil {
			break
		}
	}
	return strings.Split(sb.String(), "==================\n")
}

// libraryRace decides whether a report is about two accesses by the library,
// and names them.
func libraryRace(rep string) (fns []string, text string) {
	if !strings.Contains(rep, "WARNING: DATA RACE") {
		return nil, ""
	}
	var lines []string
	for _, sec := range strings.Split(rep, "\n\n") {
		ls := strings.Split(strings.TrimRight(sec, "\n"), "\n")
		for len(ls) > 0 && (ls[0] == "" || strings.HasPrefix(ls[0], "WARNING")) {
			ls = ls[1:]
		}
		if len(ls) == 0 {
			continue
		}
		h := ls[0]
		lo := strings.ToLower(h)
		if !strings.Contains(lo, "read at") && !strings.Contains(lo, "write at") {
			break // where the goroutines were created
		}
		for i := 1; i+1 < len(ls); i += 2 {
			fn, file := strings.TrimSpace(ls[i]), strings.TrimSpace(ls[i+1])
			if j := strings.IndexByte(file, ' '); j >= 0 {
				file = file[:j]
			}
			if !strings.Contains(file, raceRoot) {
				continue // the standard library, on behalf of its caller
			}
			if strings.Contains(file, "/simrt/") || strings.Contains(file, "/simharness/") {
				return nil, ""
			}
			if j := strings.LastIndex(fn, "("); j >= 0 && strings.HasSuffix(fn, ")") {
				fn = fn[:j]
			}
			if j := strings.LastIndex(fn, "/"); j >= 0 {
				fn = fn[j+1:]
			}
			if j := strings.Index(fn, "["); j >= 0 {
				if k := strings.LastIndex(fn, "]"); k > j {
					fn = fn[:j] + fn[k+1:]
				}
			}
			fns = append(fns, fn)
			lines = append(lines, fmt.Sprintf("%s in %s (%s)", strings.Fields(h)[0]+" "+strings.Fields(h)[1], fn, file[strings.Index(file, raceRoot)+len(raceRoot):]))
			break
		}
	}
	if len(fns) != 2 {
		return nil, ""
	}
	sort.Strings(fns)
	return fns, strings.Join(lines, "; ")
}

// raceRoot is the part of a path that marks the copy under test.
const raceRoot = "/src1/"

// judgeRaces fails the run for a race inside the library.
func (c *Ctx) judgeRaces(name string) {
	for _, rep := range newRaces() {
		fns, text := libraryRace(rep)
		if fns == nil || !raceProps[c.Prop] {
			continue
		}
		c.Failf("data-race:"+strings.Join(fns, "+"), "%s: threads that share nothing by contract race on memory: %s", name, text)
	}
}

// raceProps are the properties that promise the absence of races: those about
// threads which each use their own copy, and about the workers inside a call.
var raceProps = map[string]bool{
	"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true,
	"K01": true, "K02": true,
}
