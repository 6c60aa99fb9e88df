//go:build race

package h

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"syscall"
)

var raceSeen, raceCounted, raceOff = 0, 0, 0

func raceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			return fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	return ""
}

// RaceEnv restarts the process with the options the detector needs.
func RaceEnv() {
	if raceLog() == "" {
		os.Setenv("GORACE", "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+os.TempDir()+"/velsim-race")
		if self, err := os.Executable(); err == nil {
			syscall.Exec(self, os.Args, os.Environ())
		}
	}
}

// raceErrors: the number of races reported so far between accesses of the
// library. What the harness itself shares between its clients does not count.
func raceErrors() int {
	n := runtime.RaceErrors()
	if n == raceSeen {
		return raceCounted
	}
	b, err := os.ReadFile(raceLog())
	if err != nil || len(b) < raceOff {
		raceCounted += n - raceSeen
		raceSeen = n
		return raceCounted
	}
	text := string(b[raceOff:])
	raceOff = len(b)
	raceSeen = n
	for _, rep := range strings.Split(text, "WARNING: DATA RACE")[1:] {
		ours := false
		for _, block := range strings.Split(rep, "\n\n") {
			block = strings.TrimLeft(block, "\n= ")
			head, rest, _ := strings.Cut(block, "\n")
			if !strings.Contains(head, " at 0x") {
				continue
			}
			// the innermost frame outside the runtime and standard library
			lib := false
			for _, l := range strings.Split(rest, "\n") {
				if !strings.HasPrefix(l, "  ") || strings.HasPrefix(l, "   ") {
					continue
				}
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "velsim/") {
					break
				}
				if strings.HasPrefix(l, "www.velocidex.com/") || strings.HasPrefix(l, "github.com/") {
					lib = true
					break
				}
			}
			ours = ours || !lib
		}
		if ours {
			raceHarness++
			continue
		}
		raceCounted++
	}
	return raceCounted
}

var raceHarness int
