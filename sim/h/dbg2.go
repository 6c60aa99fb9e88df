package h

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"

	"velsim/simrt"
)

// FirstUse looks for state that is initialised on first use and changes the
// decisions of the run that does so: every such state belongs in Warm. It
// runs every scenario twice.
func FirstUse(prop string, seed uint64, count int) int {
	bad := 0
	for i := 0; i < count; i++ {
		p := props[prop]
		sc := genScenario(p, mixSeed(seed, strSeed(prop), uint64(i)), false)
		if sc == nil {
			continue
		}
		c := genConf(NewRand(uint64(i)), kinds[sc.Kind], sc, 0)
		var rs [2]*Run
		var logs [2][]simrt.LogEntry
		for t := range rs {
			logs[t] = make([]simrt.LogEntry, 1<<14)
			cc := c
			if os.Getenv("STOP_SC") == fmt.Sprint(i) && os.Getenv("STOP_T") == fmt.Sprint(t) {
				n, _ := strconv.Atoi(os.Getenv("STOP_AT"))
				cc.StopAt = uint64(n)
			}
			rs[t], _ = execute(sc, cc, false, nil, logs[t], false)
		}
		if rs[0] == nil || rs[1] == nil || rs[0].Stats.Hash == rs[1].Stats.Hash {
			continue
		}
		bad++
		fmt.Fprintln(os.Stderr, "DIFFERS", prop, i, strings.ReplaceAll(sc.Text(), "\n", " | "))
		line := func(e simrt.LogEntry) string {
			f, _ := runtime.CallersFrames([]uintptr{uintptr(e.PC)}).Next()
			return fmt.Sprintf("#%d g%d %s %d/%d %s:%d", e.Idx, e.Actor, simrt.KindNames[e.Kind], e.Choice, e.N, filepath.Base(f.File), f.Line)
		}
		for k := range logs[0] {
			if logs[0][k] != logs[1][k] {
				for j := max(0, k-2); j < k+3; j++ {
					fmt.Fprintln(os.Stderr, "   ", line(logs[0][j]), " || ", line(logs[1][j]))
				}
				break
			}
		}
	}
	return bad
}

// Programs prints the programs of the first scenarios of a seed.
func Programs(prop string, seed uint64, count int) {
	for i := 0; i < count; i++ {
		if sc := genScenario(props[prop], mixSeed(seed, strSeed(prop), uint64(i)), false); sc != nil {
			fmt.Println(sc.Kind, sc.P, sc.Text())
		}
	}
}
