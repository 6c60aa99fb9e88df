#!/usr/bin/env python3
"""Generate the Go toolchain overlay: gen.py GOROOT OUTDIR -> OUTDIR/overlay.json

Every edit names the exact text it replaces and how often it must occur, so a
toolchain whose sources differ is refused instead of being patched wrongly."""
import json, os, sys

def main():
    goroot, out = sys.argv[1], os.path.abspath(sys.argv[2])
    here = os.path.dirname(os.path.abspath(__file__))
    os.makedirs(out, exist_ok=True)
    src = os.path.join(goroot, "src")
    files = {}

    def edit(rel, old, new, count=1):
        if rel not in files:
            files[rel] = open(os.path.join(src, rel)).read()
        t = files[rel]
        n = t.count(old)
        if n != count:
            sys.exit("overlay: %s: expected %d occurrence(s) of %r, found %d" % (rel, count, old, n))
        files[rel] = t.replace(old, new)

    R = "runtime/"
    # --- goroutine numbering -------------------------------------------------
    edit(R+"runtime2.go", "	valgrindStackID uintptr\n}\n",
         "	valgrindStackID uintptr\n\n	simid   uint32\n	simprio uint64\n}\n")
    edit(R+"proc.go", "	if isSystemGoroutine(newg, false) {\n		sched.ngsys.Add(1)\n	} else {\n		// Only user goroutines inherit synctest groups and pprof labels.\n		newg.bubble = callergp.bubble\n",
         "	newg.simid = 0\n	if isSystemGoroutine(newg, false) {\n		sched.ngsys.Add(1)\n	} else {\n		// Only user goroutines inherit synctest groups and pprof labels.\n		newg.bubble = callergp.bubble\n		simNewG(newg)\n")
    # --- run queue -------------------------------------------------------------
    edit(R+"proc.go", "func runqput(pp *p, gp *g, next bool) {\n",
         "func runqput(pp *p, gp *g, next bool) {\n	if simIs(gp) {\n		simPut(gp)\n		return\n	}\n")
    edit(R+"proc.go", "	dropg()\n	lock(&sched.lock)\n	globrunqput(gp)\n	unlock(&sched.lock)\n\n	if mainStarted {\n		wakep()\n	}\n\n	schedule()\n}\n",
         "	dropg()\n	if simIs(gp) {\n		simPut(gp)\n		schedule()\n	}\n	lock(&sched.lock)\n	globrunqput(gp)\n	unlock(&sched.lock)\n\n	if mainStarted {\n		wakep()\n	}\n\n	schedule()\n}\n")
    edit(R+"proc.go", "	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n",
         "	if sim.on {\n		if gp := simPick(); gp != nil {\n			return gp, false, false\n		}\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization before we resort to stealing.\n")
    edit(R+"proc.go", "		if mainStarted {\n			wakep()\n		}\n	})\n}\n",
         "		if mainStarted {\n			wakep()\n		}\n	})\n	simPoint()\n}\n")
    # no forced preemption / P retaking while a simulated run is active
    edit(R+"proc.go", "func retake(now int64) uint32 {\n	n := 0\n",
         "func retake(now int64) uint32 {\n	n := 0\n	if sim.on {\n		return 0\n	}\n")
    edit(R+"proc.go", "const randomizeScheduler = raceenabled\n", "const randomizeScheduler = false\n")
    edit(R+"panic.go", "	fatalpanic(&p)   // should not return\n", "	simPanic(&p, sys.GetCallerPC(), uintptr(sys.GetCallerSP()))\n	fatalpanic(&p)   // should not return\n")
    # --- preemption points --------------------------------------------------------
    edit(R+"chan.go", "	// Fast path: check for failed non-blocking operation without acquiring the lock.\n	//\n	// After observing that the channel is not closed, we observe that the channel is\n",
         "	simPoint()\n\n	// Fast path: check for failed non-blocking operation without acquiring the lock.\n	//\n	// After observing that the channel is not closed, we observe that the channel is\n")
    edit(R+"chan.go", "	if c.timer != nil {\n		c.timer.maybeRunChan(c)\n	}\n\n	// Fast path: check for failed",
         "	simPoint()\n\n	if c.timer != nil {\n		c.timer.maybeRunChan(c)\n	}\n\n	// Fast path: check for failed")
    edit(R+"chan.go", "		fatal(\"close of synctest channel from outside bubble\")\n	}\n",
         "		fatal(\"close of synctest channel from outside bubble\")\n	}\n\n	simPoint()\n")
    edit(R+"select.go", "	// generate permuted order\n	norder := 0\n",
         "	simPoint()\n	simsel := simIs(gp)\n\n	// generate permuted order\n	norder := 0\n")
    edit(R+"select.go", "		j := cheaprandn(uint32(norder + 1))\n		pollorder[norder] = pollorder[j]\n		pollorder[j] = uint16(i)\n		norder++\n	}\n",
         """		if simsel {
			pollorder[norder] = uint16(i)
			norder++
			continue
		}
		j := cheaprandn(uint32(norder + 1))
		pollorder[norder] = pollorder[j]
		pollorder[j] = uint16(i)
		norder++
	}
	if simsel && norder > 1 {
		rot := uint32(0)
		if sim.conf.Replay == 0 && sim.conf.Mode != simModeFIFO {
			rot = uint32(simRng() % uint64(norder))
		}
		rot = simDecide(simKSelect, uint32(norder), rot, gp.simid, 0)
		if rot != 0 {
			sim.st.Selects++
			// rotate left by rot using three reversals
			simRev(pollorder[:rot])
			simRev(pollorder[rot:norder])
			simRev(pollorder[:norder])
		}
	}
""")
    edit(R+"select.go", "func selectgo(", "func simRev(s []uint16) {\n	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {\n		s[i], s[j] = s[j], s[i]\n	}\n}\n\nfunc selectgo(")
    # --- randomness -----------------------------------------------------------------
    edit(R+"rand.go", "	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&",
         "	seed := &globalRand.seed\n	for i := range seed {\n		seed[i] = byte(i*7 + 3)\n	}\n	if true {\n	} else if len(startupRand) >= 16 &&")
    edit(R+"rand.go", "	mp := getg().m\n	c := &mp.chacha8\n", "	if sim.on {\n		return simRand()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n")
    edit(R+"time.go", "			t.rand = cheaprand()\n", "			t.rand = uint32(simRand())\n")
    # --- the bubble: clock, idleness, end of run ----------------------------------------
    edit(R+"runtime2.go", "	waitReasonSynctestSelect:        true,\n}\n",
         """	waitReasonSynctestSelect:        true,

	// In a simulated run nothing outside the bubble can wake these.
	waitReasonChanReceive:      true,
	waitReasonChanSend:         true,
	waitReasonSelect:           true,
	waitReasonSemacquire:       true,
	waitReasonSyncMutexLock:    true,
	waitReasonSyncRWMutexRLock: true,
	waitReasonSyncRWMutexLock:  true,
	waitReasonSyncWaitGroupWait: true,
}
""")
    edit(R+"synctest.go", "	gp.bubble = bubble\n	defer func() {\n		gp.bubble = nil\n	}()\n\n	// This is newproc",
         "	gp.bubble = bubble\n	simBegin(bubble)\n	defer func() {\n		gp.bubble = nil\n	}()\n\n	// This is newproc")
    edit(R+"synctest.go", "		next := bubble.timers.wakeTime()\n		if next == 0 {\n			break\n		}\n		if next < bubble.now {\n",
         "		next := bubble.timers.wakeTime()\n		if next == 0 && simHasWaiter() && !bubble.done {\n			unlock(&bubble.mu)\n			systemstack(simIdleWake)\n			lock(&bubble.mu)\n			continue\n		}\n		if sim.aborted {\n			break\n		}\n		if next == 0 {\n			break\n		}\n		if next < bubble.now {\n")
    edit(R+"synctest.go", "	total := bubble.total\n	unlock(&bubble.mu)\n",
         "	total := bubble.total\n	unlock(&bubble.mu)\n	simEnd(bubble, total)\n	if total != 1 {\n		return\n	}\n")
    edit(R+"sema.go", "func internal_sync_nanotime() int64 {\n	return nanotime()\n",
         "func internal_sync_nanotime() int64 {\n	if b := getg().bubble; b != nil {\n		return b.now\n	}\n	return nanotime()\n")
    # --- sync ---------------------------------------------------------------------------
    M = "internal/sync/mutex.go"
    edit(M, "func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n	runtime_simPoint()\n")
    edit(M, "		m.unlockSlow(new)\n	}\n}\n", "		m.unlockSlow(new)\n	}\n	runtime_simPoint()\n}\n")
    edit("internal/sync/runtime.go", "package sync\n", "package sync\n", 1)
    files["internal/sync/runtime.go"] += "\n//go:linkname runtime_simPoint\nfunc runtime_simPoint()\n"
    W = "sync/rwmutex.go"
    edit(W, "func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	runtime_simPoint()\n")
    edit(W, "		rw.rUnlockSlow(r)\n	}\n	if race.Enabled {\n		race.Enable()\n	}\n", "		rw.rUnlockSlow(r)\n	}\n	if race.Enabled {\n		race.Enable()\n	}\n	runtime_simPoint()\n")
    files["sync/runtime.go"] = open(os.path.join(src, "sync/runtime.go")).read() + \
        "\n//go:linkname runtime_simPoint\nfunc runtime_simPoint()\n\n//go:linkname runtime_simOn\nfunc runtime_simOn() bool\n\n//go:linkname runtime_simEpoch\nfunc runtime_simEpoch() uint64\n"
    # Pools: a run must not see what earlier runs left in them. (Race builds do
    # without pools: their happens-before edges would hide races.)
    edit("sync/pool.go", "	local     unsafe.Pointer //", "	simE      uint64\n	simL      []any\n	local     unsafe.Pointer //")
    edit("sync/pool.go", "	if x == nil {\n		return\n	}\n	if race.Enabled {\n", """	if x == nil {
		return
	}
	if runtime_simOn() {
		if !race.Enabled {
			if e := runtime_simEpoch(); p.simE != e {
				p.simE = e
				p.simL = nil
			}
			if len(p.simL) < 16 {
				p.simL = append(p.simL, x)
			}
		}
		return
	}
	if race.Enabled {
""")
    # (outside of runs race builds drop pooled items at random; parsing would
    # allocate megabytes for every program)
    edit("sync/pool.go", "runtime_randn(4) == 0", "false && runtime_randn(4) == 0")
    edit("sync/pool.go", "func (p *Pool) Get() any {\n", """func (p *Pool) Get() any {
	if runtime_simOn() {
		if n := len(p.simL); n > 0 && p.simE == runtime_simEpoch() {
			x := p.simL[n-1]
			p.simL = p.simL[:n-1]
			return x
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
""")
    # --- context: cancellation order of children must not depend on addresses ----------------
    C = "context/context.go"
    edit(C, "	children map[canceler]struct{} // set to nil by the first cancel call\n",
         "	children map[canceler]uint64 // set to nil by the first cancel call\n	simSeq   uint64\n")
    edit(C, "				p.children = make(map[canceler]struct{})\n", "				p.children = make(map[canceler]uint64)\n")
    edit(C, "			p.children[child] = struct{}{}\n", "			p.simSeq++\n			p.children[child] = p.simSeq\n")
    edit(C, "	for child := range c.children {\n", "	for _, child := range simOrder(c.children) {\n")
    files[C] += """
func simOrder(m map[canceler]uint64) []canceler {
	var ks []canceler
	var vs []uint64
	for k, v := range m {
		i := len(vs)
		ks = append(ks, k)
		vs = append(vs, v)
		for i > 0 && vs[i-1] > v {
			ks[i], vs[i] = ks[i-1], vs[i-1]
			i--
		}
		ks[i], vs[i] = k, v
	}
	return ks
}
"""
    rep = {}
    for rel, text in files.items():
        p = os.path.join(out, rel.replace("/", "__"))
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)
        rep[os.path.join(src, rel)] = p
    z = os.path.join(out, "runtime__zz_sim.go")
    text = open(os.path.join(here, "zz_sim.go.txt")).read()
    if not os.path.exists(z) or open(z).read() != text:
        open(z, "w").write(text)
    rep[os.path.join(src, "runtime/zz_sim.go")] = z
    json.dump({"Replace": rep}, open(os.path.join(out, "overlay.json"), "w"), indent=1)

main()
