#!/usr/bin/env python3
"""Generate the Go runtime overlay used by the simulator.

usage: mkoverlay.py GOROOT OUTDIR   -> writes patched copies and OUTDIR/overlay.json

The toolchain itself is untouched: `go build -overlay` substitutes these copies
while compiling the simulator.  Every substitution must match exactly once; a
toolchain whose sources differ makes this script fail (an error of the check,
never a verdict).

What the overlay changes, only for goroutines inside a simulation bubble:
  * every goroutine has a deterministic identity (hash of its spawn path) and a
    private PRNG stream: map seeds/iteration, select order, math/rand and timer
    tie-breaking come from it instead of from process entropy;
  * hash keys are constants, so map layout does not depend on the process; map
    iteration order is a function of goroutine and scheduler step only;
  * a per-goroutine tag (the simulated node) is inherited by children and timers
    and selects a per-node wall-clock skew for time.Now;
  * goroutines waiting for a sync.Mutex/RWMutex/WaitGroup count as idle, so a
    mutex held across a simulated I/O does not hang the scheduler;
  * until main starts, time.Now and the random numbers of the main goroutine are
    constant, so package initialisation is the same in every process;
  * sysmon preemption can be switched off (GOMAXPROCS=1 and GC off during a run
    complete this).
"""
import json, os, sys

goroot, out = sys.argv[1], sys.argv[2]
os.makedirs(out, exist_ok=True)
replace = {}


def patch(rel, subs):
    path = os.path.join(goroot, 'src', rel)
    text = open(path).read()
    for old, new in subs:
        if text.count(old) != 1:
            sys.exit('mkoverlay: %s: pattern found %d times: %r' % (rel, text.count(old), old))
        text = text.replace(old, new)
    dst = os.path.join(out, rel.replace('/', '__'))
    open(dst, 'w').write(text)
    replace[path] = dst


def patch_all(rel, old, new, count):
    path = os.path.join(goroot, 'src', rel)
    text = open(path).read()
    if text.count(old) != count:
        sys.exit('mkoverlay: %s: pattern found %d times: %r' % (rel, text.count(old), old))
    dst = os.path.join(out, rel.replace('/', '__'))
    open(dst, 'w').write(text.replace(old, new))
    replace[path] = dst


def add(rel, text):
    path = os.path.join(goroot, 'src', rel)
    dst = os.path.join(out, rel.replace('/', '__'))
    open(dst, 'w').write(text)
    replace[path] = dst


patch('runtime/runtime2.go', [
    ("""	valgrindStackID uintptr
}
""", """	valgrindStackID uintptr

	simID   uint64
	simRand uint64
	simKids uint64
	simTag  uint64
}
"""),
    ("""	waitReasonSyncCondWait:          true,
	waitReasonSynctestWaitGroupWait: true,
""", """	waitReasonSyncCondWait:          true,
	waitReasonSyncMutexLock:         true,
	waitReasonSyncRWMutexRLock:      true,
	waitReasonSyncRWMutexLock:       true,
	waitReasonSyncWaitGroupWait:     true,
	waitReasonSynctestWaitGroupWait: true,
"""),
])
patch('runtime/rand.go', [
    ("""func rand() uint64 {
""", """func rand() uint64 {
	if gp := getg().m.curg; gp != nil {
		if gp.simID != 0 {
			return simmix(simEpoch ^ simmix(gp.simID))
		}
		if simBoot && gp.goid == 1 {
			simBootRand++
			return simmix(simBootRand)
		}
	}
"""),
    ("""func maps_rand() uint64 {
""", """func maps_rand() uint64 {
	if gp := getg().m.curg; gp != nil && gp.simID != 0 {
		return simmix(simEpoch ^ gp.simID)
	}
"""),
])
# The stream of a goroutine is for those who ask for random numbers. The runtime's own
# draws (the seeds of maps that the compiler inserts) do not move it: some are made
# only once per process, where a cache is filled.
for rel in ('math/rand/rand.go', 'math/rand/v2/rand.go', 'os/tempfile.go', 'net/dnsclient.go'):
    patch(rel, [("//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simstream\n")])
# The seed of a sync.Map is drawn on first use, which for a map of the process may
# fall in any run: not from the stream of the goroutine that happens to be first.
patch('internal/sync/hashtriemap.go', [
    ("	ht.seed = uintptr(runtime_rand())\n", "	ht.seed = 0x9e3779b9\n"),
])
# A channel cached at package level by an earlier run (gorm's schema cache) may be
# used by a later one.
patch_all('runtime/chan.go', 'if c.bubble != nil && getg().bubble != c.bubble {', 'if false {', 5)
patch('runtime/select.go', [
    ("if getg().bubble != cas.c.bubble {", "if false {"),
    ("j := cheaprandn(uint32(norder + 1))",
     "j := simcheaprandn(gp, uint32(norder+1))"),
])
patch('runtime/sema.go', [
    ("""func internal_sync_nanotime() int64 {
	return nanotime()
""", """func internal_sync_nanotime() int64 {
	if gp := getg(); gp.bubble != nil {
		return gp.bubble.now
	}
	return nanotime()
"""),
])
patch('runtime/proc.go', [
    ("		newg.bubble = callergp.bubble\n", "		newg.bubble = callergp.bubble\n		siminherit(newg, callergp)\n"),
    ("""func retake(now int64) uint32 {
""", """func retake(now int64) uint32 {
	if simNoRetake {
		return 0
	}
"""),
])
patch('runtime/time.go', [
    ("	return time_now()\n}\n", "	if simBoot {\n		return 946684800, 0, 0\n	}\n	return time_now()\n}\n"),
    ("""		sec = bubble.now / (1000 * 1000 * 1000)
		nsec = int32(bubble.now % (1000 * 1000 * 1000))
""", """		simnow := bubble.now + simSkew[getg().simTag&63]
		sec = simnow / (1000 * 1000 * 1000)
		nsec = int32(simnow % (1000 * 1000 * 1000))
"""),
    ("			t.rand = cheaprand()\n", "			simtimer(getg(), t)\n"),
    ("""	isSending atomic.Int32
}

// init initializes""", """	isSending atomic.Int32

	simID  uint64
	simTag uint64
}

// init initializes"""),
    ("""		gp.bubble = bubble
		bubble.changegstatus(gp, _Gdead, _Grunning)
""", """		gp.bubble = bubble
		gp.simID, gp.simRand, gp.simKids, gp.simTag = t.simID, t.simID, 0, t.simTag
		bubble.changegstatus(gp, _Gdead, _Grunning)
"""),
    ("""		gp.bubble = nil
	}

	if ts != nil {
		ts.lock()
""", """		gp.bubble = nil
		gp.simID, gp.simRand, gp.simKids, gp.simTag = 0, 0, 0, 0
	}

	if ts != nil {
		ts.lock()
"""),
])
patch('internal/runtime/maps/runtime_alg.go', [
    ("		hashkey[i] = uintptr(bootstrapRand())\n", "		hashkey[i] = uintptr(bootstrapRand())\n		hashkey[i] = uintptr(0x9E3779B97F4A7C15) * uintptr(i+1)\n"),
    ("		key[i] = bootstrapRand()\n", "		key[i] = bootstrapRand()\n		key[i] = 0xD1B54A32D192ED03 * uint64(i+1)\n"),
])
add('runtime/verifsim.go', r"""package runtime

// Per-node wall clock skew, indexed by the low 6 bits of the goroutine tag.
var simSkew [64]int64

// Until main starts, the clock and the random numbers that package initialisation
// sees are constant.
var simBoot = true
var simBootRand uint64

func SimBooted() { simBoot = false }

// While set, sysmon never takes a P away from running code.
var simNoRetake bool

// Mixed into map iteration order; the scheduler changes it at every step.
var simEpoch uint64

func simmix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

//go:nosplit
func simrand(gp *g) uint64 {
	gp.simRand += 0x9e3779b97f4a7c15
	x := gp.simRand
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// simstream is what math/rand draws from.
func simstream() uint64 {
	if gp := getg().m.curg; gp != nil && gp.simID != 0 {
		return simrand(gp)
	}
	return rand()
}

func simcheaprandn(gp *g, n uint32) uint32 {
	if gp.simID == 0 {
		return cheaprandn(n)
	}
	// not from the stream: how often it was drawn from may depend on what caches
	// of the process already hold
	x := simmix(simEpoch ^ simmix(gp.simID^simmix(gp.simKids+uint64(n)<<32)))
	return uint32((uint64(uint32(x)) * uint64(n)) >> 32)
}

func siminherit(newg, parent *g) {
	if parent.simID == 0 {
		newg.simID, newg.simRand, newg.simKids, newg.simTag = 0, 0, 0, 0
		return
	}
	parent.simKids++
	id := simmix(parent.simID ^ simmix(parent.simKids))
	if id == 0 {
		id = 1
	}
	newg.simID, newg.simRand, newg.simKids, newg.simTag = id, id, 0, parent.simTag
}

func simtimer(gp *g, t *timer) {
	if gp.simID == 0 {
		t.simID, t.simTag = 0, 0
		t.rand = cheaprand()
		return
	}
	gp.simKids++
	id := simmix(gp.simID ^ simmix(gp.simKids))
	if id == 0 {
		id = 1
	}
	t.simID, t.simTag = id, gp.simTag
	t.rand = uint32(simmix(id + 0x9e3779b97f4a7c15))
}

func SimSetID(id uint64) {
	gp := getg()
	gp.simID, gp.simRand, gp.simKids = id, id, 0
}

func SimID() uint64 { return getg().simID }

func SimSetTag(tag uint64) { getg().simTag = tag }

func SimTag() uint64 { return getg().simTag }

func SimSetEpoch(e uint64) { simEpoch = e }

func SimNoRetake(b bool) { simNoRetake = b }

// SimLive counts the goroutines whose tag equals tag under mask.
func SimLive(tag, mask uint64) int {
	n := 0
	forEachG(func(gp *g) {
		if gp.simID != 0 && gp.simTag&mask == tag && gp.bubble != nil {
			if s := readgstatus(gp) &^ _Gscan; s != _Gdead && s != _Gidle {
				n++
			}
		}
	})
	return n
}

func SimSetSkew(tag uint64, ns int64) { simSkew[tag&63] = ns }

// SimRun runs f in a new simulation bubble.
func SimRun(f func()) { synctestRun(f) }

func SimWait() { synctestWait() }

// SimNow is the bubble's clock without any skew.
func SimNow() int64 { return getg().bubble.now }
""")
json.dump({"Replace": replace}, open(os.path.join(out, 'overlay.json'), 'w'), indent=1)
