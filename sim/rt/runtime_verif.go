// Simulation support compiled into package runtime through a build overlay.
// Everything here is inert until VerifStart is called.

package runtime

import (
	"internal/runtime/atomic"
	"unsafe"
)

var (
	verifOn      bool
	verifState   uint64 // scheduling PRNG
	verifData    uint64 // data PRNG (crypto/rand, math/rand, map seeds)
	verifMode    uint32 // 0 fifo, 1 uniform, 2 sticky priorities
	verifYieldP  uint32 // yield probability at sync points, /65536
	verifAllocP  uint32 // preemption request probability at allocations, /65536
	verifStallP  uint32 // stall probability at yield points, /65536
	verifStallNs int64
	verifEpoch   uint64
	verifHash    uint64
	verifPicks   uint64
	verifSwitch  uint64
	verifPreempt uint64
	verifStalls  uint64
	verifSteps   uint64
	verifMax     uint64
	verifTick    int64
	verifSaved   [3]int64
	verifWall    [64]int64
	verifJumps   uint64
	verifRunSeq  uint64
	verifLimitFn func()
)

// VerifConf configures the seeded scheduler.
type VerifConf struct {
	Seed    uint64
	Mode    uint32
	YieldP  uint32
	AllocP  uint32
	StallP  uint32
	StallNs int64
	Tick    int64 // how far each reading of the clock moves it
	MaxPick uint64
}

// VerifStat reports what the scheduler did so far.
type VerifStat struct {
	Picks, Switches, Preempts, Stalls, TimeJumps, Hash uint64
}

//go:nosplit
func verifMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// VerifStart turns the seeded scheduler on.
func VerifStart(c VerifConf) {
	verifState = c.Seed ^ 0x5851f42d4c957f2d
	verifData = c.Seed ^ 0x14057b7ef767814f
	verifMode = c.Mode
	verifTick = c.Tick
	verifMax = c.MaxPick
	verifHash = 14695981039346656037
	verifOn = true
	VerifSched(c)
}

// VerifSched changes the schedule perturbation rates of a running simulation.
func VerifSched(c VerifConf) {
	verifMode = c.Mode
	verifYieldP = c.YieldP
	verifAllocP = c.AllocP
	verifStallP = c.StallP
	verifStallNs = c.StallNs
}

// VerifPause switches off, or on again, everything that makes the
// schedule depend on what the calling goroutine executes.
func VerifPause(on bool) {
	if on {
		verifSaved = [3]int64{int64(verifYieldP), int64(verifAllocP), verifTick}
		verifYieldP, verifAllocP, verifTick = 0, 0, 0
		return
	}
	verifYieldP, verifAllocP, verifTick = uint32(verifSaved[0]), uint32(verifSaved[1]), verifSaved[2]
}

// VerifStop turns the seeded scheduler off.
func VerifStop() { verifOn = false }

// VerifStats returns the scheduler's counters.
func VerifStats() VerifStat {
	return VerifStat{verifPicks, verifSwitch, verifPreempt, verifStalls, verifJumps, verifHash}
}

// VerifSetWallOffset sets the difference between a node's wall clock and the
// monotonic clock.
func VerifSetWallOffset(node uint32, ns int64) { verifWall[node&63] = ns }

// VerifWallOffset returns a node's wall clock offset.
func VerifWallOffset(node uint32) int64 { return verifWall[node&63] }

// VerifNode returns the simulated process the goroutine belongs to.
func VerifNode() uint32 { return getg().verifNode }

// VerifSetNode moves the calling goroutine, and the ones it starts from now
// on, to another simulated process.
func VerifSetNode(n uint32) { getg().verifNode = n }

//go:linkname time_verifNode time.verifNode
func time_verifNode() uint32 { return getg().verifNode }

//go:linkname time_verifSetNode time.verifSetNode
func time_verifSetNode(n uint32) { getg().verifNode = n }

// VerifSetBase sets the clock. Only meaningful before VerifStart.
func VerifSetBase(ns int64) {
	if ns > faketime {
		faketime = ns
	}
}

// VerifNow reads the simulated monotonic clock without moving it.
func VerifNow() int64 { return faketime }

// VerifGoID returns the current goroutine's id.
func VerifGoID() uint64 { return getg().goid }

// VerifRandRead fills b from the seeded data PRNG.
func VerifRandRead(b []byte) {
	for len(b) > 0 {
		v := verifMix(&verifData)
		for i := 0; i < 8 && len(b) > 0; i++ {
			b[0] = byte(v)
			v >>= 8
			b = b[1:]
		}
	}
}

//go:nosplit
func verifRand() uint64 { return verifMix(&verifData) }

// verifPick chooses the next goroutine to run among all the runnable ones.
func verifPick(pp *p) *g {
	if pp.runnext != 0 {
		gp := pp.runnext.ptr()
		pp.runnext = 0
		runqput(pp, gp, false)
	}
	if sched.runqsize != 0 {
		lock(&sched.lock)
		for sched.runqsize != 0 && pp.runqtail-pp.runqhead < uint32(len(pp.runq)) {
			gp := sched.runq.pop()
			sched.runqsize--
			pp.runq[pp.runqtail%uint32(len(pp.runq))].set(gp)
			atomic.StoreRel(&pp.runqtail, pp.runqtail+1)
		}
		unlock(&sched.lock)
	}
	h, t := pp.runqhead, pp.runqtail
	n := t - h
	if n == 0 {
		return nil
	}
	l := uint32(len(pp.runq))
	idx := uint32(0)
	if n > 1 {
		switch verifMode {
		case 0:
		case 2:
			if verifMix(&verifState)&31 == 0 {
				verifEpoch = verifMix(&verifState)
			}
			best := uint64(0)
			for i := uint32(0); i < n; i++ {
				s := pp.runq[(h+i)%l].ptr().goid ^ verifEpoch
				if v := verifMix(&s); v >= best {
					best, idx = v, i
				}
			}
		default:
			idx = uint32(verifMix(&verifState) % uint64(n))
		}
		verifSwitch++
	}
	gp := pp.runq[(h+idx)%l].ptr()
	for i := idx; i > 0; i-- {
		pp.runq[(h+i)%l].set(pp.runq[(h+i-1)%l].ptr())
	}
	atomic.StoreRel(&pp.runqhead, h+1)
	verifPicks++
	verifHash = (verifHash ^ uint64(n)<<32 ^ uint64(idx)) * 1099511628211
	verifHash = (verifHash ^ gp.goid) * 1099511628211
	if verifPicks > verifMax && verifMax != 0 {
		print("VERIF-LIVELOCK picks=", verifPicks, "\n")
		exit(77)
	}
	return gp
}

// verifIdle is called when no goroutine is runnable: it moves the clock to
// the next timer.
func verifIdle(pp *p) bool {
	w := pp.timers.wakeTime()
	if w == 0 {
		return false
	}
	if w > faketime {
		faketime = w
		verifJumps++
	}
	return true
}

// verifAlloc is called on allocation; it requests a preemption at the next
// function call.
//
//go:nosplit
func verifAlloc() {
	gp := getg()
	if gp.m == nil || gp.m.curg != gp || gp.m.locks != 0 || gp.stackguard0 == stackPreempt {
		return
	}
	if uint32(verifMix(&verifState))&0xffff >= verifAllocP {
		return
	}
	verifPreempt++
	gp.preempt = true
	gp.stackguard0 = stackPreempt
}

// VerifYield is a scheduling point.
func VerifYield() {
	if !verifOn || verifYieldP == 0 {
		return
	}
	verifYieldSlow()
}

func verifYieldSlow() {
	gp := getg()
	mp := gp.m
	if mp.curg != gp || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" || mp.p.ptr().status != _Prunning {
		return
	}
	r := verifMix(&verifState)
	if uint32(r)&0xffff < verifYieldP {
		mcall(gosched_m)
		return
	}
	if uint32(r>>16)&0xffff < verifStallP {
		verifStalls++
		timeSleep(1 + int64((r>>32)%uint64(verifStallNs)))
	}
}

//go:linkname sync_verifYield sync.verifYield
func sync_verifYield() { VerifYield() }

var _ unsafe.Pointer

// VerifActive reports whether the simulation is on.
func VerifActive() bool { return verifOn }
