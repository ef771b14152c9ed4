package main

import (
	"bytes"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/c2FmZQ/storage/verifos"
)

// Plan is everything that decides a run. It is also the replay file.
type Plan struct {
	Property string           `json:"property,omitempty"`
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	Sched    Sched            `json:"sched"`
	Net      NetConf          `json:"net"`
	P        map[string]int64 `json:"params,omitempty"`
	Kind     int              `json:"kind,omitempty"`
	Cfgs     []CfgSpec        `json:"cfgs,omitempty"`
	Auth     *AuthSpec        `json:"auth,omitempty"`
	Store    *StoreSpec       `json:"store,omitempty"`
	Ocsp     *OcspSpec        `json:"ocsp,omitempty"`
	Acme     *AcmeSpec        `json:"acme,omitempty"`
	Ops      []Op             `json:"ops"`
	Faults   []Fault          `json:"faults"`
	Violated string           `json:"violation,omitempty"`
}

type Sched struct {
	Mode    uint32 `json:"mode"`
	YieldP  uint32 `json:"yield"`
	AllocP  uint32 `json:"alloc"`
	StallP  uint32 `json:"stall"`
	StallMs int64  `json:"stallms"`
}

type NetConf struct {
	LatUs    int64 `json:"lat"`
	JitterUs int64 `json:"jitter"`
	Chunk    int   `json:"chunk"`
	Buf      int   `json:"buf"`
}

// Op is one step of the workload.
type Op struct {
	K    string     `json:"k"`           // kind
	At   int64      `json:"at"`          // milliseconds after the start, or after the previous op of the same actor
	W    int        `json:"w,omitempty"` // actor
	A    int64      `json:"a,omitempty"` // arguments
	B    int64      `json:"b,omitempty"`
	C    int64      `json:"c,omitempty"`
	D    int64      `json:"d,omitempty"`
	S    string     `json:"s,omitempty"`
	Conn *ConnSpec  `json:"conn,omitempty"`
	HC   *HConnSpec `json:"hc,omitempty"`
	Au   *AuOp      `json:"au,omitempty"`
	Ws   *WsConn    `json:"ws,omitempty"`
}

// Fault is one injected fault.
type Fault struct {
	K string `json:"k"`
	N int64  `json:"n"` // when: operation or connection number
	A int64  `json:"a,omitempty"`
	B int64  `json:"b,omitempty"`
	S string `json:"s,omitempty"`
}

// Result is what a run reports.
type Result struct {
	Violations []Violation       `json:"violations,omitempty"`
	Known      []Violation       `json:"known,omitempty"`
	Faults     map[string]int    `json:"faults"`
	Probes     map[string]int    `json:"probes"`
	Sched      runtime.VerifStat `json:"schedstat"`
	SimNs      int64             `json:"sim_ns"`
	Hash       string            `json:"hash"`
	Events     int               `json:"events"`
	Checks     int               `json:"checks"`
	Incon      int               `json:"inconclusive,omitempty"`
	Log        string            `json:"log,omitempty"`
}

type Violation struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Msg      string `json:"msg"`
	AtNs     int64  `json:"at_ns"`
}

type World struct {
	alias string // if set, the property of all violations
	plan  *Plan
	net   *simNet
	start time.Time
	nrng  *rand.Rand // network jitter
	wrng  *rand.Rand // workload content

	mu       sync.Mutex
	res      Result
	hash     uint64
	logBuf   bytes.Buffer
	verbose  bool
	appLog   *ring
	dead     map[uint32]bool
	crashed  map[uint32]chan struct{}
	nextNode uint32
	fsFaults []Fault
	stop     chan struct{}
	stopped  bool
}

type ring struct {
	mu sync.Mutex
	b  []byte
	w  *World
}

func (r *ring) Write(p []byte) (int, error) {
	// Verbose runs allocate what others do: they are the same runs.
	runtime.VerifPause(true)
	line := []byte(fmt.Sprintf("%12.6f app n%d %s", r.w.since().Seconds(), runtime.VerifNode(), p))
	if r.w.verbose {
		os.Stderr.Write(line)
	}
	runtime.VerifPause(false)
	r.mu.Lock()
	r.b = append(r.b, p...)
	if len(r.b) > 1<<16 {
		r.b = append(r.b[:0], r.b[len(r.b)-1<<15:]...)
	}
	r.mu.Unlock()
	return len(p), nil
}

// baseTime is when simulated history starts.
const baseTime = int64(1767225600) * 1e9 // 2026-01-01T00:00:00Z

func newWorld(p *Plan, verbose bool) *World {
	w := &World{
		plan:    p,
		nrng:    rand.New(rand.NewPCG(p.Seed, 1)),
		wrng:    rand.New(rand.NewPCG(p.Seed, 2)),
		verbose: verbose,
		dead:    map[uint32]bool{},
		crashed: map[uint32]chan struct{}{},
		stop:    make(chan struct{}),
	}
	w.res.Faults = map[string]int{}
	w.res.Probes = map[string]int{}
	w.hash = 14695981039346656037
	w.start = w.now()
	w.appLog = &ring{w: w}
	log.SetFlags(0)
	log.SetOutput(w.appLog)
	w.net = newSimNet(w)
	if p.Net.LatUs > 0 {
		w.net.baseLat = time.Duration(p.Net.LatUs) * time.Microsecond
	}
	w.net.jitter = time.Duration(p.Net.JitterUs) * time.Microsecond
	w.net.maxChunk = p.Net.Chunk
	if p.Net.Buf > 0 {
		w.net.bufCap = p.Net.Buf
	}
	rsaNext := int(p.Seed % uint64(len(rsaKeys)))
	rsaLeft := len(rsaKeys)
	rsa.VerifGenerate = func(bits int) *rsa.PrivateKey {
		if bits != 2048 || rsaLeft == 0 {
			return nil
		}
		rsaLeft--
		b, _ := base64.StdEncoding.DecodeString(rsaKeys[rsaNext])
		rsaNext = (rsaNext + 1) % len(rsaKeys)
		k, err := x509.ParsePKCS1PrivateKey(b)
		if err != nil {
			panic(err)
		}
		return k
	}
	verifos.Reset()
	verifos.Dead = func(n uint32) bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		return n != 0 && w.dead[n]
	}
	verifos.CrashFn = func(n uint32) { w.crash(n) }
	verifos.Hook = w.fsHook
	w.nextNode = 1
	return w
}

func (w *World) now() time.Time { return time.Unix(0, runtime.VerifNow()) }

func (w *World) since() time.Duration { return w.now().Sub(w.start) }

func (w *World) netRand(n int64) int64 {
	if n <= 0 {
		return 0
	}
	return w.nrng.Int64N(n)
}

func (w *World) fault(kind string) {
	w.mu.Lock()
	w.res.Faults[kind]++
	w.mu.Unlock()
}

func (w *World) probe(name string) {
	w.mu.Lock()
	w.res.Probes[name]++
	w.mu.Unlock()
}

// check counts an evaluation of the oracle.
func (w *World) check() {
	w.mu.Lock()
	w.res.Checks++
	w.mu.Unlock()
}

// ev records an event of the history.
func (w *World) ev(format string, args ...any) {
	s := fmt.Sprintf("%12.6f ", w.since().Seconds()) + fmt.Sprintf(format, args...) + "\n"
	w.mu.Lock()
	for i := 0; i < len(s); i++ {
		w.hash = (w.hash ^ uint64(s[i])) * 1099511628211
	}
	w.res.Events++
	if w.logBuf.Len() < 1<<20 {
		w.logBuf.WriteString(s)
	}
	w.mu.Unlock()
	if w.verbose {
		runtime.VerifPause(true)
		os.Stderr.WriteString(s)
		runtime.VerifPause(false)
	}
}

func (w *World) violate(prop, class, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if w.alias != "" {
		prop = w.alias
	}
	w.ev("VIOLATION %s %s: %s", prop, class, msg)
	w.mu.Lock()
	w.res.Violations = append(w.res.Violations, Violation{prop, class, msg, int64(w.now().Sub(w.start))})
	w.mu.Unlock()
}

func (w *World) inconclusive() {
	w.mu.Lock()
	w.res.Incon++
	w.mu.Unlock()
}

func (w *World) sleep(d time.Duration) { time.Sleep(d) }

// newNode allocates a simulated process.
func (w *World) newNode(ip string) uint32 {
	w.mu.Lock()
	n := w.nextNode
	w.nextNode++
	w.crashed[n] = make(chan struct{})
	w.mu.Unlock()
	w.net.mu.Lock()
	w.net.nodeIP[n] = ip
	w.net.mu.Unlock()
	return n
}

// crash kills a node.
func (w *World) crash(n uint32) {
	w.mu.Lock()
	if w.dead[n] {
		w.mu.Unlock()
		return
	}
	w.dead[n] = true
	ch := w.crashed[n]
	w.res.Faults["crash"]++
	w.mu.Unlock()
	w.net.crash(n)
	w.ev("node %d crashed", n)
	if ch != nil {
		close(ch)
	}
}

func (w *World) isDead(n uint32) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.dead[n]
}

// in runs f as part of a node. It returns false if the node died before f returned.
func (w *World) in(n uint32, f func()) bool {
	done := make(chan struct{})
	go func() {
		runtime.VerifSetNode(n)
		f()
		close(done)
	}()
	select {
	case <-done:
		return true
	case <-w.crashed[n]:
		return false
	}
}

// goIn starts f as part of a node.
func (w *World) goIn(n uint32, f func()) {
	go func() {
		runtime.VerifSetNode(n)
		f()
	}()
}

// within runs f and waits for it at most d.
func (w *World) within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		return false
	}
}

func (w *World) finish() *Result {
	w.mu.Lock()
	defer w.mu.Unlock()
	st := runtime.VerifStats()
	w.res.Sched = st
	w.res.SimNs = int64(w.now().Sub(w.start))
	h := fnv.New64a()
	fmt.Fprintf(h, "%x %x", w.hash, st.Hash)
	w.res.Hash = fmt.Sprintf("%016x", h.Sum64())
	if len(w.res.Violations) > 0 {
		b := w.logBuf.String()
		if len(b) > 20000 {
			b = b[:4000] + "\n...\n" + b[len(b)-16000:]
		}
		w.res.Log = b
	}
	return &w.res
}

// rng for plan generation.
type rng struct{ *rand.Rand }

func newRng(seed, stream uint64) rng { return rng{rand.New(rand.NewPCG(seed, stream))} }

func (r rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return r.IntN(n)
}
func (r rng) between(a, b int) int     { return a + r.n(b-a+1) }
func (r rng) p(pct int) bool           { return r.n(100) < pct }
func (r rng) pick(v ...int) int        { return v[r.n(len(v))] }
func (r rng) picks(v ...string) string { return v[r.n(len(v))] }

// randSched draws the schedule perturbation for a run.
func (r rng) randSched() Sched {
	s := Sched{}
	switch r.n(6) {
	case 0:
		s.Mode = 0
	case 1, 2:
		s.Mode = 2
	default:
		s.Mode = 1
	}
	s.YieldP = uint32(r.pick(0, 300, 2000, 8000, 20000))
	s.AllocP = uint32(r.pick(0, 0, 20, 100, 500))
	if r.p(15) {
		s.StallP = uint32(r.pick(2, 10, 40))
		s.StallMs = int64(r.pick(1, 20, 200))
	}
	return s
}

func (r rng) randNet() NetConf {
	n := NetConf{LatUs: int64(r.pick(50, 500, 2000, 20000)), JitterUs: int64(r.pick(0, 100, 3000, 30000))}
	n.Chunk = r.pick(0, 0, 0, 7, 100, 1500)
	n.Buf = r.pick(2048, 16384, 65536, 65536, 262144)
	return n
}

type Scenario struct {
	Name string
	Gen  func(r rng, tier string) *Plan
	Run  func(w *World)
	// Horizon bounds the simulated time of a run.
	Horizon time.Duration
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Name] = s }

func (w *World) param(k string) int64 { return w.plan.P[k] }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage")
		os.Exit(3)
	}
	runtime.SetMutexProfileFraction(0)
	runtime.MemProfileRate = 0
	if os.Args[1] == "run" {
		// Where things are in memory decides the order of maps whose keys
		// are pointers, so everything that is there must be the same.
		env := []string{"GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "TZ=UTC"}
		v := "-q"
		if len(os.Args) > 2 {
			v = os.Args[2]
		}
		args := []string{"sim", "run", v}
		if !slices.Equal(os.Environ(), env) || !slices.Equal(os.Args, args) {
			err := syscall.Exec("/proc/self/exe", args, env)
			fmt.Fprintln(os.Stderr, "exec:", err)
			os.Exit(3)
		}
	}
	switch os.Args[1] {
	case "list":
		var l []string
		for k := range scenarios {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
	case "gen": // gen SCENARIO TIER FIRST COUNT: one plan per line
		sc := scenarios[os.Args[2]]
		var first, count uint64
		fmt.Sscan(os.Args[4], &first)
		fmt.Sscan(os.Args[5], &count)
		out := json.NewEncoder(os.Stdout)
		for s := first; s < first+count; s++ {
			r := newRng(s, hashString(os.Args[2]))
			p := sc.Gen(r, os.Args[3])
			p.Scenario = os.Args[2]
			p.Seed = s
			out.Encode(p)
		}
	case "run":
		buf := make([]byte, 4<<20)
		n := 0
		for n < len(buf) {
			k, err := os.Stdin.Read(buf[n:])
			n += k
			if err != nil {
				break
			}
		}
		var p Plan
		if err := json.Unmarshal(buf[:n], &p); err != nil {
			fmt.Fprintln(os.Stderr, "bad plan:", err)
			os.Exit(3)
		}
		res := execute(&p, os.Args[2] == "-v")
		b, _ := json.Marshal(res)
		os.Stdout.Write(append([]byte("RESULT "), append(b, '\n')...))
		os.Exit(0)
	}
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

func execute(p *Plan, verbose bool) *Result {
	sc := scenarios[p.Scenario]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", p.Scenario)
		os.Exit(3)
	}
	runtime.VerifSetBase(baseTime)
	runtime.VerifStart(runtime.VerifConf{Seed: p.Seed, Mode: p.Sched.Mode, Tick: 50, MaxPick: 60_000_000})
	w := newWorld(p, verbose)
	done := make(chan struct{})
	go func() {
		sc.Run(w)
		close(done)
	}()
	h := sc.Horizon
	if h == 0 {
		h = 365 * 24 * time.Hour
	}
	t := time.NewTimer(h)
	select {
	case <-done:
	case <-t.C:
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "VERIF-HORIZON scenario did not finish\n%s\n", buf)
		os.Exit(78)
	}
	runtime.VerifSched(runtime.VerifConf{Mode: p.Sched.Mode})
	return w.finish()
}

// perturb applies the plan's schedule perturbation; scenarios call it once
// their set-up is done.
func (w *World) perturb() {
	s := w.plan.Sched
	runtime.VerifSched(runtime.VerifConf{Mode: s.Mode, YieldP: s.YieldP, AllocP: s.AllocP, StallP: s.StallP, StallNs: max(1, s.StallMs*1e6)})
}

// calm removes the perturbation.
func (w *World) calm() {
	runtime.VerifSched(runtime.VerifConf{Mode: w.plan.Sched.Mode})
}

func (w *World) fsHook(op verifos.Op) verifos.Action {
	return verifos.Action{Keep: -1}
}
