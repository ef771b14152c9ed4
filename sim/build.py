#!/usr/bin/env python3
"""Writes the build overlay: patched copies of a few standard library files."""
import json, os, re, sys

GOROOT = os.environ.get("GOROOT", "/opt/veriftools/go1.24.13")

class Overlay:
    def __init__(self, out):
        self.out, self.rep = out, {}
        os.makedirs(out, exist_ok=True)
    def add(self, target, source):
        self.rep[target] = source
    def write(self, target, text):
        p = os.path.join(self.out, target.strip("/").replace("/", "__"))
        with open(p, "w") as f:
            f.write(text)
        self.rep[target] = p
    def patch(self, target, *subs, src=None):
        s = open(src or target).read()
        for old, new in subs:
            n = s.count(old)
            if n != 1:
                sys.exit(f"overlay: {target}: expected one match, found {n}: {old[:80]!r}")
            s = s.replace(old, new)
        self.write(target, s)
    def save(self, path):
        with open(path, "w") as f:
            json.dump({"Replace": self.rep}, f, indent=1)

def std(o, here):
    S = GOROOT + "/src/"
    o.add(S + "runtime/verif.go", here + "/rt/runtime_verif.go")
    o.patch(S + "runtime/proc.go",
        ('const haveSysmon = GOARCH != "wasm"', 'const haveSysmon = false'),
        ("	newg := gfget(pp)\n	if newg == nil {\n		newg = malg(stackMin)\n",
         "	newg := gfget(pp)\n	if newg == nil {\n		newg = malg(stackMin)\n		newg.verifNode = 0\n"),
        ("	memclrNoHeapPointers(unsafe.Pointer(&newg.sched), unsafe.Sizeof(newg.sched))\n	newg.sched.sp = sp",
         "	newg.verifNode = callergp.verifNode\n	memclrNoHeapPointers(unsafe.Pointer(&newg.sched), unsafe.Sizeof(newg.sched))\n	newg.sched.sp = sp"),
        ("	// Check the global runnable queue once in a while to ensure fairness.\n",
         "	if verifOn {\n		if gp := verifPick(pp); gp != nil {\n			return gp, false, false\n		}\n		if verifIdle(pp) {\n			goto top\n		}\n	}\n\n	// Check the global runnable queue once in a while to ensure fairness.\n"),
    )
    o.patch(S + "runtime/runtime2.go",
        ("	goroutineProfiled goroutineProfileStateHolder\n", "	goroutineProfiled goroutineProfileStateHolder\n\n	verifNode uint32\n"))
    o.patch(S + "time/sleep.go",
        ("func AfterFunc(d Duration, f func()) *Timer {\n", "func AfterFunc(d Duration, f func()) *Timer {\n	if node := verifNode(); node != 0 {\n		g := f\n		f = func() {\n			verifSetNode(node)\n			g()\n		}\n	}\n"))
    o.write(S + "time/verif.go", 'package time\n\nimport _ "unsafe"\n\n//go:linkname verifNode\nfunc verifNode() uint32\n\n//go:linkname verifSetNode\nfunc verifSetNode(uint32)\n')
    o.write(S + "net/verif.go", open(here + "/rt/net_verif.go").read())
    o.patch(S + "net/dial.go",
        ("	if ctx == nil {\n		panic(\"nil context\")\n	}\n	deadline := d.deadline(ctx, time.Now())\n",
         "	if ctx == nil {\n		panic(\"nil context\")\n	}\n	if VerifDial != nil {\n		return VerifDial(ctx, d, network, address)\n	}\n	deadline := d.deadline(ctx, time.Now())\n"),
        ('func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n',
         'func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if VerifListen != nil {\n		return VerifListen(network, address)\n	}\n'))
    o.patch(S + "os/path.go",
        ("func MkdirAll(path string, perm FileMode) error {\n", "func MkdirAll(path string, perm FileMode) error {\n	if len(path) >= 9 && path[:9] == \"/simdisk/\" {\n		return nil\n	}\n"))
    o.patch(S + "runtime/malloc.go",
        ("	// Short-circuit zero-sized allocation requests.\n	if size == 0 {\n		return unsafe.Pointer(&zerobase)\n	}\n\n	// It's possible",
         "	if verifOn && verifAllocP != 0 {\n		verifAlloc()\n	}\n\n	// Short-circuit zero-sized allocation requests.\n	if size == 0 {\n		return unsafe.Pointer(&zerobase)\n	}\n\n	// It's possible"))
    o.patch(S + "runtime/time_fake.go",
        ("	return faketime / 1e9, int32(faketime % 1e9), faketime\n",
         "	if verifOn {\n		faketime += verifTick\n	}\n	w := faketime + verifWall[getg().verifNode&63]\n	return w / 1e9, int32(w % 1e9), faketime\n"),
        ("	if !(fd == 1 || fd == 2) {", "	if true {"))
    # Nothing is ever collected: big pages make the heap cheaper.
    o.patch(S + "runtime/mem_linux.go",
        ("	// Disable huge pages if the GODEBUG for it is set.\n", "	if n >= 1<<21 {\n		sysHugePageOS(v, n)\n	}\n\n	// Disable huge pages if the GODEBUG for it is set.\n"))
    # What depends on real time or on the state of the heap.
    o.patch(S + "runtime/mstats.go",
        ("	_ = m.Alloc // nil check test before we switch stacks, see issue 61158\n", "	_ = m.Alloc // nil check test before we switch stacks, see issue 61158\n	if verifOn {\n		*m = MemStats{}\n		return\n	}\n"))
    o.patch(S + "runtime/mprof.go",
        ("func MemProfile(p []MemProfileRecord, inuseZero bool) (n int, ok bool) {\n", "func MemProfile(p []MemProfileRecord, inuseZero bool) (n int, ok bool) {\n	if verifOn {\n		return 0, true\n	}\n"),
        ("func MutexProfile(p []BlockProfileRecord) (n int, ok bool) {\n", "func MutexProfile(p []BlockProfileRecord) (n int, ok bool) {\n	if verifOn {\n		return 0, true\n	}\n"),
        ("func GoroutineProfile(p []StackRecord) (n int, ok bool) {\n", "func GoroutineProfile(p []StackRecord) (n int, ok bool) {\n	if verifOn {\n		return 0, true\n	}\n"))
    o.patch(S + "runtime/rand.go",
        ("	seed := &globalRand.seed\n	if len(startupRand)", "	seed := &globalRand.seed\n	startupRand = nil\n	if true {\n		for i := range seed {\n			seed[i] = byte(i*7 + 1)\n		}\n	} else if len(startupRand)"),
        ("	mp := getg().m\n	c := &mp.chacha8\n", "	if verifOn {\n		return verifRand()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n"),
        ("	mp := getg().m\n	// Implement wyrand", "	if verifOn {\n		return uint32(verifMix(&verifState))\n	}\n	mp := getg().m\n	// Implement wyrand"))
    o.patch(S + "runtime/chan.go",
        ("	if debugChan {\n		print(\"chansend: chan=\", c, \"\\n\")\n	}\n", "	if verifOn {\n		VerifYield()\n	}\n"),
        ("	// raceenabled: don't need to check ep, as it is always on the stack\n	// or is new memory allocated by reflect.\n\n	if debugChan {\n		print(\"chanrecv: chan=\", c, \"\\n\")\n	}\n", "	if verifOn {\n		VerifYield()\n	}\n"))
    o.patch(S + "sync/mutex.go",
        ("	m.mu.Lock()\n}", "	verifYield()\n	m.mu.Lock()\n}"),
        ("	m.mu.Unlock()\n}", "	m.mu.Unlock()\n	verifYield()\n}"))
    o.write(S + "sync/verif.go", 'package sync\n\nimport _ "unsafe"\n\n//go:linkname verifYield\nfunc verifYield()\n')
    o.patch(S + "crypto/internal/sysrand/rand.go",
        ("	if firstUse.CompareAndSwap(false, true) {", "	if runtime.VerifActive() {\n		runtime.VerifRandRead(b)\n		return\n	}\n	if firstUse.CompareAndSwap(false, true) {"),
        ('	"os"\n', '	"os"\n	"runtime"\n'))
    o.patch(S + "crypto/rsa/rsa.go",
        ("func GenerateKey(random io.Reader, bits int) (*PrivateKey, error) {\n",
         "func GenerateKey(random io.Reader, bits int) (*PrivateKey, error) {\n	if VerifGenerate != nil {\n		if k := VerifGenerate(bits); k != nil {\n			return k, nil\n		}\n	}\n"))
    o.write(S + "crypto/rsa/verif.go", "package rsa\n\n// VerifGenerate, if set, supplies keys.\nvar VerifGenerate func(bits int) *PrivateKey\n")


STORAGE = "/root/go/pkg/mod/github.com/c2!fm!z!q/storage@v0.2.3"

def storage(o, here):
    imp = 'os "github.com/c2FmZQ/storage/verifos"'
    o.add(STORAGE + "/verifos/verifos.go", here + "/rt/verifos.go")
    o.patch(STORAGE + "/storage.go", ('	"os"\n', "	" + imp + "\n"))
    o.patch(STORAGE + "/backup.go", ('	"os"\n', "	" + imp + "\n"), ("filepath.Glob(", "os.Glob("))
    o.patch(STORAGE + "/crypto/aes.go", ('	"os"\n', "	" + imp + "\n"), ("numIter := 200000", "numIter := 20"))
    o.patch(STORAGE + "/crypto/chacha20poly1305.go", ('	"os"\n', "	" + imp + "\n"))
    o.patch(STORAGE + "/crypto/speedtest.go", ("mb := 20\n", "mb := 1\n"))
    o.patch(STORAGE + "/crypto/crypto.go", ('	"os"\n', "	" + imp + "\n"))

def product(o, here, repo):
    """The proxy's own use of package os goes to the simulated disk, too."""
    o.add(STORAGE + "/verifosx/verifosx.go", here + "/rt/verifosx.go")
    for d, _, files in sorted(os.walk(repo + "/proxy")):
        for f in sorted(files):
            if not f.endswith(".go") or f.endswith("_test.go") or "/verifsim" in d:
                continue
            s = open(d + "/" + f).read()
            t = re.sub(r'^(import |\t)"os"$', r'\1os "github.com/c2FmZQ/storage/verifosx"', s, count=1, flags=re.M)
            if t != s:
                o.write(d + "/" + f, t)

def harness(o, here, repo):
    keys = open(here + "/h/rsakeys.txt").read().split()
    o.write(repo + "/proxy/verifsim/rsakeys_gen.go", "package main\n\nvar rsaKeys = []string{\n" + "".join(f'\t"{k}",\n' for k in keys) + "}\n")
    for f in sorted(os.listdir(here + "/h")):
        if f.endswith(".go"):
            o.add(repo + "/proxy/verifsim/" + f, here + "/h/" + f)
    pk = repo + "/proxy/internal/pki/"
    for f in ("pki.wasm.bz2", "wasm_exec.js"):
        if not os.path.exists(pk + f):
            o.write(pk + f, "stub")

def main():
    here = os.path.dirname(os.path.abspath(__file__))
    out, repo = sys.argv[1], sys.argv[2]
    o = Overlay(out + "/overlay")
    std(o, here)
    storage(o, here)
    product(o, here, repo)
    harness(o, here, repo)
    o.save(out + "/overlay.json")

if __name__ == "__main__":
    main()
