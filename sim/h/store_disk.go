package main

// What reaches the disk (P20): every write is scanned, and files are damaged
// while the proxy is down.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/c2FmZQ/storage/crypto"
	"github.com/c2FmZQ/storage/verifos"
)

type diskModel struct {
	bad  map[string]bool   // files already reported
	pats map[string]string // what may not be on the disk
	pat  [][]byte
	n    int               // bytes scanned
	next *Op               // damage to do when the proxy is down
	old  map[string][]byte // content to restore
	dam  map[string][]byte // damaged content
	ev   *fsEvent
}

// forbid adds something that may not appear on the disk.
func (d *diskModel) forbid(what string, b []byte) {
	if len(b) < 6 {
		return
	}
	d.pats[string(b)] = what
	d.pats[hex.EncodeToString(b)] = what + ", in hexadecimal"
	for off := 0; off < 3; off++ { // base64, at each alignment
		p := append(bytes.Repeat([]byte{0}, off), b...)
		s := base64.StdEncoding.EncodeToString(p)
		from := []int{0, 2, 3}[off]
		to := len(p) * 8 / 6
		d.pats[s[from:to]] = what + ", in base64"
	}
}

// scanWrites looks at everything that reaches the disk.
func (s *store) scanWrites() {
	d := &diskModel{bad: map[string]bool{}, pats: map[string]string{}, dam: map[string][]byte{}}
	s.dm = d
	for _, p := range []string{"-----BEGIN ", "PRIVATE KEY", "CERTIFICATE"} {
		d.pats[p] = fmt.Sprintf("%q", p)
	}
	for what, h := range map[string]string{
		"an Ed25519 private key":   "302e020100300506032b657004220420",
		"an EC key":                "06082a8648ce3d0301",
		"an RSA key":               "06092a864886f70d0101",
		"a certificate extension":  "0603551d",
		"a certificate name":       "060355040",
		"an OCSP answer":           "06092b0601050507300101",
		"a COSE key":               "a5010203262001215820",
		"an ECDSA signature OID":   "06082a8648ce3d0403",
		"an Ed25519 public key":    "300506032b6570032100",
		"a user's name, as a hint": hex.EncodeToString([]byte("passkey_hash")),
	} {
		b, _ := hex.DecodeString(h[:len(h)/2*2])
		d.forbid(what, b)
	}
	for _, u := range auUsers {
		d.forbid("the e-mail address of a user", []byte(u.email))
		d.forbid("the id of a user", []byte(u.sub))
	}
	verifos.Written = func(name string, data []byte) {
		if len(data) == 0 {
			return
		}
		d.n += len(data)
		cur, ok := verifos.RawRead(name)
		if !ok {
			cur = data
		}
		s.scan(name, cur, max(0, len(cur)-len(data)-100))
	}
}

// scan looks at a file, of which the part before from was seen already.
func (s *store) scan(name string, b []byte, from int) {
	d := s.dm
	base := tmpName(path.Base(name))
	if d.bad[base] {
		return
	}
	bad := func(f string, args ...any) {
		d.bad[base] = true
		s.w.violate("P20", "plaintext", "the file %s %s", base, fmt.Sprintf(f, args...))
	}
	s.w.check()
	switch {
	case strings.HasSuffix(base, ".lock"):
		bad("holds data")
		return
	case strings.HasPrefix(base, "masterkey"):
	default:
		n := min(len(b), 4)
		if string(b[:n]) != "KRIN"[:n] || len(b) > 4 && b[4]&0x10 == 0 {
			bad("is written without encryption (it starts with %q)", b[:min(len(b), 16)])
			return
		}
	}
	if len(d.pat) != len(d.pats) {
		d.pat = nil
		for p := range d.pats {
			d.pat = append(d.pat, []byte(p))
		}
		sort.Slice(d.pat, func(i, j int) bool { return bytes.Compare(d.pat[i], d.pat[j]) < 0 })
	}
	body := b[from:]
	for _, p := range d.pat {
		if bytes.Contains(body, p) {
			bad("holds %s in clear", d.pats[string(p)])
			return
		}
	}
	if len(b) < 6 {
		return
	}
	body = b[max(from, 5):]
	run := 0
	for _, c := range body {
		if c >= 0x20 && c < 0x7f || c == '\n' {
			run++
		} else {
			run = 0
		}
		if run >= 32 {
			bad("holds text")
			return
		}
	}
	if len(body) >= 1280 {
		var h [256]float64
		for _, c := range body {
			h[c]++
		}
		e, x := float64(len(body))/256, 0.0
		for _, n := range h {
			x += (n - e) * (n - e) / e
		}
		if x > 255+12*math.Sqrt(510) {
			bad("holds data that is not random (chi-square %.0f over %d bytes)", x, len(body))
		}
	}
}

// tmpName removes what differs between runs from the name of a file.
func tmpName(n string) string {
	if i := strings.Index(n, ".tmp-"); i >= 0 {
		return n[:i] + ".tmp"
	}
	return n
}

// judgeWrites looks at the disk when all is over.
func (s *store) judgeWrites() {
	if s.dm == nil {
		return
	}
	w := s.w
	files := verifos.Snapshot()
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if b := files[n]; len(b) > 0 {
			s.scan(n, b, 0)
		}
	}
	const mk = "/simdisk/auth/test/masterkey"
	if _, ok := files[mk]; ok {
		opts := []crypto.Option{crypto.WithAlgo(crypto.PickFastest), crypto.WithLogger(quietLog{})}
		for _, p := range []string{"", "Test", "tes", "test2"} {
			w.check()
			if k, err := crypto.ReadMasterKey([]byte(p), mk, opts...); err == nil {
				k.Wipe()
				w.violate("P20", "passphrase", "the master key can be read with the passphrase %q", p)
			}
		}
		k, err := crypto.ReadMasterKey([]byte("test"), mk, opts...)
		w.check()
		if err != nil {
			w.violate("P20", "passphrase", "the master key cannot be read with its passphrase: %v", err)
		} else {
			k.Wipe()
		}
	}
	if s.dm.n > 0 {
		w.probe("disk-scanned")
	}
}

type quietLog struct{}

func (quietLog) Debug(...any)          {}
func (quietLog) Debugf(string, ...any) {}
func (quietLog) Info(...any)           {}
func (quietLog) Infof(string, ...any)  {}
func (quietLog) Error(...any)          {}
func (quietLog) Errorf(string, ...any) {}
func (quietLog) Fatal(a ...any)        { panic(fmt.Sprint(a...)) }
func (quietLog) Fatalf(f string, a ...any) {
	panic(fmt.Sprintf(f, a...))
}

// tamper damages files while the proxy is down. The caller restarts it.
func (s *store) tamper(op *Op) {
	s.smu.Lock()
	s.waitUp()
	s.mu.Lock()
	s.dm.next = op
	s.mu.Unlock()
	s.crashNow()
	time.Sleep(time.Second)
	s.waitUp()
	s.smu.Unlock()
	s.mu.Lock()
	n := len(s.dm.dam)
	s.mu.Unlock()
	if n == 0 {
		return
	}
	// It started with damaged files. That is fine as long as it does not
	// use or replace them.
	time.Sleep(time.Duration(op.D) * time.Millisecond)
	s.smu.Lock()
	defer s.smu.Unlock()
	s.waitUp()
	s.crashNow()
	time.Sleep(time.Second)
	s.waitUp()
}

// damage is called when the proxy is down.
func (s *store) damage() {
	d := s.dm
	if d == nil {
		return
	}
	if len(d.dam) > 0 {
		s.repair(true)
	}
	op := d.next
	d.next = nil
	if op == nil {
		return
	}
	files := verifos.Snapshot()
	var names []string
	for n, b := range files {
		if !strings.Contains(n, ".lock") && !strings.Contains(n, ".tmp-") && !strings.Contains(n, "stateless") && len(b) > 100 {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		return
	}
	n := names[int(op.A)%len(names)]
	old := files[n]
	b := append([]byte(nil), old...)
	switch op.S {
	case "flip":
		i := tamperAt(b, op.B)
		b[i] ^= 1 << (op.C % 8)
	case "flips":
		i := tamperAt(b, op.B)
		for k := i; k < len(b) && k < i+40; k++ {
			b[k] ^= byte(op.C*31 + int64(k))
		}
		b[i] ^= 0x55
	case "cut":
		b = b[:int(op.B)%len(b)]
	case "empty":
		b = nil
	case "zero":
		i := tamperAt(b, op.B)
		for k := i; k < len(b); k++ {
			b[k] = 0
		}
	case "swap":
		b = append([]byte(nil), files[names[int(op.A+1+op.B)%len(names)]]...)
	}
	if strings.HasSuffix(n, "masterkey") {
		// The work the key derivation takes is not authenticated: a damaged
		// count (or another version) keeps the start busy for hours.
		if op.S == "swap" {
			return
		}
		for _, i := range []int{0, 17, 18, 19, 20} {
			if i < len(b) {
				b[i] = old[i]
			}
		}
	}
	if bytes.Equal(b, old) {
		return
	}
	s.w.fault("disk-damage-" + op.S)
	s.w.ev("damage to %s: %s", n, op.S)
	d.old, d.dam = files, map[string][]byte{n: b}
	s.w.alias = "P20" // whatever goes wrong from now on
	d.ev = &fsEvent{span{s.w.since(), 1 << 62}, true, "damage"}
	s.mu.Lock()
	s.events = append(s.events, d.ev)
	s.mu.Unlock()
	verifos.RawWrite(n, b)
}

// tamperAt chooses where to damage a file: the header, the key, the content or
// the end.
func tamperAt(b []byte, n int64) int {
	switch n % 4 {
	case 0:
		return int(n/4) % 5
	case 1:
		return 5 + int(n/4)%140%(len(b)-5)
	case 2:
		return max(0, len(b)-1-int(n/4)%80)
	}
	return int(n/4) % len(b)
}

// repair undoes the damage if it is still there. started tells that the proxy
// started in spite of it.
func (s *store) repair(started bool) {
	d := s.dm
	for n, b := range d.dam {
		cur, ok := verifos.RawRead(n)
		switch {
		case ok && bytes.Equal(cur, b):
			verifos.RawWrite(n, d.old[n])
			if started {
				s.w.probe("damage-ignored")
			} else {
				s.w.probe("damage-detected")
			}
		case strings.HasSuffix(n, "/ocsp-cache"):
			s.w.probe("damaged-cache-replaced")
		default:
			s.w.violate("P20", "damage", "a damaged file %s was replaced instead of being reported", path.Base(n))
			verifos.RawWrite(n, d.old[n])
		}
	}
	d.dam = map[string][]byte{}
	s.mu.Lock()
	d.ev.to = s.w.since()
	s.mu.Unlock()
}

func (s *store) damaged() bool { return s.dm != nil && len(s.dm.dam) > 0 }

// genDisk is one of the other storage scenarios with damage to files.
func genDisk(r rng, tier string) *Plan {
	var p *Plan
	kind := r.n(5)
	switch kind {
	case 0:
		p = genKeys(r, tier)
	case 1:
		p = genTok(r, tier)
	default:
		p = genPKI(r, r.picks("p16", "p17", "p18"), tier)
	}
	p.Kind = kind
	p.Store.Disk = true
	// Every simulated minute takes memory: a few days are enough.
	span := int64(1000)
	tot := map[int]int64{}
	for _, o := range p.Ops {
		tot[o.W] += o.At
		span = max(span, o.At, tot[o.W])
	}
	if most := int64(4 * 24 * 3600_000); span > most {
		for i := range p.Ops {
			p.Ops[i].At = int64(float64(p.Ops[i].At) * float64(most) / float64(span))
		}
		span = most
	}
	if r.p(60) {
		p.Faults = nil
	}
	for i, n := 0, r.pick(0, 1, 1, 2, 3); i < n; i++ {
		p.Ops = append(p.Ops, Op{K: "tamper", At: int64(r.n(int(span) * 3 / 2)), A: int64(r.n(60)), B: int64(r.n(1 << 20)), C: int64(r.n(1000)), D: int64(r.pick(0, 1000, 20000, 60000)),
			S: r.picks("flip", "flip", "flips", "cut", "empty", "zero", "swap", "swap")})
	}
	return p
}

func init() {
	register(&Scenario{Name: "st-p20", Gen: func(r rng, tier string) *Plan { return genDisk(r, tier) }, Run: func(w *World) {
		switch w.plan.Kind {
		case 0:
			runKey(w)
		case 1:
			runTok(w)
		default:
			runPKI(w)
		}
	}, Horizon: 200 * 24 * time.Hour})
}
