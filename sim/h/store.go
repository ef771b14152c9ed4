package main

// The storage world: a proxy with certificate authorities and passkeys whose
// process crashes and restarts, and whose disk fails. It extends the single
// sign-on world.

import (
	"bytes"
	"context"
	"crypto"
	"fmt"
	"io"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/c2FmZQ/storage/verifos"
	"github.com/c2FmZQ/tlsproxy/proxy"
)

// StoreSpec is the storage part of a plan.
type StoreSpec struct {
	PKI      []PKISpec `json:"pki,omitempty"`
	SSH      string    `json:"ssh,omitempty"` // key type
	SSHs     []string  `json:"sshs,omitempty"`
	Users    []int     `json:"users"` // user of each browser
	Passkey  bool      `json:"passkey,omitempty"`
	RefreshS int64     `json:"refresh,omitempty"`
	EndCrash int64     `json:"endcrash,omitempty"` // at the end: 0 nothing, 1 restart, 2 crash
	DownMs   []int64   `json:"down"`
	ACL      int64     `json:"acl,omitempty"` // of the passkey endpoint
	Disk     bool      `json:"disk,omitempty"`
}

type PKISpec struct {
	Name    string `json:"name"`
	KeyType string `json:"kt"`
	// The key types of the configurations that follow the first one.
	KeyTypes []string `json:"kts,omitempty"`
	Admins   []string `json:"admins,omitempty"`
}

type span struct{ from, to time.Duration }

type fsEvent struct {
	span
	amb  bool
	kind string
}

type store struct {
	*auth
	ss     *StoreSpec
	sup    sync.WaitGroup
	supEnd chan struct{}
	smu    sync.Mutex // one restart or reconfiguration at a time
	up     chan struct{}
	armed  []*armedFault
	events []*fsEvent
	downs  []span // the proxy was not running
	locks  []span // a stale storage lock may be in the way
	nboot  int
	nconf  int
	back   bool // the wall clock was set back
	full   span

	onReconf func(op *Op) func()
	keys     map[int64]crypto.Signer

	pk *pkiModel
	sm *sshModel
	dm *diskModel
	km *keyModel
	tm *tokModel

	written  []writeRec
	secrets  [][]byte
	scanned  int
	tampered bool
}

type writeRec struct {
	path string
	data []byte
}

type armedFault struct {
	Fault
	after time.Duration
	cnt   int64
	fired bool
}

func newStore(w *World) *store {
	s := &store{auth: newAuth(w, w.plan.Auth), ss: w.plan.Store, supEnd: make(chan struct{})}
	s.extra = s.config
	if s.ss.Disk {
		s.scanWrites()
	}
	return s
}

func (s *store) host(h string) string { return h + ".example.com" }

// keyType returns the key type to configure: the first one, then each of others
// in turn.
func (s *store) keyType(first string, others []string) string {
	if n := s.nconf - 2; n >= 0 && len(others) > 0 {
		return others[n%len(others)]
	}
	return first
}

// config adds to a configuration what the single sign-on world does not have.
func (s *store) config(c *proxy.Config) {
	s.nconf++
	c.MaxOpen = 1000 + s.nconf
	var names []string
	for i, p := range s.ss.PKI {
		names = append(names, p.Name)
		pre := fmt.Sprintf("https://ca.example.com/p%d", i)
		c.PKI = append(c.PKI, &proxy.ConfigPKI{
			Name: p.Name, KeyType: s.keyType(p.KeyType, p.KeyTypes), Admins: p.Admins,
			Endpoint:               pre + "/certs",
			IssuingCertificateURLs: []string{pre + "/ca.pem"},
			CRLDistributionPoints:  []string{pre + "/crl.pem", pre + "/crl.der"},
			OCSPServer:             []string{pre + "/ocsp"},
		})
	}
	if s.ss.SSH != "" {
		c.SSHCertificateAuthorities = append(c.SSHCertificateAuthorities, &proxy.ConfigSSHCertificateAuthority{
			Name: "ssh", KeyType: s.keyType(s.ss.SSH, s.ss.SSHs), PublicKeyEndpoint: "https://ca.example.com/ssh/pub", CertificateEndpoint: "https://ca.example.com/ssh/cert",
		})
	}
	if s.ss.Passkey {
		c.PasskeyProviders = append(c.PasskeyProviders, &proxy.ConfigPasskey{
			Name: "pk", IdentityProvider: s.spec.Provs[0].Name, RefreshInterval: time.Duration(s.ss.RefreshS) * time.Second,
			Endpoint: "https://pk.example.com/passkey", Domain: "example.com",
		})
	}
	for _, be := range c.Backends {
		switch be.ServerNames[0] {
		case "mtls.example.com":
			be.ClientAuth = &proxy.ClientAuth{RootCAs: names}
		case "fwd.example.com":
			be.Addresses = []string{"10.1.1.1:8443"}
			be.ForwardServerName = "srv.internal"
			be.ForwardRootCAs = names
		case "ca.example.com":
			be.ExportJWKS = "/jwks"
		case "pk.example.com":
			be.SSO = &proxy.BackendSSO{Provider: "pk", SetUserIDHeader: true}
			if s.km != nil && s.km.acl != nil {
				be.SSO.ACL = s.km.acl
			}
		}
	}
}

// boot starts the proxy's first process.
func (s *store) boot() bool {
	if !s.startProxy(0) {
		return false
	}
	s.w.net.watch(s.node)
	verifos.Hook = s.fsHook
	s.sup.Add(1)
	go s.supervise()
	return true
}

// fsHook decides what happens to a file system operation of the proxy.
func (s *store) fsHook(op verifos.Op) verifos.Action {
	ok := verifos.Action{Keep: -1}
	s.mu.Lock()
	defer s.mu.Unlock()
	if op.Node != s.node || op.Node == 0 || s.w.isDead(op.Node) {
		return ok
	}
	now := s.w.since()
	mut := op.N > 0
	note := func(kind string, amb bool, d time.Duration) {
		s.w.fault("fs-" + kind)
		s.w.ev("fs fault %s on %s %s", kind, op.Name, op.Path)
		s.events = append(s.events, &fsEvent{span{now, now + d}, amb, kind})
		if strings.HasSuffix(op.Path, ".lock") {
			s.locks = append(s.locks, span{now, now + 700*time.Second})
		}
	}
	if now >= s.full.from && now < s.full.to && (op.Name == "create" || op.Name == "write") {
		note("full", false, 0)
		a := ok
		a.Err = syscall.ENOSPC
		if op.Name == "write" && op.Size > 1 {
			a.Keep = op.Size / 2
		}
		return a
	}
	for _, f := range s.armed {
		if f.fired || now < f.after {
			continue
		}
		mode, match, _ := strings.Cut(f.S, "|")
		if match != "" && !strings.Contains(op.Name+" "+op.Path, match) {
			continue
		}
		if (mode == "rerr") == mut || mode == "rerr" && op.Name != "read" && op.Name != "open" {
			continue
		}
		if mode == "part" && op.Name != "write" {
			continue
		}
		f.cnt++
		if f.cnt < f.N {
			continue
		}
		f.fired = true
		a := ok
		switch mode {
		case "err":
			a.Err = syscall.EIO
			a.Keep = 0
			note("error", op.Name == "remove", 0)
		case "part":
			a.Err = syscall.ENOSPC
			a.Keep = int(f.B) % max(1, op.Size)
			note("short-write", false, 0)
		case "after":
			if op.Name == "link" || op.Name == "write" {
				a.Err = syscall.EIO
				a.Keep = 0
				note("error", true, 0)
				break
			}
			a.Err = syscall.EIO
			a.After = true
			note("late-error", true, 0)
		case "crash0":
			a.Crash = true
			a.Keep = 0
			note("crash-before", true, 0)
		case "crash1":
			a.Crash = true
			a.After = true
			note("crash-after", true, 0)
		case "torn":
			a.Crash = true
			a.Keep = int(f.B) % max(1, op.Size)
			note("torn-write", true, 0)
		case "delay":
			a.Delay = time.Duration(f.B) * time.Millisecond
			note("delay", false, a.Delay)
		case "rerr":
			a.Err = syscall.EIO
			note("read-error", false, 0)
		}
		return a
	}
	return ok
}

// supervise starts the proxy again whenever it dies.
func (s *store) supervise() {
	defer s.sup.Done()
	for {
		s.mu.Lock()
		node := s.node
		s.mu.Unlock()
		s.w.mu.Lock()
		ch := s.w.crashed[node]
		s.w.mu.Unlock()
		select {
		case <-s.supEnd:
			return
		case <-ch:
		}
		s.restart()
	}
}

// noteLocks records that storage locks were left behind.
func (s *store) noteLocks() {
	for _, f := range verifos.List() {
		if strings.HasSuffix(f, ".lock") {
			s.w.probe("lock-left-behind")
			s.locks = append(s.locks, span{s.w.since(), s.w.since() + 1500*time.Second})
			return
		}
	}
}

func (s *store) restart() {
	w := s.w
	down := &span{max(0, w.since()-time.Second), 1 << 62} // it died a moment ago
	s.mu.Lock()
	s.noteLocks()
	s.downs = append(s.downs, *down)
	di := len(s.downs) - 1
	s.mu.Unlock()
	d := int64(100)
	if len(s.ss.DownMs) > 0 {
		d = s.ss.DownMs[s.nboot%len(s.ss.DownMs)]
	}
	s.nboot++
	time.Sleep(time.Duration(d) * time.Millisecond)
	s.damage()
	for try := 0; ; try++ {
		node := w.newNode("10.0.0.1")
		if node > 60 {
			w.violate(s.prop, "start", "the proxy did not start in %d attempts", try)
			return
		}
		s.mu.Lock()
		s.node = node
		runtime.VerifSetWallOffset(node, s.walls[len(s.walls)-1].off)
		s.mu.Unlock()
		from := w.since()
		var err error
		var p *proxy.Proxy
		alive := w.in(node, func() {
			p, err = proxy.NewTestProxy(s.proxyConfig(0))
			if err == nil {
				err = p.Start(context.Background())
			}
		})
		if alive && err == nil {
			s.mu.Lock()
			s.p = p
			now := w.since()
			s.downs[di].to = now
			for _, v := range s.vers {
				if v.until > now {
					v.until = now
				}
			}
			s.vers = append(s.vers, &authVer{n: len(s.vers), spec: &s.spec.Cfgs[0], from: down.from, ret: now, until: 1 << 62})
			s.mu.Unlock()
			w.net.watch(node)
			w.probe("restarted")
			w.ev("restarted as node %d", node)
			return
		}
		if alive {
			w.ev("start failed: %v", err)
			w.probe("start-failed")
			if s.damaged() {
				s.repair(false)
			} else if !s.faulted(from, w.since()) {
				w.violate(s.prop, "start", "the proxy does not start any more: %v", err)
			}
			w.crash(node)
		}
		s.mu.Lock()
		s.noteLocks()
		s.mu.Unlock()
		time.Sleep(time.Duration(5+25*try) * time.Second)
	}
}

// faulted reports whether the disk failed in an interval.
func (s *store) faulted(from, to time.Duration) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.faultedLocked(from, to)
}

func (s *store) faultedLocked(from, to time.Duration) bool {
	for _, e := range s.events {
		if e.from <= to && e.to >= from {
			return true
		}
	}
	return false
}

func overlaps(l []span, from, to time.Duration) bool {
	for _, x := range l {
		if x.from <= to && x.to >= from {
			return true
		}
	}
	return false
}

// ambiguous reports whether a failure in an interval may have taken effect.
func (s *store) ambiguous(from, to time.Duration) bool {
	for _, e := range s.events {
		if e.amb && e.from <= to && e.to >= from {
			return true
		}
	}
	return overlaps(s.downs, from, to)
}

// quiet reports whether nothing was wrong with the proxy and its disk in an
// interval.
func (s *store) quiet(from, to time.Duration) bool {
	return !s.faultedLocked(from, to) && !overlaps(s.downs, from, to) && !overlaps(s.locks, from, to)
}

const (
	outNone = iota // certainly no effect
	outAck
	outUnknown
)

// graceful stops the proxy in order; the supervisor starts the next one.
func (s *store) graceful() {
	s.smu.Lock()
	defer s.smu.Unlock()
	s.waitUp()
	s.mu.Lock()
	node, p := s.node, s.p
	i := len(s.downs)
	s.downs = append(s.downs, span{s.w.since(), 1 << 62})
	s.mu.Unlock()
	s.w.fault("restart")
	s.w.ev("graceful restart")
	s.w.in(node, func() {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		p.Shutdown(ctx)
	})
	if !s.w.isDead(node) {
		s.w.mu.Lock()
		s.w.res.Faults["crash"]--
		s.w.mu.Unlock()
	}
	s.w.crash(node)
	s.mu.Lock()
	s.downs[i].to = s.w.since()
	s.mu.Unlock()
	s.waitUp()
}

// waitUp waits until the proxy runs.
func (s *store) waitUp() {
	for {
		s.mu.Lock()
		up := true
		for _, d := range s.downs {
			if d.to == 1<<62 {
				up = false
			}
		}
		up = up && !s.w.isDead(s.node)
		s.mu.Unlock()
		if up {
			return
		}
		time.Sleep(time.Second)
	}
}

func (s *store) crashNow() {
	s.mu.Lock()
	node := s.node
	s.mu.Unlock()
	s.w.crash(node)
}

// reconf applies a configuration that differs only in what nobody depends on.
func (s *store) reconf(op *Op) {
	s.smu.Lock()
	defer s.smu.Unlock()
	s.waitUp()
	if s.onReconf != nil {
		defer s.onReconf(op)()
	}
	s.mu.Lock()
	node, p := s.node, s.p
	s.vers = append(s.vers, &authVer{n: len(s.vers), spec: &s.spec.Cfgs[0], from: s.w.since(), ret: 1 << 62, until: 1 << 62})
	v := s.vers[len(s.vers)-1]
	s.mu.Unlock()
	from := s.w.since()
	var err error
	s.w.ev("reconfigure called")
	alive := s.w.in(node, func() { err = p.Reconfigure(s.proxyConfig(0)) })
	now := s.w.since()
	s.w.ev("reconfigure returned alive=%v err=%v", alive, err != nil)
	s.w.probe("reconfigure")
	s.mu.Lock()
	defer s.mu.Unlock()
	v.ret = now
	if alive && err != nil && s.quiet(from, now) {
		s.w.violate(s.prop, "reconfigure", "a configuration was rejected: %v", err)
	}
}

// jumpTo moves the wall clock.
func (s *store) jumpBy(d time.Duration) {
	if d < 0 {
		s.mu.Lock()
		s.back = true
		s.mu.Unlock()
	}
	s.jump(d)
}

func (s *store) user(b *browser) int { return s.ss.Users[b.idx%len(s.ss.Users)] }

// req sends a request, logging in first if the proxy wants it.
func (s *store) req(b *browser, u string, o reqOpt) *aReq {
	if o.kind == "" {
		o.kind = "st"
	}
	r := s.do(b, u, o)
	if o.noJar || r.err != nil {
		return r
	}
	if r.status == 302 && strings.HasPrefix(r.loc, "/.sso/login") || r.status == 403 && len(r.auth) == 0 || r.status == 403 && s.stale(r) {
		s.login(b, &AuOp{Host: "ca.example.com", Path: "/login-check", User: s.user(b)})
		o2 := o
		r = s.do(b, u, o2)
	}
	return r
}

// stale reports whether the identity that a request presented has expired.
func (s *store) stale(r *aReq) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	_, hi := s.wall(r.sent, r.done)
	for _, c := range r.auth {
		if t := s.tokOf[c]; t != nil && hi < float64(t.exp)-1 {
			return false
		}
	}
	return true
}

// start arms the plan's faults and runs the operations that are not a
// browser's.
func (s *store) start() {
	w := s.w
	s.base = w.since()
	s.mu.Lock()
	for _, f := range w.plan.Faults {
		switch f.K {
		case "fs":
			s.armed = append(s.armed, &armedFault{Fault: f, after: s.base + time.Duration(f.A)*time.Millisecond})
		case "fsfull":
			s.full = span{s.base + time.Duration(f.A)*time.Millisecond, s.base + time.Duration(f.A+f.B)*time.Millisecond}
		}
	}
	s.mu.Unlock()
	for i := range w.plan.Ops {
		op := &w.plan.Ops[i]
		var f func()
		switch op.K {
		case "crash":
			f = s.crashNow
		case "restart":
			f = s.graceful
		case "reconf":
			f = func() { s.reconf(op) }
		case "tamper":
			f = func() { s.tamper(op) }
		case "jump":
			f = func() { s.jumpBy(time.Duration(op.A) * time.Millisecond) }
		default:
			continue
		}
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			time.Sleep(time.Duration(op.At) * time.Millisecond)
			f()
		}()
	}
}

func globalOp(k string) bool {
	return k == "crash" || k == "restart" || k == "reconf" || k == "jump" || k == "tamper"
}

// run executes the browsers' operations and returns when all are done.
func (s *store) run(do func(b *browser, op *Op)) bool {
	w := s.w
	actors := map[int][]*Op{}
	var order []int
	for i := range w.plan.Ops {
		op := &w.plan.Ops[i]
		if globalOp(op.K) {
			continue
		}
		if actors[op.W] == nil {
			order = append(order, op.W)
		}
		actors[op.W] = append(actors[op.W], op)
	}
	for _, k := range order {
		ops := actors[k]
		b := s.brs[k%len(s.brs)]
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			for _, op := range ops {
				time.Sleep(time.Duration(op.At) * time.Millisecond)
				do(b, op)
			}
		}()
	}
	if !w.within(30*24*time.Hour, s.wg.Wait) {
		w.violate(s.prop, "stuck", "an operation never ended")
		return false
	}
	w.calm()
	w.net.clearFaults()
	s.mu.Lock()
	s.armed = nil
	s.full = span{}
	s.mu.Unlock()
	s.waitUp()
	switch s.ss.EndCrash {
	case 1:
		s.graceful()
	case 2:
		s.crashNow()
		time.Sleep(time.Second)
		s.waitUp()
	}
	s.mu.Lock()
	wait := time.Duration(0)
	for _, l := range s.locks {
		wait = max(wait, l.to-w.since())
	}
	s.mu.Unlock()
	if wait > 0 {
		time.Sleep(wait)
	}
	time.Sleep(20 * time.Second)
	return true
}

func (s *store) end() {
	for _, b := range s.brs {
		b.tr.CloseIdleConnections()
	}
	close(s.supEnd)
	s.sup.Wait()
	s.w.in(s.node, func() {
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		s.p.Shutdown(ctx)
	})
}

// judgeAll evaluates what every store scenario checks.
func (s *store) judgeAll() {
	s.mu.Lock()
	for _, r := range s.reqs {
		if !r.finished {
			r.done = s.w.since()
		}
		if !strings.HasPrefix(r.kind, "pk") {
			s.judgeReq(r)
		}
	}
	s.mu.Unlock()
	s.judgeWrites()
}

// may reports whether a request to a protected path may be admitted, and for
// which users; must whether it has to be.
func (s *store) admitted(r *aReq) (may, must bool, users map[int]bool) {
	users = map[int]bool{}
	must = true
	n := 0
	for _, v := range s.versions(r.sent, r.done) {
		be := v.spec.be(r.host)
		if be == nil {
			must = false
			continue
		}
		n++
		vd := s.judge(be, r)
		if vd.admMay {
			may = true
			for _, t := range vd.idMay {
				users[t.user] = true
			}
		}
		must = must && vd.admMust
	}
	must = must && n > 0
	return
}

// slow checks that a request did not take longer than it should have.
func (s *store) slow(r *aReq, prop string, own time.Duration) {
	if !s.quiet(r.sent, r.done) {
		return
	}
	s.w.check()
	if d := r.done - r.sent - own; d > 20*time.Second {
		s.w.violate(prop, "slow", "request %s %s https://%s%s took %.1fs although nothing was wrong with the disk", r.id, r.method, r.host, r.path, (r.done - r.sent).Seconds())
	}
}

type stallReader struct {
	data []byte
	at   int
	d    time.Duration
}

func (x *stallReader) Read(b []byte) (int, error) {
	if len(x.data) == 0 {
		return 0, io.EOF
	}
	if x.d > 0 && x.at == 0 {
		time.Sleep(x.d)
		x.d = 0
	}
	n := len(b)
	if x.at > 0 {
		n = min(n, x.at)
	}
	n = copy(b[:n], x.data)
	x.data = x.data[n:]
	x.at -= min(n, x.at)
	return n, nil
}

var _ = bytes.Equal
var _ = http.StatusOK
