package main

// Runs an edge plan: the proxy, its clients and servers, faults, and the
// phases every run goes through.

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"syscall"
	"time"
)

type dialRec struct {
	at   time.Duration
	addr string
	kind string
}

type phaseT struct {
	quiet time.Duration // all clients gone, and faults over
	probe time.Duration
}

func (e *edge) installFaults() {
	w := e.w
	base := w.since()
	e.base = base
	for _, f := range w.plan.Faults {
		f := f
		switch f.K {
		case "part":
			at := time.Duration(f.A) * time.Millisecond
			a, b, _ := strings.Cut(f.S, "|")
			e.parts = append(e.parts, [2]time.Duration{base + at, base + at + time.Duration(f.B)*time.Millisecond})
			e.partWho = append(e.partWho, [2]string{a, b})
			go func() {
				time.Sleep(at)
				w.ev("partition %s for %dms", f.S, f.B)
				w.fault("partition")
				w.net.addPartition(a, b, time.Duration(f.B)*time.Millisecond)
			}()
		case "accept":
			go func() {
				time.Sleep(time.Duration(f.A) * time.Millisecond)
				w.net.mu.Lock()
				l := w.net.listeners[e.addr]
				w.net.mu.Unlock()
				if l == nil {
					return
				}
				for i := int64(0); i < f.N; i++ {
					w.fault("accept-error")
					l.injectAcceptError([]error{syscall.ECONNABORTED, syscall.EMFILE, syscall.ENFILE, syscall.ENOBUFS}[i%4])
				}
			}()
		case "srvreset": // a backend server drops all its connections
			go func() {
				time.Sleep(time.Duration(f.A) * time.Millisecond)
				w.fault("server-drops-all")
				w.ev("server %d drops all connections", f.N)
				ip := fmt.Sprintf("10.1.0.%d", f.N+1)
				w.net.mu.Lock()
				for _, p := range w.net.conns {
					if p.ep[1].local.IP.String() == ip && !(p.ep[0].closed && p.ep[1].closed) {
						p.resetLocked()
						p.disturbed = true
					}
				}
				w.net.mu.Unlock()
			}()
		}
	}
	w.net.onDial = func(node uint32, from, to string, nth int) (*dialFault, []connFault) {
		if node != e.node || node == 0 {
			return nil, nil
		}
		k := int64(len(e.dials))
		now := w.since() - base
		e.dials = append(e.dials, dialRec{at: w.since(), addr: to})
		var df *dialFault
		var cf []connFault
		if e.quiet > 0 {
			return nil, nil
		}
		for _, f := range w.plan.Faults {
			switch f.K {
			case "dial":
				if f.N == k {
					df = &dialFault{Kind: f.S, Dur: time.Duration(f.A) * time.Millisecond}
				}
			case "down":
				if strings.HasPrefix(to, fmt.Sprintf("10.1.0.%d:", f.N+1)) {
					a, b := time.Duration(f.A)*time.Millisecond, time.Duration(f.A+f.B)*time.Millisecond
					if now >= a && now < b {
						df = &dialFault{Kind: f.S}
					}
				}
			case "bconn":
				if f.N == k {
					kind, dir, _ := strings.Cut(f.S, "-")
					cf = append(cf, connFault{Kind: kind, Dir: dir, After: f.A, Dur: time.Duration(f.B) * time.Millisecond})
				}
			}
		}
		if df != nil {
			e.dials[k].kind = df.Kind
			if df.Kind == "lat" && df.Dur >= time.Second-100*time.Millisecond {
				e.dials[k].kind = "slow" // longer than a forward timeout may be
			}
		}
		return df, cf
	}
}

// clientFaults attaches the plan's faults to a client connection.
func (e *edge) clientFaults(op int, sc *simConn) {
	for _, f := range e.w.plan.Faults {
		if f.K == "cconn" && int(f.N) == op {
			kind, dir, _ := strings.Cut(f.S, "-")
			d := 0
			if dir == "down" {
				d = 1
			}
			e.w.net.mu.Lock()
			sc.pair.pipe[d].faults = append(sc.pair.pipe[d].faults, connFault{Kind: kind, Dir: dir, After: f.A, Dur: time.Duration(f.B) * time.Millisecond})
			e.w.net.mu.Unlock()
		}
	}
}

func runEdge(w *World) {
	e := newEdge(w)
	if !e.startProxy(0) {
		return
	}
	w.ev("started")
	w.net.watch(e.node)
	w.perturb()
	e.installFaults()
	lastFault := time.Duration(0)
	for _, f := range w.plan.Faults {
		if f.K == "down" || f.K == "part" || f.K == "accept" || f.K == "srvreset" {
			d := f.A
			if f.K == "down" || f.K == "part" {
				d += f.B
			}
			lastFault = max(lastFault, time.Duration(d)*time.Millisecond)
		}
	}
	var ctl []int
	for i, op := range w.plan.Ops {
		i, op := i, op
		switch op.K {
		case "conn":
			e.wg.Add(1)
			go func() {
				defer e.wg.Done()
				time.Sleep(time.Duration(op.At) * time.Millisecond)
				e.runConn(i, op.Conn)
			}()
		case "http":
			e.wg.Add(1)
			go func() {
				defer e.wg.Done()
				time.Sleep(time.Duration(op.At) * time.Millisecond)
				e.runHConn(i, op.HC)
			}()
		default:
			ctl = append(ctl, i)
		}
	}
	sort.SliceStable(ctl, func(a, b int) bool { return w.plan.Ops[ctl[a]].At < w.plan.Ops[ctl[b]].At })
	e.wg.Add(1)
	go func() {
		defer e.wg.Done()
		for _, i := range ctl {
			op := w.plan.Ops[i]
			if d := e.base + time.Duration(op.At)*time.Millisecond - w.since(); d > 0 {
				time.Sleep(d)
			}
			switch op.K {
			case "reconf":
				if e.shutAt < 0 && int(op.A) < len(e.cfgs) {
					e.reconfigure(int(op.A))
				}
			case "shutdown":
				if e.shutAt < 0 {
					e.shutdown(time.Duration(op.A) * time.Millisecond)
				}
			}
		}
	}()
	if !w.within(8*time.Hour, e.wg.Wait) {
		e.mu.Lock()
		for _, r := range e.conns {
			if !r.done {
				w.violate(e.prop, "stuck", "connection %d never ended", r.Op)
				break
			}
		}
		for _, r := range e.hconns {
			if !r.done {
				w.violate(e.prop, "stuck", "HTTP connection %d never ended", r.Op)
				break
			}
		}
		e.mu.Unlock()
		if len(w.res.Violations) == 0 {
			w.violate(e.prop, "stuck", "reconfiguration or shutdown never returned")
		}
		e.oracle()
		return
	}
	w.calm()
	if d := e.base + lastFault - w.since(); d > 0 {
		time.Sleep(d)
	}
	e.quiet = w.since()
	w.net.clearFaults()
	if e.shutAt < 0 {
		// The disturbance is over: normal service must come back.
		stall := time.Duration(0) // stalls that have begun go on
		for _, f := range w.plan.Faults {
			if strings.HasPrefix(f.S, "stall") {
				stall = max(stall, time.Duration(f.B)*time.Millisecond)
			}
		}
		time.Sleep(30*time.Second + stall)
		e.probes()
		// Idle connections time out after this.
		time.Sleep(3*time.Minute + e.maxHalf())
		e.leaks("P07", "idle")
		e.shutdown(time.Minute)
	}
	time.Sleep(2*time.Minute + e.maxHalf())
	e.leaks("P07", "shutdown")
	w.net.mu.Lock()
	for k, l := range w.net.listeners {
		if l.node == e.node {
			w.violate("P07", "listener-open", "%s is still open after shutdown", k)
		}
	}
	w.net.mu.Unlock()
	e.oracle()
}

func (e *edge) shutdown(d time.Duration) {
	w := e.w
	e.shutAt = w.since()
	e.shutDl = e.shutAt + d
	w.ev("shutdown called, deadline %v", d)
	w.probe("shutdown")
	done := make(chan struct{})
	go func() {
		w.in(e.node, func() {
			ctx, cancel := context.WithTimeout(context.Background(), d)
			defer cancel()
			e.p.Shutdown(ctx)
		})
		close(done)
	}()
	t := time.NewTimer(d + time.Minute)
	defer t.Stop()
	select {
	case <-done:
		e.shutRet = w.since()
		w.ev("shutdown returned")
	case <-t.C:
		w.violate("P07", "shutdown-hangs", "Shutdown has not returned a minute after its deadline of %v", d)
	}
	// (A connection accepted at the last moment takes up to 30 s.)
	time.Sleep(45 * time.Second)
	if acc, _ := w.net.openByNode(e.node); len(acc) > 0 {
		w.violate("P07", "open-after-shutdown", "%d incoming connections are still open 45s after Shutdown returned, first from %s", len(acc), acc[0].remote)
	}
	w.check()
}

// maxHalf is the longest half-close timeout of the run.
func (e *edge) maxHalf() time.Duration {
	var m time.Duration
	for _, c := range e.cfgs {
		for _, b := range c.Be {
			m = max(m, time.Duration(b.HalfMs)*time.Millisecond)
		}
	}
	return m
}

func (e *edge) leaks(prop, when string) {
	acc, dialed := e.w.net.openByNode(e.node)
	e.w.check()
	if len(acc) > 0 {
		e.w.violate(prop, "leak-in-"+when, "%d incoming connections are still open (%s), first from %s", len(acc), when, acc[0].remote)
	}
	if len(dialed) > 0 {
		e.w.violate(prop, "leak-out-"+when, "%d outgoing connections are still open (%s), first to %s", len(dialed), when, dialed[0].remote)
	}
}

// probes checks that every backend of the current configuration serves.
func (e *edge) probes() {
	cfg := e.vers[len(e.vers)-1].spec
	seen := map[string]bool{}
	for i := range cfg.Be {
		b := &cfg.Be[i]
		sn := b.Names[0]
		if seen[sn] {
			continue
		}
		seen[sn] = true
		alpn := e.alpnFor(b)
		src := e.srcFor(cfg, b)
		cert := e.certFor(b)
		if src == "" || (len(b.CAs) > 0 && cert == 0) {
			continue
		}
		op := 900000 + i*100
		if cfg.MaxOpen > 0 {
			// Make room for it.
			full := true
			for j := 0; j < 60 && full; j++ {
				time.Sleep(time.Second)
				acc, _ := e.w.net.openByNode(e.node)
				full = len(acc) > 0
			}
			if full {
				e.w.probe("no-room-to-probe")
				continue
			}
		}
		e.w.check()
		if b.Mode == "HTTP" || b.Mode == "HTTPS" {
			hc := &HConnSpec{Src: src, SNI: sn, ALPN: alpn, Cert: cert, Reqs: []ReqSpec{{Down: 100}}}
			ok := e.w.within(5*time.Minute, func() { e.runHConn(op, hc) })
			e.mu.Lock()
			r := e.hconns[len(e.hconns)-1]
			e.mu.Unlock()
			if !ok || r.reqs[0].status != 200 || !r.reqs[0].complete {
				e.w.violate("P09", "not-served-after", "after the disturbance a request for %s got status %d, err %v %v", sn, r.reqs[0].status, r.err, r.reqs[0].err)
			}
			continue
		}
		cs := &ConnSpec{Src: src, SNI: sn, ALPN: alpn, Cert: cert, Up: 100, Down: 100, End: "close", SrvEnd: "eof"}
		ok := e.w.within(5*time.Minute, func() { e.runConn(op, cs) })
		e.mu.Lock()
		r := e.conns[len(e.conns)-1]
		e.mu.Unlock()
		if !ok || r.greeted < 0 || r.got != 100 {
			e.w.violate("P09", "not-served-after", "after the disturbance a connection to %s was not served: greeted=%d got=%d alert=%#x err=%v dial=%v", sn, r.greeted, r.got, r.alert, r.err, r.dialErr)
		}
	}
}

func (e *edge) alpnFor(b *BeSpec) []string {
	if b.ALPN == nil {
		if b.Mode == "HTTP" || b.Mode == "HTTPS" {
			return []string{"http/1.1"}
		}
		return []string{"h2"}
	}
	return *b.ALPN
}

func (e *edge) certFor(b *BeSpec) int {
	if len(b.CAs) == 0 {
		return 0
	}
	for i := range e.certs {
		if e.certOK(b, i+1) {
			return i + 1
		}
	}
	return 0
}

var probeIPs = []string{"203.0.113.9", "192.0.2.1", "192.0.2.77", "198.51.100.5", "10.5.0.1", "2001:db8::1", "192.0.2.129"}

func (e *edge) srcFor(cfg *CfgSpec, b *BeSpec) string {
	for _, ip := range probeIPs {
		if ipAllowed(b, ip) && !ipIn(cfg.Trust, ip) {
			return ip
		}
	}
	return ""
}
