package main

// A small world around one proxy process: starting, crashing, stopping and
// reconfiguring it, and its wall clock.

import (
	"context"
	"errors"
	"net/http"
	"runtime"
	"sync"
	"time"

	"github.com/c2FmZQ/storage/verifos"
	"github.com/c2FmZQ/tlsproxy/proxy"
)

type mini struct {
	w     *World
	prop  string
	addr  string
	make  func() (*proxy.Proxy, error) // runs in the proxy's node
	cfg   func() *proxy.Config
	tr    func() http.RoundTripper
	smu   sync.Mutex // one restart or reconfiguration at a time
	mm    sync.Mutex
	node  uint32
	p     *proxy.Proxy
	walls []wallStep
	downs []span
	boots []time.Duration // when each process started
	lock  string          // a lock file to look for at each start
	locks []time.Duration // the starts when it was there
	watch bool
}

func newMini(w *World, prop string) *mini {
	return &mini{w: w, prop: prop, walls: []wallStep{{0, 0}}}
}

// boot starts a process.
func (m *mini) boot() error {
	w := m.w
	node := w.newNode("10.0.0.1")
	m.mm.Lock()
	m.node = node
	runtime.VerifSetWallOffset(node, m.walls[len(m.walls)-1].off)
	m.boots = append(m.boots, w.since())
	if m.lock != "" {
		if _, ok := verifos.RawRead(m.lock); ok { // left behind
			m.locks = append(m.locks, w.since())
		}
	}
	m.mm.Unlock()
	// What is left of the previous process does not live in this one.
	if m.tr != nil {
		http.DefaultTransport = m.tr()
	} else {
		http.DefaultTransport = newTransport()
	}
	var err error
	var p *proxy.Proxy
	if !w.in(node, func() {
		if p, err = m.make(); err == nil {
			err = p.Start(context.Background())
		}
	}) {
		return context.Canceled
	}
	if err != nil {
		w.crash(node)
		return err
	}
	m.mm.Lock()
	m.p = p
	m.mm.Unlock()
	if m.watch {
		w.net.watch(node)
	}
	return nil
}

func newTransport() *http.Transport {
	return &http.Transport{ForceAttemptHTTP2: true, MaxIdleConns: 100, IdleConnTimeout: 90 * time.Second, TLSHandshakeTimeout: 10 * time.Second, ExpectContinueTimeout: time.Second}
}

// restart stops the process, by force or by its own means, and starts another.
func (m *mini) restart(graceful bool, grace, down time.Duration) bool {
	w := m.w
	m.smu.Lock()
	defer m.smu.Unlock()
	m.mm.Lock()
	p, node := m.p, m.node
	m.downs = append(m.downs, span{w.since(), 1 << 62})
	di := len(m.downs) - 1
	m.mm.Unlock()
	if graceful {
		w.ev("stopping")
		w.in(node, func() {
			ctx, cancel := context.WithTimeout(context.Background(), grace)
			defer cancel()
			p.Shutdown(ctx)
		})
	}
	w.crash(node)
	time.Sleep(down)
	err := m.boot()
	for i := 0; i < 5 && errors.Is(err, context.Canceled); i++ { // it died of a fault
		time.Sleep(time.Second)
		err = m.boot()
	}
	m.mm.Lock()
	m.downs[di].to = w.since()
	m.mm.Unlock()
	if err != nil {
		w.violate(m.prop, "start", "the proxy does not start any more: %v", err)
		return false
	}
	w.probe("restarted")
	w.ev("restarted as node %d", m.node)
	return true
}

// reconf gives the process another configuration.
func (m *mini) reconf() error {
	m.smu.Lock()
	defer m.smu.Unlock()
	m.mm.Lock()
	p, node := m.p, m.node
	m.mm.Unlock()
	var err error
	if !m.w.in(node, func() { err = p.Reconfigure(m.cfg()) }) {
		return context.Canceled
	}
	m.w.ev("reconfigured err=%v", err != nil)
	return err
}

// wasDown tells whether the process was down, or went down, in an interval.
func (m *mini) wasDown(from, to time.Duration) bool {
	m.mm.Lock()
	defer m.mm.Unlock()
	for _, d := range m.downs {
		if d.from <= to && from <= d.to {
			return true
		}
	}
	return false
}

// jump moves the wall clock of the proxy's machine.
func (m *mini) jump(d time.Duration) {
	m.mm.Lock()
	off := m.walls[len(m.walls)-1].off + int64(d)
	m.walls = append(m.walls, wallStep{m.w.since(), off})
	node := m.node
	m.mm.Unlock()
	runtime.VerifSetWallOffset(node, off)
	m.w.fault("clock-jump")
	m.w.ev("the proxy's wall clock jumps by %v", d)
}

// wall is the range of the proxy's wall clock over an interval, as an offset
// to the start of the simulation.
func (m *mini) wall(from, to time.Duration) (lo, hi time.Duration) {
	lo, hi = 1<<62, -1<<62
	m.mm.Lock()
	defer m.mm.Unlock()
	for i, s := range m.walls {
		e := time.Duration(1 << 62)
		if i+1 < len(m.walls) {
			e = m.walls[i+1].at
		}
		b, t := max(s.at, from), min(e, to)
		if b > t {
			continue
		}
		lo, hi = min(lo, b+time.Duration(s.off)), max(hi, t+time.Duration(s.off))
	}
	return
}

// jumped tells whether the wall clock moved in an interval.
func (m *mini) jumped(from, to time.Duration) bool {
	m.mm.Lock()
	defer m.mm.Unlock()
	for _, s := range m.walls[1:] {
		if s.at >= from && s.at <= to {
			return true
		}
	}
	return false
}
