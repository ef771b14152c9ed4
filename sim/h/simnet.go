package main

// A simulated TCP network. Every connection made or accepted through package
// net by any code in the process goes through here.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/netip"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"time"
)

// simLock is a lock that never yields: it is only held for short,
// non-blocking sections.
type simLock struct{ mu sync.Mutex }

func (l *simLock) Lock()   { l.mu.Lock() }
func (l *simLock) Unlock() { l.mu.Unlock() }

type connFault struct {
	Kind  string // reset, stall, chunk, lat
	Dir   string // "up" (dialer->listener) or "down"
	After int64  // bytes
	Dur   time.Duration
	N     int
}

type dialFault struct {
	Kind string // refuse, hang, lat
	Dur  time.Duration
}

type partition struct {
	a, b     string // host IPs; "" is any
	from, to time.Time
}

type simNet struct {
	mu        simLock
	w         *World
	listeners map[string]*simListener
	udp       map[string]*simUDP
	dns       map[string][]string
	nextPort  map[string]int
	conns     []*simConnPair
	parts     []partition
	baseLat   time.Duration
	jitter    time.Duration
	maxChunk  int
	bufCap    int
	seq       int

	// Called for every dial, with the dialer's node. Any of the results may be nil.
	onDial func(node uint32, from, to string, nth int) (*dialFault, []connFault)
	nDials map[string]int

	nodeIP   map[uint32]string // source address of a node's dials
	deadNode map[uint32]bool
	watched  uint32
}

func newSimNet(w *World) *simNet {
	n := &simNet{
		w:         w,
		listeners: map[string]*simListener{},
		udp:       map[string]*simUDP{},
		dns:       map[string][]string{},
		nextPort:  map[string]int{},
		nDials:    map[string]int{},
		baseLat:   time.Millisecond,
		jitter:    time.Millisecond,
		bufCap:    64 << 10,
		nodeIP:    map[uint32]string{0: "10.9.9.9"},
		deadNode:  map[uint32]bool{},
	}
	net.VerifDial = func(ctx context.Context, d *net.Dialer, network, address string) (net.Conn, error) {
		node := runtime.VerifNode()
		n.mu.Lock()
		ip := n.nodeIP[node]
		n.mu.Unlock()
		if d.LocalAddr != nil {
			if ta, ok := d.LocalAddr.(*net.TCPAddr); ok {
				ip = ta.IP.String()
			}
		}
		if t := d.Timeout; t > 0 {
			var cancel context.CancelFunc
			ctx, cancel = context.WithTimeout(ctx, t)
			defer cancel()
		}
		if !d.Deadline.IsZero() {
			var cancel context.CancelFunc
			ctx, cancel = context.WithDeadline(ctx, d.Deadline)
			defer cancel()
		}
		return n.dial(ctx, node, ip, network, address)
	}
	net.VerifListen = func(network, address string) (net.Listener, error) {
		l, err := n.listen(runtime.VerifNode(), network, address)
		if err != nil {
			return nil, err
		}
		return l, nil
	}
	return n
}

// gate parks the calling goroutine forever if its node has crashed.
func (n *simNet) gate(node uint32) {
	if node == 0 {
		return
	}
	n.mu.Lock()
	dead := n.deadNode[node]
	n.mu.Unlock()
	if dead {
		select {}
	}
}

func (n *simNet) crash(node uint32) {
	n.mu.Lock()
	n.deadNode[node] = true
	var keys []string
	for k, l := range n.listeners {
		if l.node == node {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		l := n.listeners[k]
		delete(n.listeners, k)
		for _, c := range l.queue {
			c.pair.resetLocked()
		}
		l.queue = nil
	}
	for _, p := range n.conns {
		if (p.ep[0].node == node && !p.ep[0].closed) || (p.ep[1].node == node && !p.ep[1].closed) {
			p.resetLocked()
		}
	}
	n.mu.Unlock()
}

type simListener struct {
	n      *simNet
	node   uint32
	addr   *net.TCPAddr
	key    string
	queue  []*simConn
	closed bool
	wait   chan struct{}
	errs   []error // injected accept errors
}

func (n *simNet) listen(node uint32, network, address string) (*simListener, error) {
	n.gate(node)
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	if host == "" || host == "localhost" {
		n.mu.Lock()
		host = n.nodeIP[node]
		n.mu.Unlock()
	}
	ip := net.ParseIP(host)
	if ip == nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: errors.New("bad address " + address)}
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	pn, _ := strconv.Atoi(port)
	if pn == 0 {
		pn = n.portLocked(ip.String())
	}
	key := net.JoinHostPort(ip.String(), strconv.Itoa(pn))
	if n.listeners[key] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &simListener{n: n, node: node, addr: &net.TCPAddr{IP: ip, Port: pn}, key: key, wait: make(chan struct{})}
	n.listeners[key] = l
	return l, nil
}

func (n *simNet) portLocked(host string) int {
	p := n.nextPort[host]
	if p == 0 {
		p = 20000
	}
	n.nextPort[host] = p + 1
	return p
}

func (l *simListener) Accept() (net.Conn, error) {
	for {
		l.n.gate(l.node)
		l.n.mu.Lock()
		if l.closed {
			l.n.mu.Unlock()
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		if len(l.errs) > 0 {
			err := l.errs[0]
			l.errs = l.errs[1:]
			l.n.mu.Unlock()
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: err}
		}
		if len(l.queue) > 0 {
			c := l.queue[0]
			l.queue = l.queue[1:]
			c.node = l.node
			c.pair.acceptAt = l.n.w.now()
			l.n.mu.Unlock()
			return c, nil
		}
		w := l.wait
		l.n.mu.Unlock()
		<-w
	}
}

func (l *simListener) wakeLocked() {
	close(l.wait)
	l.wait = make(chan struct{})
}

func (l *simListener) Close() error {
	l.n.gate(l.node)
	l.n.mu.Lock()
	defer l.n.mu.Unlock()
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	if l.n.listeners[l.key] == l {
		delete(l.n.listeners, l.key)
	}
	for _, c := range l.queue {
		c.pair.resetLocked()
	}
	l.queue = nil
	l.wakeLocked()
	return nil
}

func (l *simListener) Addr() net.Addr { return l.addr }

// injectAcceptError makes the next Accept fail.
func (l *simListener) injectAcceptError(err error) {
	l.n.mu.Lock()
	l.errs = append(l.errs, err)
	l.wakeLocked()
	l.n.mu.Unlock()
}

type seg struct {
	data []byte
	at   time.Time
}

// pipe is one direction of a connection.
type pipe struct {
	segs     []seg
	nread    int
	buffered int
	fin      bool
	finAt    time.Time
	rst      bool
	total    int64 // bytes written
	lastAt   time.Time
	faults   []connFault
	stall    time.Time
	wait     chan struct{} // state change notification
}

func (p *pipe) wake() {
	close(p.wait)
	p.wait = make(chan struct{})
}

type simConnPair struct {
	id        int
	n         *simNet
	ep        [2]*simConn // 0 dialer, 1 acceptor
	pipe      [2]*pipe    // 0: dialer->acceptor
	rst       bool
	lat       time.Duration
	disturbed bool
	created   time.Time
	acceptAt  time.Time
	ioLog     []ioRec // of the watched node
}

// ioRec is data a node moved over one of its connections.
type ioRec struct {
	at  time.Duration
	n   int
	out bool
}

// clearFaults takes back the faults that have not struck yet.
func (n *simNet) clearFaults() {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, p := range n.conns {
		for _, q := range p.pipe {
			if len(q.faults) > 0 {
				p.disturbed = true
				q.faults = nil
			}
		}
	}
}

// watch records what a node's accepted connections transfer.
func (n *simNet) watch(node uint32) { n.watched = node }

type simConn struct {
	pair       *simConnPair
	side       int
	node       uint32
	local      *net.TCPAddr
	remote     *net.TCPAddr
	closed     bool
	closedAt   time.Time
	rclosed    bool
	rdl, wdl   time.Time
	dlWait     chan struct{}
	unreadRST  bool
	Label      string
	acceptedBy *simListener
}

func (p *simConnPair) resetLocked() {
	if p.rst {
		return
	}
	p.rst = true
	for _, pp := range p.pipe {
		pp.rst = true
		pp.wake()
	}
}

func (n *simNet) partitioned(a, b string, now time.Time) (time.Time, bool) {
	for _, p := range n.parts {
		if now.Before(p.from) || !now.Before(p.to) {
			continue
		}
		if (p.a == "" || p.a == a || p.a == b) && (p.b == "" || p.b == a || p.b == b) {
			return p.to, true
		}
	}
	return time.Time{}, false
}

func (n *simNet) addPartition(a, b string, d time.Duration) {
	now := n.w.now()
	n.mu.Lock()
	n.parts = append(n.parts, partition{a, b, now, now.Add(d)})
	n.mu.Unlock()
}

func opErr(op string, c *simConn, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

// dial opens a connection from an address to another.
func (n *simNet) dial(ctx context.Context, node uint32, fromIP, network, address string) (net.Conn, error) {
	return n.dialFrom(ctx, node, fromIP, 0, network, address)
}

func (n *simNet) dialFrom(ctx context.Context, node uint32, fromIP string, fromPort int, network, address string) (net.Conn, error) {
	n.gate(node)
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	ip := net.ParseIP(host)
	if ip == nil {
		n.mu.Lock()
		a := n.dns[host]
		n.mu.Unlock()
		if len(a) == 0 {
			return nil, &net.OpError{Op: "dial", Net: network, Err: &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}}
		}
		ip = net.ParseIP(a[0])
	}
	pn, _ := strconv.Atoi(port)
	if pn == 0 {
		switch port {
		case "http":
			pn = 80
		case "https":
			pn = 443
		}
	}
	raddr := &net.TCPAddr{IP: ip, Port: pn}
	key := net.JoinHostPort(ip.String(), strconv.Itoa(pn))

	n.mu.Lock()
	n.nDials[key]++
	nth := n.nDials[key]
	n.mu.Unlock()
	var df *dialFault
	var cf []connFault
	if n.onDial != nil {
		df, cf = n.onDial(node, fromIP, key, nth)
	}
	lat := n.latency()
	if df != nil {
		n.w.fault("dial-" + df.Kind)
		switch df.Kind {
		case "refuse":
			if err := sleepCtx(ctx, lat); err != nil {
				return nil, dialCtxErr(network, raddr, err)
			}
			return nil, &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
		case "hang":
			d := df.Dur
			if d == 0 {
				d = 130 * time.Second
			}
			if err := sleepCtx(ctx, d); err != nil {
				return nil, dialCtxErr(network, raddr, err)
			}
			return nil, &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: os.NewSyscallError("connect", syscall.ETIMEDOUT)}
		case "lat":
			lat += df.Dur
		}
	}
	if err := sleepCtx(ctx, lat); err != nil {
		return nil, dialCtxErr(network, raddr, err)
	}
	for start := n.w.now(); ; {
		n.mu.Lock()
		to, cut := n.partitioned(fromIP, ip.String(), n.w.now())
		n.mu.Unlock()
		if !cut {
			break
		}
		n.w.fault("partition-dial")
		d := to.Sub(n.w.now())
		if n.w.now().Add(d).Sub(start) > 130*time.Second {
			if err := sleepCtx(ctx, 130*time.Second); err != nil {
				return nil, dialCtxErr(network, raddr, err)
			}
			return nil, &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: os.NewSyscallError("connect", syscall.ETIMEDOUT)}
		}
		if err := sleepCtx(ctx, d); err != nil {
			return nil, dialCtxErr(network, raddr, err)
		}
	}
	n.gate(node)
	if err := ctx.Err(); err != nil {
		return nil, dialCtxErr(network, raddr, err)
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	l := n.listeners[key]
	if l == nil || l.closed {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	if fromPort == 0 {
		fromPort = n.portLocked(fromIP)
	}
	laddr := &net.TCPAddr{IP: net.ParseIP(fromIP), Port: fromPort}
	n.seq++
	p := &simConnPair{created: n.w.now(), id: n.seq, n: n, lat: n.latency()}
	for i := range p.pipe {
		p.pipe[i] = &pipe{wait: make(chan struct{})}
	}
	for _, f := range cf {
		d := 0
		if f.Dir == "down" {
			d = 1
		}
		p.pipe[d].faults = append(p.pipe[d].faults, f)
	}
	local := ip
	if laddr.IP.To4() == nil && ip.To4() != nil {
		// (A dual-stack host that is reached over IPv6.)
		local = net.ParseIP("2001:db8:f::1")
	}
	p.ep[0] = &simConn{pair: p, side: 0, node: node, local: laddr, remote: raddr, dlWait: make(chan struct{})}
	p.ep[1] = &simConn{pair: p, side: 1, node: l.node, local: &net.TCPAddr{IP: local, Port: pn}, remote: &net.TCPAddr{IP: laddr.IP, Port: fromPort}, dlWait: make(chan struct{}), acceptedBy: l}
	n.conns = append(n.conns, p)
	l.queue = append(l.queue, p.ep[1])
	l.wakeLocked()
	return p.ep[0], nil
}

func (n *simNet) latency() time.Duration {
	d := n.baseLat
	if n.jitter > 0 {
		d += time.Duration(n.w.netRand(int64(n.jitter)))
	}
	return d
}

func dialCtxErr(network string, raddr net.Addr, err error) error {
	if errors.Is(err, context.DeadlineExceeded) {
		err = os.ErrDeadlineExceeded
	}
	return &net.OpError{Op: "dial", Net: network, Addr: raddr, Err: err}
}

func sleepCtx(ctx context.Context, d time.Duration) error {
	if d <= 0 {
		return ctx.Err()
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ctx.Done():
		return ctx.Err()
	case <-t.C:
		return nil
	}
}

func (c *simConn) rx() *pipe            { return c.pair.pipe[1-c.side] }
func (c *simConn) tx() *pipe            { return c.pair.pipe[c.side] }
func (c *simConn) peer() *simConn       { return c.pair.ep[1-c.side] }
func (c *simConn) net() *simNet         { return c.pair.n }
func (c *simConn) ID() int              { return c.pair.id }
func (c *simConn) String() string       { return fmt.Sprintf("conn%d/%d", c.pair.id, c.side) }
func (c *simConn) peerIP() string       { return c.remote.IP.String() }
func (c *simConn) LocalAddr() net.Addr  { return c.local }
func (c *simConn) RemoteAddr() net.Addr { return c.remote }

func (c *simConn) Read(b []byte) (int, error) {
	n := c.net()
	for {
		n.gate(c.node)
		n.mu.Lock()
		now := n.w.now()
		rx := c.rx()
		if c.closed {
			n.mu.Unlock()
			return 0, opErr("read", c, net.ErrClosed)
		}
		if !c.rdl.IsZero() && !now.Before(c.rdl) {
			n.mu.Unlock()
			return 0, opErr("read", c, os.ErrDeadlineExceeded)
		}
		if c.rclosed {
			n.mu.Unlock()
			return 0, io.EOF
		}
		if len(b) == 0 {
			n.mu.Unlock()
			return 0, nil
		}
		var next time.Time
		if to, cut := n.partitioned(c.local.IP.String(), c.remote.IP.String(), now); cut && !rx.rst {
			next = to
		} else if len(rx.segs) > 0 {
			if s := &rx.segs[0]; !now.Before(s.at) {
				max := len(b)
				if n.maxChunk > 0 && max > 1 && !bytes.HasPrefix(s.data, []byte("PROXY TCP")) {
					// (A version 1 PROXY header is never split: the
					// specification has it sent and read at once.)
					// (Tiny reads throughout the first few kilobytes, and
					// only now and then after that: they are expensive.)
					mc := int64(n.maxChunk)
					if rx.nread > 4000 && mc < 1500 && n.w.netRand(16) != 0 {
						mc = 6000
					}
					if m := 1 + int(n.w.netRand(mc)); m < max {
						max = m
					}
				}
				k := 0
				for k < max && len(rx.segs) > 0 && !now.Before(rx.segs[0].at) {
					s := &rx.segs[0]
					m := copy(b[k:max], s.data)
					k += m
					s.data = s.data[m:]
					if len(s.data) == 0 {
						rx.segs = rx.segs[1:]
					}
				}
				rx.buffered -= k
				rx.nread += k
				if n.watched != 0 && c.node == n.watched && c.side == 1 {
					c.pair.ioLog = append(c.pair.ioLog, ioRec{n.w.now().Sub(n.w.start), k, false})
				}
				rx.wake()
				n.mu.Unlock()
				return k, nil
			}
			next = rx.segs[0].at
		} else if rx.rst {
			n.mu.Unlock()
			return 0, opErr("read", c, os.NewSyscallError("read", syscall.ECONNRESET))
		} else if rx.fin {
			if !now.Before(rx.finAt) {
				n.mu.Unlock()
				return 0, io.EOF
			}
			next = rx.finAt
		}
		if !c.rdl.IsZero() && (next.IsZero() || c.rdl.Before(next)) {
			next = c.rdl
		}
		w, dw := rx.wait, c.dlWait
		n.mu.Unlock()
		waitUntil(w, dw, next.Sub(now), !next.IsZero())
	}
}

func waitUntil(w, dw chan struct{}, d time.Duration, timed bool) {
	if !timed {
		select {
		case <-w:
		case <-dw:
		}
		return
	}
	t := time.NewTimer(d)
	select {
	case <-w:
	case <-dw:
	case <-t.C:
	}
	t.Stop()
}

func (c *simConn) Write(b []byte) (int, error) {
	n := c.net()
	total := 0
	for {
		n.gate(c.node)
		n.mu.Lock()
		now := n.w.now()
		tx := c.tx()
		if c.closed {
			n.mu.Unlock()
			return total, opErr("write", c, net.ErrClosed)
		}
		if !c.wdl.IsZero() && !now.Before(c.wdl) {
			n.mu.Unlock()
			return total, opErr("write", c, os.ErrDeadlineExceeded)
		}
		if tx.rst {
			n.mu.Unlock()
			return total, opErr("write", c, os.NewSyscallError("write", syscall.ECONNRESET))
		}
		if tx.fin {
			n.mu.Unlock()
			return total, opErr("write", c, os.NewSyscallError("write", syscall.EPIPE))
		}
		if len(b) == 0 {
			n.mu.Unlock()
			return total, nil
		}
		var next time.Time
		if now.Before(tx.stall) {
			next = tx.stall
		} else if room := n.bufCap - tx.buffered; room > 0 {
			k := min(room, len(b))
			// Split the write so that faults land on exact byte positions.
			reset := false
			for i := range tx.faults {
				f := &tx.faults[i]
				if f.Kind == "" || f.After >= tx.total+int64(k) || f.After < tx.total {
					continue
				}
				switch f.Kind {
				case "reset":
					k = int(f.After - tx.total)
					reset = true
				case "stall":
					if f.After > tx.total {
						k = int(f.After - tx.total)
						continue
					}
					tx.stall = now.Add(f.Dur)
					n.w.fault("conn-stall")
					f.Kind = ""
					k = 0
				}
				break
			}
			if k > 0 {
				at := now.Add(c.pair.lat)
				if n.jitter > 0 {
					at = at.Add(time.Duration(n.w.netRand(int64(n.jitter))))
				}
				if at.Before(tx.lastAt) {
					at = tx.lastAt
				}
				tx.lastAt = at
				tx.total += int64(k)
				if n.watched != 0 && c.node == n.watched && c.side == 1 {
					c.pair.ioLog = append(c.pair.ioLog, ioRec{n.w.now().Sub(n.w.start), k, true})
				}
				if !c.peer().closed {
					tx.segs = append(tx.segs, seg{append([]byte(nil), b[:k]...), at})
					tx.buffered += k
				} else if now.After(c.peer().closedAt.Add(2 * c.pair.lat)) {
					// The peer is gone: data is answered with a RST.
					c.pair.resetLocked()
				}
				b = b[k:]
				total += k
				tx.wake()
			}
			if reset {
				n.w.fault("conn-reset")
				c.pair.resetLocked()
			}
			n.mu.Unlock()
			continue
		}
		if !c.wdl.IsZero() && (next.IsZero() || c.wdl.Before(next)) {
			next = c.wdl
		}
		w, dw := tx.wait, c.dlWait
		n.mu.Unlock()
		waitUntil(w, dw, next.Sub(now), !next.IsZero())
	}
}

func (c *simConn) CloseWrite() error {
	n := c.net()
	n.gate(c.node)
	n.mu.Lock()
	defer n.mu.Unlock()
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.finLocked()
	return nil
}

func (c *simConn) finLocked() {
	tx := c.tx()
	if tx.fin {
		return
	}
	tx.fin = true
	tx.finAt = n0(c.net().w.now().Add(c.pair.lat), tx.lastAt)
	if tx.finAt.Before(tx.stall) {
		tx.finAt = tx.stall
	}
	tx.wake()
}

func n0(a, b time.Time) time.Time {
	if a.Before(b) {
		return b
	}
	return a
}

func (c *simConn) CloseRead() error {
	n := c.net()
	n.gate(c.node)
	n.mu.Lock()
	defer n.mu.Unlock()
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.rclosed = true
	c.rx().wake()
	return nil
}

func (c *simConn) Close() error {
	n := c.net()
	n.gate(c.node)
	n.mu.Lock()
	defer n.mu.Unlock()
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.closed = true
	c.closedAt = n.w.now()
	c.finLocked()
	rx := c.rx()
	rx.segs = nil
	rx.buffered = 0
	rx.wake()
	close(c.dlWait)
	c.dlWait = make(chan struct{})
	return nil
}

func (c *simConn) setDL(r, w bool, t time.Time) error {
	n := c.net()
	n.gate(c.node)
	n.mu.Lock()
	defer n.mu.Unlock()
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	if !t.IsZero() && t.Equal(aLongTimeAgo) {
		t = n.w.now().Add(-time.Second)
	}
	// Deadlines work on the monotonic clock.
	if !t.IsZero() {
		t = n.w.now().Add(time.Until(t))
	}
	if r {
		c.rdl = t
	}
	if w {
		c.wdl = t
	}
	close(c.dlWait)
	c.dlWait = make(chan struct{})
	return nil
}

var aLongTimeAgo = time.Unix(1, 0)

func (c *simConn) SetDeadline(t time.Time) error      { return c.setDL(true, true, t) }
func (c *simConn) SetReadDeadline(t time.Time) error  { return c.setDL(true, false, t) }
func (c *simConn) SetWriteDeadline(t time.Time) error { return c.setDL(false, true, t) }

// Abort closes the connection with a RST.
func (c *simConn) Abort() {
	n := c.net()
	n.mu.Lock()
	defer n.mu.Unlock()
	c.pair.resetLocked()
	c.closed = true
	c.closedAt = n.w.now()
	close(c.dlWait)
	c.dlWait = make(chan struct{})
}

// openByNode counts connection endpoints a node holds open.
func (n *simNet) openByNode(node uint32) (accepted, dialed []*simConn) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, p := range n.conns {
		if p.ep[0].node == node && !p.ep[0].closed {
			dialed = append(dialed, p.ep[0])
		}
		if p.ep[1].node == node && !p.ep[1].closed {
			accepted = append(accepted, p.ep[1])
		}
	}
	return
}

func mustAddr(s string) netip.Addr { return netip.MustParseAddr(s) }

type simUDP struct{}
