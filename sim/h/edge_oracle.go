package main

// The oracles of the edge world: a small model of what the configuration
// says about each connection and request, compared with what happened.

import (
	"fmt"
	"net"
	"path"
	"slices"
	"sort"
	"strings"
	"time"
)

type outcome int

const (
	oServe outcome = iota
	oName          // unknown name
	oIP            // address refused, looks like oName
	oCert          // certificate refused
	oALPN          // no common protocol
	oHello         // not a valid ClientHello
)

func (o outcome) String() string {
	return [...]string{"serve", "unknown name", "address denied", "certificate refused", "no common protocol", "invalid hello"}[o]
}

func ipIn(cidrs []string, ip string) bool {
	a := net.ParseIP(ip)
	for _, c := range cidrs {
		_, n, err := net.ParseCIDR(c)
		if err == nil && n.Contains(a) {
			return true
		}
	}
	return false
}

func ipAllowed(b *BeSpec, ip string) bool {
	if b.Deny != nil && ipIn(*b.Deny, ip) {
		return false
	}
	return b.Allow == nil || ipIn(*b.Allow, ip)
}

var defALPN = []string{"h2", "http/1.1"}

func alpnOf(b *BeSpec) []string {
	if b.ALPN == nil {
		return defALPN
	}
	return *b.ALPN
}

// selectBe is the model of backend selection.
func selectBe(c *CfgSpec, sni string, alpn []string) *BeSpec {
	if sni == "" {
		sni = c.Def
	}
	for _, p := range alpn {
		for i := range c.Be {
			b := &c.Be[i]
			if slices.Contains(b.Names, sni) && slices.Contains(alpnOf(b), p) {
				return b
			}
		}
	}
	for i := range c.Be {
		if slices.Contains(c.Be[i].Names, sni) {
			return &c.Be[i]
		}
	}
	return nil
}

func negotiates(b *BeSpec, client []string) bool {
	if b.Mode == "TLSPASSTHROUGH" {
		return true // the backend server's business
	}
	srv := alpnOf(b)
	if len(srv) == 0 || len(client) == 0 {
		return true
	}
	for _, s := range srv {
		for _, c := range client {
			if s == c || (s == "h2" && c == "http/1.1") {
				return true
			}
		}
	}
	return false
}

// certOK tells whether the n-th certificate is admitted by a backend.
func (e *edge) certOK(b *BeSpec, cert int) bool {
	if len(b.CAs) == 0 {
		return true
	}
	if cert <= 0 || cert > len(e.certs) {
		return false
	}
	c := e.certs[cert-1]
	return c.valid && slices.Contains(b.CAs, c.ca) && e.aclOK(b, cert)
}

func (e *edge) aclOK(b *BeSpec, cert int) bool {
	if len(b.CAs) == 0 {
		return true
	}
	if cert <= 0 || cert > len(e.certs) {
		return false
	}
	if b.ACL == nil {
		return true
	}
	for _, id := range e.certs[cert-1].ids {
		if slices.Contains(*b.ACL, id) {
			return true
		}
	}
	return false
}

// peerOf is the client address the configuration makes the proxy believe.
func peerOf(c *CfgSpec, src, via, viaSrc string) (string, bool) {
	if via == "" {
		return src, true
	}
	if ipIn(c.Trust, src) {
		return viaSrc, true
	}
	return src, false
}

func (e *edge) expect(c1, c2 *CfgSpec, src, via, viaSrc, sni string, alpn []string, cert int) (outcome, *BeSpec) {
	ip, ok := peerOf(c1, src, via, viaSrc)
	if !ok {
		return oHello, nil
	}
	b := selectBe(c2, sni, alpn)
	if b == nil {
		return oName, nil
	}
	if !ipAllowed(b, ip) {
		return oIP, b
	}
	if !negotiates(b, alpn) {
		return oALPN, b
	}
	if !e.certOK(b, cert) {
		return oCert, b
	}
	return oServe, b
}

type combo struct {
	v1, v2 *cfgVer
	o      outcome
	b      *BeSpec
}

// window lists the versions in force at some time in [from, to].
func (e *edge) window(from, to time.Duration) []*cfgVer {
	var out []*cfgVer
	for _, v := range e.vers {
		if v.from <= to && v.until >= from {
			out = append(out, v)
		}
	}
	return out
}

func (e *edge) combos(from, to time.Duration, src, via, viaSrc, sni string, alpn []string, cert int) []combo {
	vs := e.window(from, to)
	var out []combo
	for i, a := range vs {
		for _, b := range vs[i:] {
			o, be := e.expect(a.spec, b.spec, src, via, viaSrc, sni, alpn, cert)
			out = append(out, combo{a, b, o, be})
		}
	}
	return out
}

func has(cs []combo, o ...outcome) bool {
	for _, c := range cs {
		if slices.Contains(o, c.o) {
			return true
		}
	}
	return false
}

func only(cs []combo, o ...outcome) bool {
	for _, c := range cs {
		if !slices.Contains(o, c.o) {
			return false
		}
	}
	return len(cs) > 0
}

// denyProp names the property that a refusal belongs to.
func denyProp(o outcome) string {
	switch o {
	case oIP:
		return "P01"
	case oCert:
		return "P02"
	case oHello:
		return "P01"
	}
	return "P03"
}

func pairDisturbed(c *simConn) bool {
	if c == nil {
		return false
	}
	return c.pair.disturbed || len(c.pair.pipe[0].faults) > 0 || len(c.pair.pipe[1].faults) > 0
}

// backendDisturbed tells whether a fault hit the proxy's connections to a
// backend during an interval.
func (e *edge) backendDisturbed(b *BeSpec, from, to time.Duration) bool {
	for _, p := range e.w.net.conns {
		if p.ep[0].node != e.node || !(pairDisturbed(p.ep[0])) || e.rel(p.created) > to {
			continue
		}
		if c := p.ep[0]; c.closed && e.rel(c.closedAt) < from {
			continue
		}
		for _, a := range b.Addrs {
			if p.ep[1].local.IP.String() == fmt.Sprintf("10.1.0.%d", a+1) {
				return true
			}
		}
	}
	return false
}

// partHit tells whether a partition touched an address during an interval.
func (e *edge) partHit(from, to time.Duration, ips ...string) bool {
	for i, p := range e.parts {
		if p[0] > to || p[1] < from {
			continue
		}
		for _, w := range e.partWho[i] {
			if w == "" || slices.Contains(ips, w) {
				return true
			}
		}
	}
	return false
}

func be2port(b *BeSpec, pp string) int {
	p := map[string]int{"TCP": portRaw, "": portRaw, "TLS": portTLS, "TLSPASSTHROUGH": portTLS, "HTTP": portHTTP, "HTTPS": portHTTPS}[b.Mode]
	if pp != "" {
		p++
	}
	return p
}

// unreachable tells whether, for all we know, all the addresses of a backend
// may have failed at some point of an interval.
func (e *edge) unreachable(b *BeSpec, from, to time.Duration) bool {
	for _, a := range b.Addrs {
		if !e.addrDown(a, from, to) {
			return false
		}
	}
	return true
}

func (e *edge) addrDown(srv int, from, to time.Duration) bool {
	pre := fmt.Sprintf("10.1.0.%d:", srv+1)
	for _, f := range e.w.plan.Faults {
		if f.K == "down" && int(f.N) == srv {
			a, b := e.base+time.Duration(f.A)*time.Millisecond, e.base+time.Duration(f.A+f.B)*time.Millisecond
			if a <= to && b >= from {
				return true
			}
		}
	}
	for _, d := range e.dials {
		if d.kind != "" && d.kind != "lat" && strings.HasPrefix(d.addr, pre) && d.at >= from && d.at <= to {
			return true
		}
	}
	return e.partHit(from-3*time.Minute, to, fmt.Sprintf("10.1.0.%d", srv+1), "10.0.0.1")
}

const grace = 45 * time.Second // for the proxy to close a connection after a reconfiguration

// openCount computes how many connections the proxy had accepted and not closed, over time.
type openStep struct {
	at time.Duration
	d  int
}

func (e *edge) rel(t time.Time) time.Duration { return t.Sub(e.w.start) }

func (e *edge) openSteps() []openStep {
	var out []openStep
	for _, p := range e.w.net.conns {
		if p.ep[1].node != e.node || p.acceptAt.IsZero() {
			continue
		}
		out = append(out, openStep{e.rel(p.acceptAt), 1})
		if p.ep[1].closed {
			out = append(out, openStep{e.rel(p.ep[1].closedAt), -1})
		}
	}
	sort.Slice(out, func(a, b int) bool {
		if out[a].at == out[b].at {
			return out[a].d > out[b].d
		}
		return out[a].at < out[b].at
	})
	return out
}

func maxOpenDuring(steps []openStep, from, to time.Duration) int {
	cur, mx := 0, 0
	for _, s := range steps {
		if s.at > to {
			break
		}
		if s.at >= from && cur > mx {
			mx = cur
		}
		cur += s.d
		if s.at >= from && cur > mx {
			mx = cur
		}
	}
	return max(mx, cur)
}

func (e *edge) oracle() {
	e.mu.Lock()
	defer e.mu.Unlock()
	steps := e.openSteps()
	srvOf := map[[2]int]*SrvRec{}
	byKey := map[uint32]*SrvRec{}
	for _, s := range e.srec {
		srvOf[[2]int{s.Srv, int(s.Seq)}] = s
		if s.Key != 0 {
			if o := byKey[s.Key]; o != nil {
				e.w.violate("P04", "delivered-twice", "connection %d reached servers %d and %d", s.Key-1, o.Srv, s.Srv)
			}
			byKey[s.Key] = s
		}
		if strings.HasPrefix(s.corrupt, "header ") && e.h2ToRaw(s) {
			continue // an HTTP client whose ALPN selects a stream backend
		}
		if s.corrupt != "" {
			e.w.violate("P04", "corrupt-up", "server %d received data nobody sent: %s", s.Srv, s.corrupt)
		}
	}
	for _, r := range e.conns {
		e.checkConn(r, srvOf, byKey, steps)
	}
	for _, h := range e.hconns {
		e.checkHConn(h, steps)
	}
	e.checkHTTP()
	e.checkDials()
	e.checkMaxOpen(steps)
	e.checkRates()
	e.checkBandwidth()
	e.checkShutdown()
}

// interfered tells whether something other than the configuration may have
// affected a connection.
func (e *edge) interfered(sock *simConn, src string, from, to time.Duration) bool {
	return pairDisturbed(sock) || e.partHit(from, to, src, "10.0.0.1") || (e.shutAt >= 0 && to+5*time.Second >= e.shutAt) // (what it sent last may still be on its way)
}

func (e *edge) mayBeFull(steps []openStep, from, to time.Duration) bool {
	lim := 1 << 30
	for _, v := range e.window(from, to) {
		if v.spec.MaxOpen > 0 {
			lim = min(lim, v.spec.MaxOpen)
		}
	}
	return maxOpenDuring(steps, from-time.Second, to) >= lim
}

func (e *edge) checkConn(r *ConnRec, srvOf map[[2]int]*SrvRec, byKey map[uint32]*SrvRec, steps []openStep) {
	w := e.w
	s := r.Spec
	w.check()
	if r.corrupt != "" {
		w.violate("P04", "corrupt-down", "connection %d: %s", r.Op, r.corrupt)
	}
	if !r.done {
		return
	}
	if s.Hello != "" {
		e.checkHello(r, steps)
		return
	}
	inter := e.interfered(r.sock, s.Src, r.tStart, r.tSettle)
	if e.shutAt >= 0 && r.tStart > e.shutAt+time.Second {
		if r.greeted >= 0 {
			w.violate("P07", "served-after-shutdown", "connection %d was opened %v after Shutdown was called and served", r.Op, r.tStart-e.shutAt)
		}
		return
	}
	cs := e.combos(r.tStart, r.tSettle, s.Src, s.Via, s.ViaSrc, s.SNI, s.ALPN, s.Cert)
	for _, c := range cs {
		w.probe("expect-" + strings.ReplaceAll(c.o.String(), " ", "-"))
	}
	if r.greeted >= 0 {
		sr := srvOf[[2]int{r.greeted, int(r.greetSeq)}]
		var match *combo
		for i, c := range cs {
			if c.o == oServe && slices.Contains(c.b.Addrs, r.greeted) && (sr == nil || sr.Port == be2port(c.b, c.b.PP)) {
				match = &cs[i]
			}
		}
		if match == nil {
			c := cs[len(cs)-1]
			if c.o != oServe && only(cs, c.o) {
				w.violate(denyProp(c.o), "denied-served", "connection %d (src %s via %q %q sni %q alpn %q cert %d) was served by server %d, want %s", r.Op, s.Src, s.Via, s.ViaSrc, s.SNI, s.ALPN, s.Cert, r.greeted, c.o)
			} else {
				w.violate("P03", "wrong-backend", "connection %d (sni %q alpn %q) reached server %d port %d, which no configuration in force selects", r.Op, s.SNI, s.ALPN, r.greeted, portOf(sr))
			}
			return
		}
		if sr != nil {
			e.checkPP(r, sr)
		}
		e.checkStream(r, sr, match)
		e.checkReauth(r.Op, r.sock, match, s.Src, s.Via, s.ViaSrc, s.SNI, s.ALPN, s.Cert, r.tSettle)
		return
	}
	// Not served.
	if inter {
		w.inconclusive()
		return
	}
	if has(cs, oName, oIP) && r.alert == 0x70 {
		w.probe("unrecognized-name")
		return
	}
	if e.mayBeFull(steps, r.tStart, r.tSettle) {
		w.probe("too-many-open")
		return
	}
	if only(cs, oName, oIP) && len(e.window(r.tStart, r.tEnd)) > 1 && has(cs, oIP) {
		return // the reconfiguration may have closed it before the alert was sent
	}
	if only(cs, oName, oIP) {
		w.violate(denyProp(cs[0].o), "wrong-alert", "connection %d (src %s sni %q) must be refused with unrecognized name, got alert %#x, err %v, dial %v", r.Op, s.Src, s.SNI, r.alert, r.err, r.dialErr)
		return
	}
	if has(cs, oCert, oALPN, oHello) {
		w.probe("refused")
		return
	}
	// A configuration that came into force meanwhile may have closed it: one
	// that denies it or changes the mode, or, as long as the client had not
	// presented its certificate, one that requires it.
	vs := e.window(r.tStart, r.tEnd+grace)
	for _, v := range vs {
		o, b := e.expect(v.spec, v.spec, s.Src, s.Via, s.ViaSrc, s.SNI, s.ALPN, s.Cert)
		if o != oServe || len(vs) > 1 && (len(b.CAs) > 0 || b.Mode != cs[0].b.Mode) || s.SNI == "" && v.spec.Def != vs[0].spec.Def {
			return
		}
	}
	prop, class := "P03", "not-served"
	for _, c := range cs {
		if c.o != oServe {
			continue
		}
		if e.backendDisturbed(c.b, r.tStart, r.tEnd) {
			w.inconclusive()
			return
		}
		if e.unreachable(c.b, r.tStart, r.tEnd) {
			w.probe("all-addresses-down")
			return
		}
		for _, a := range c.b.Addrs {
			if e.addrDown(a, r.tStart, r.tEnd) {
				prop, class = "P05", "reachable-not-served"
			}
		}
		if len(c.b.CAs) > 0 && class == "not-served" {
			prop = "P02"
		} else if (c.b.Allow != nil || c.b.Deny != nil) && class == "not-served" {
			prop = "P01"
		}
	}
	w.violate(prop, class, "connection %d (src %s via %q %q sni %q alpn %q cert %d) must be served, got alert %#x, err %v, dial %v", r.Op, s.Src, s.Via, s.ViaSrc, s.SNI, s.ALPN, s.Cert, r.alert, r.err, r.dialErr)
}

func portOf(s *SrvRec) int {
	if s == nil {
		return 0
	}
	return s.Port
}

// h2ToRaw tells whether an HTTP client may have been forwarded to a stream
// backend.
func (e *edge) h2ToRaw(s *SrvRec) bool {
	for _, h := range e.hconns {
		for _, c := range e.combos(h.tStart, s.tAccept, h.Spec.Src, h.Spec.Via, h.Spec.ViaSrc, h.Spec.SNI, h.Spec.ALPN, h.Spec.Cert) {
			if c.o == oServe && c.b.Mode != "HTTP" && c.b.Mode != "HTTPS" && slices.Contains(c.b.Addrs, s.Srv) {
				return true
			}
		}
	}
	return false
}

// checkReauth: connections that a later configuration denies are closed.
func (e *edge) checkReauth(op int, sock *simConn, m *combo, src, via, viaSrc, sni string, alpn []string, cert int, settled time.Duration) {
	w := e.w
	if sock == nil {
		return
	}
	ps := sock.pair.ep[1]
	closed := time.Duration(1 << 62)
	if ps.closed {
		closed = e.rel(ps.closedAt)
	}
	ip, _ := peerOf(m.v1.spec, src, via, viaSrc)
	if sni == "" {
		// It keeps the server name it was given when it was set up.
		for _, v := range e.window(e.rel(sock.pair.created), settled) {
			if v.spec.Def != m.v2.spec.Def {
				return
			}
		}
		sni = m.v2.spec.Def
	}
	for _, v := range e.vers {
		if v.ret == 0 || v == m.v2 || v.from < m.v2.from || v.from < settled {
			continue
		}
		// It must be in force long enough.
		if v.until < v.ret+grace || closed <= v.ret+grace {
			continue
		}
		if e.partHit(v.ret, v.ret+grace, "10.0.0.1", src) {
			continue
		}
		b := selectBe(v.spec, sni, alpn)
		if b == nil {
			continue
		}
		w.check()
		if !ipAllowed(b, ip) {
			w.violate("P01", "denied-stays-open", "connection %d from %s was still open %v after a configuration that denies it", op, ip, grace)
			return
		}
		asked := false
		for _, x := range e.window(e.rel(sock.pair.created), settled) {
			if xb := selectBe(x.spec, sni, alpn); xb == nil || len(xb.CAs) > 0 {
				asked = true
			}
		}
		if !asked {
			cert = 0
		}
		if len(b.CAs) > 0 && !e.aclOK(b, cert) {
			w.violate("P02", "denied-stays-open", "connection %d with certificate %d was still open %v after a configuration that does not admit it", op, cert, grace)
			return
		}
	}
}

func (e *edge) checkPP(r *ConnRec, sr *SrvRec) {
	if sr.Port != portRawPP && sr.Port != portTLSPP {
		return
	}
	e.w.check()
	want := r.sock.local.String()
	if r.Spec.Via != "" {
		want = net.JoinHostPort(r.Spec.ViaSrc, "33333")
	}
	if sr.ppErr != nil {
		if !e.interfered(r.sock, r.Spec.Src, r.tStart, r.tEnd) && !pairDisturbed(sr.sock) {
			e.w.violate("P04", "pp-missing", "connection %d: the backend got no valid PROXY header: %v", r.Op, sr.ppErr)
		}
		return
	}
	if sr.ppSrc != want {
		e.w.violate("P04", "pp-address", "connection %d: the PROXY header says %s, the client is %s", r.Op, sr.ppSrc, want)
	}
}

// checkStream checks how much data arrived on each side.
func (e *edge) checkStream(r *ConnRec, sr *SrvRec, m *combo) {
	w := e.w
	s := r.Spec
	b := m.b
	w.probe("stream-" + s.End + "-" + s.SrvEnd)
	if r.got > s.Down {
		w.violate("P04", "extra-down", "connection %d received %d bytes, the server sent %d", r.Op, r.got, s.Down)
	}
	if sr == nil {
		w.violate("P04", "no-server", "connection %d: greeting of unknown connection", r.Op)
		return
	}
	if sr.Key != 0 && sr.Key != r.Key {
		w.violate("P04", "mixed", "connection %d is joined to the server side of %d", r.Op, sr.Key-1)
		return
	}
	if sr.got > r.sent {
		w.violate("P04", "extra-up", "connection %d: the server received %d bytes, the client sent %d", r.Op, sr.got, r.sent)
	}
	if e.interfered(r.sock, s.Src, r.tStart, r.tEnd) || pairDisturbed(sr.sock) || e.partHit(r.tStart, r.tEnd, fmt.Sprintf("10.1.0.%d", sr.Srv+1)) {
		w.inconclusive()
		return
	}
	// Left alone by the configurations that came later?
	free := len(b.CAs) == 0 // it may have been set up without asking for a certificate
	for _, v := range e.window(r.tStart, r.tEnd+5*time.Second) {
		if vb := selectBe(v.spec, s.SNI, s.ALPN); vb != nil && len(vb.CAs) == 0 {
			free = true
		}
	}
	for _, v := range e.window(r.tStart, r.tEnd+5*time.Second) {
		o, vb := e.expect(v.spec, v.spec, s.Src, s.Via, s.ViaSrc, s.SNI, s.ALPN, s.Cert)
		if ip, ok := peerOf(m.v1.spec, s.Src, s.Via, s.ViaSrc); ok && vb != nil && !ipAllowed(vb, ip) {
			return
		}
		if o == oHello && vb == nil {
			// Only the trust changed.
			vb = selectBe(v.spec, s.SNI, s.ALPN)
			if vb == nil || !e.certOK(vb, s.Cert) {
				return
			}
			if ip, ok := peerOf(m.v1.spec, s.Src, s.Via, s.ViaSrc); ok && !ipAllowed(vb, ip) {
				return
			}
		} else if o != oServe {
			return
		}
		if vb.Mode != b.Mode || len(vb.CAs) > 0 && free {
			return // (it may not have been asked for its certificate)
		}
	}
	multi := len(e.window(r.tStart, r.tEnd)) > 1
	prop := "P04"
	if multi {
		prop = "P01" // "left alone"
		w.probe("open-across-reconfigure")
	}
	half := time.Minute
	if b.HalfMs != 0 {
		half = time.Duration(b.HalfMs) * time.Millisecond
	}
	sclose := b.SClose == nil || *b.SClose
	cclose := b.CClose != nil && *b.CClose
	w.check()
	// Up.
	needUp := false
	switch s.SrvEnd {
	case "eof", "late", "close", "hold":
		switch s.End {
		case "fin":
			needUp = true
		case "wait":
			needUp = s.SrvEnd == "close"
		case "close", "hold", "quit":
			needUp = r.got == s.Down
		}
	case "fin":
		needUp = !sclose && s.End != "abort" && (s.End == "fin" || s.End == "wait" || r.got == s.Down) && r.tEnd-sr.closedAt < half*7/10
		if b.Mode == "TLSPASSTHROUGH" {
			// The proxy cannot see this end of stream.
			needUp = s.End == "fin" || s.End == "wait"
		}
	}
	if s.SrvEnd == "abort" || s.SrvEnd == "closeearly" || s.End == "abort" || !r.sentAll && s.SrvEnd != "eof" {
		needUp = false
	}
	if needUp && (sr.got < s.Up || !r.sentAll) {
		w.violate(prop, "truncated-up", "connection %d (%s/%s): the client sent %d of %d bytes, the server received %d (client err %v, server err %v)", r.Op, s.End, s.SrvEnd, r.sent, s.Up, sr.got, r.err, sr.err)
	}
	// Down.
	needDown := false
	switch s.SrvEnd {
	case "eof", "close", "late":
		needDown = s.End == "fin" || s.End == "wait" || s.End == "close"
	case "fin":
		needDown = s.End == "fin" || s.End == "wait" || s.End == "close"
		if sclose && s.Up > 0 && b.Mode != "TLSPASSTHROUGH" {
			// Both directions end with the server's: the client may be
			// cut off while it writes, but what the server sent was sent.
			needDown = r.sentAll && needDown
		}
	case "closeearly":
		needDown = s.Up == 0 && s.End == "wait"
	}
	if s.End == "fin" {
		if cclose && s.Down > 0 {
			needDown = false
		} else if r.finAt > 0 && r.tEnd-r.finAt >= half*7/10 {
			needDown = false // the half-close timeout may have struck
		}
	}
	if needDown && (r.got < s.Down || !r.eof && s.End != "close") {
		w.violate(prop, "truncated-down", "connection %d (%s/%s): the server sent %d of %d bytes, the client received %d, eof %v (client err %v, server err %v)", r.Op, s.End, s.SrvEnd, sr.sent, s.Down, r.got, r.eof, r.err, sr.err)
	}
	// Teardown.
	var ends []time.Duration // when the connection must begin to go away
	ps := r.sock.pair.ep[1]
	if r.finAt > 0 {
		if cclose {
			ends = append(ends, r.finAt)
		} else {
			ends = append(ends, r.finAt+half)
		}
	}
	if r.sock.closed && r.greeted >= 0 {
		ends = append(ends, e.rel(r.sock.closedAt)+half)
	}
	if sr.clean && sr.closedAt > 0 && s.SrvEnd != "fin" {
		if sclose {
			ends = append(ends, sr.closedAt)
		} else {
			ends = append(ends, sr.closedAt+half)
		}
	}
	if len(ends) > 0 && !(b.Mode == "TLSPASSTHROUGH" && len(ends) == 0) {
		by := slices.Min(ends)
		// Data on its way to a slow reader must still be delivered.
		by += time.Minute + time.Duration(s.Down+s.Up)*time.Millisecond/100 + time.Duration(s.RdGap)*60*time.Millisecond + time.Duration(s.GapMs)*100*time.Millisecond
		if b.BW != "" {
			by += e.limitedTime() // everything in the group shares the limit
		}
		late := func(c *simConn) bool {
			return !c.closed || e.rel(c.closedAt) > by
		}
		bp := sr.sock.pair.ep[0]
		w.check()
		if w.since() > by && (late(ps) || late(bp)) {
			w.violate("P04", "not-torn-down", "connection %d (%s/%s, half-close timeout %v) should be gone by %v; client side closed: %v, server side closed: %v", r.Op, s.End, s.SrvEnd, half, by, closedAt(e, ps), closedAt(e, bp))
		}
	}
}

// limitedTime is how long the traffic of the whole plan takes at the lowest
// bandwidth limit.
func (e *edge) limitedTime() time.Duration {
	rate := 0.0
	for _, c := range e.cfgs {
		for _, l := range c.BW {
			for _, x := range []float64{l.In, l.Out} {
				if rate == 0 || x < rate {
					rate = x
				}
			}
		}
	}
	if rate == 0 {
		return 0
	}
	total := 0
	for _, op := range e.w.plan.Ops {
		if op.Conn != nil {
			total += op.Conn.Up + op.Conn.Down + 100000
		}
		if op.HC != nil {
			for _, r := range op.HC.Reqs {
				total += r.Up + r.Down + 100000
			}
		}
	}
	return time.Duration(float64(total) / rate * 1e9)
}

func closedAt(e *edge, c *simConn) string {
	if !c.closed {
		return "never"
	}
	return e.rel(c.closedAt).String()
}

// checkHello: clients that are not proper TLS clients.
func (e *edge) checkHello(r *ConnRec, steps []openStep) {
	w := e.w
	s := r.Spec
	if r.dialErr != nil || r.sock == nil {
		return
	}
	ps := r.sock.pair.ep[1]
	if ps.node != e.node {
		return
	}
	w.check()
	w.probe("hello-" + s.Hello)
	bound := time.Duration(0)
	acc := e.rel(r.sock.pair.acceptAt)
	switch s.Hello {
	case "none", "partial", "garbage", "http", "reset", "corrupt", "dribble":
		bound = 80 * time.Second
		if s.Hello == "garbage" || s.Hello == "corrupt" || s.Hello == "dribble" {
			bound = 4 * time.Minute // it may look like a ClientHello
		}
	case "nohs":
		bound = 3 * time.Minute
	}
	if s.Hello != "none" && s.Hello != "partial" {
		for _, v := range e.vers {
			for _, sni := range []string{s.SNI, v.spec.Def} {
				if b := selectBe(v.spec, sni, s.ALPN); b != nil && b.Mode == "TLSPASSTHROUGH" {
					// A ClientHello is forwarded, and the rest is between the client and the server.
					bound = 25 * time.Minute
				}
			}
		}
	}
	if e.interfered(r.sock, s.Src, r.tStart, r.tEnd) {
		return
	}
	if !ps.closed || e.rel(ps.closedAt) > acc+bound {
		w.violate("P09", "slow-client-kept", "connection %d (%s hello) was accepted at %v and closed at %s", r.Op, s.Hello, acc, closedAt(e, ps))
	}
}

// HTTP

func (e *edge) checkHConn(h *HConnRec, steps []openStep) {
	w := e.w
	s := h.Spec
	w.check()
	if !h.done {
		return
	}
	served := false
	for _, r := range h.reqs {
		if r.respID != "" {
			served = true
		}
	}
	if e.shutAt >= 0 && h.tStart > e.shutAt+time.Second {
		if served {
			w.violate("P07", "served-after-shutdown", "HTTP connection %d was opened %v after Shutdown was called and served", h.Op, h.tStart-e.shutAt)
		}
		return
	}
	cs := e.combos(h.tStart, h.tSettle, s.Src, s.Via, s.ViaSrc, s.SNI, s.ALPN, s.Cert)
	for _, c := range cs {
		w.probe("expect-" + strings.ReplaceAll(c.o.String(), " ", "-"))
	}
	if served {
		if !has(cs, oServe) {
			w.violate(denyProp(cs[0].o), "denied-served", "HTTP connection %d (src %s via %q %q sni %q alpn %q cert %d) was served, want %s", h.Op, s.Src, s.Via, s.ViaSrc, s.SNI, s.ALPN, s.Cert, cs[0].o)
			return
		}
		for i := range cs {
			if cs[i].o == oServe {
				e.checkReauth(h.Op, h.sock, &cs[i], s.Src, s.Via, s.ViaSrc, s.SNI, s.ALPN, s.Cert, h.tSettle)
				break
			}
		}
		return
	}
	if e.interfered(h.sock, s.Src, h.tStart, h.tSettle) {
		w.inconclusive()
		return
	}
	if h.hsDone {
		return // checkHTTP looks at the requests
	}
	if has(cs, oName, oIP) && h.alert == 0x70 {
		w.probe("unrecognized-name")
		return
	}
	if e.mayBeFull(steps, h.tStart, h.tSettle) {
		w.probe("too-many-open")
		return
	}
	if only(cs, oName, oIP) && len(e.window(h.tStart, h.tEnd)) > 1 && has(cs, oIP) {
		return // the reconfiguration may have closed it before the alert was sent
	}
	if only(cs, oName, oIP) {
		w.violate(denyProp(cs[0].o), "wrong-alert", "HTTP connection %d (src %s sni %q) must be refused with unrecognized name, got alert %#x, err %v", h.Op, s.Src, s.SNI, h.alert, h.err)
		return
	}
	if has(cs, oCert, oALPN, oHello, oName, oIP) {
		return
	}
	if len(e.window(h.tStart-time.Second, h.tEnd)) > 1 {
		return // set-up raced with a reconfiguration
	}
	prop := "P03"
	if len(cs[0].b.CAs) > 0 {
		prop = "P02"
	} else if cs[0].b.Allow != nil || cs[0].b.Deny != nil {
		prop = "P01"
	}
	w.violate(prop, "not-served", "HTTP connection %d (src %s via %q %q sni %q alpn %q cert %d) must be accepted, got alert %#x, err %v, dial %v", h.Op, s.Src, s.Via, s.ViaSrc, s.SNI, s.ALPN, s.Cert, h.alert, h.err, h.dialErr)
}

func idempotent(m string) bool {
	switch m {
	case "POST", "PATCH":
		return false
	}
	return true
}

func cleanPath(p string) string {
	q := path.Clean("/" + p)
	if q != "/" && strings.HasSuffix(p, "/") {
		q += "/"
	}
	return q
}

// target is the addresses a request goes to in a backend.
func target(b *BeSpec, p string) (addrs []int, pp string) {
	cp := cleanPath(p)
	for _, o := range b.Over {
		for _, pre := range o.Paths {
			if strings.HasPrefix(cp, pre) {
				return o.Addrs, o.PP
			}
		}
	}
	return b.Addrs, b.PP
}

func (e *edge) checkHTTP() {
	w := e.w
	seen := map[string][]*HSrvRec{}
	reqs := map[string]*ReqRec{}
	for _, r := range e.hreqs {
		reqs[r.id] = r
	}
	for _, s := range e.hsrv {
		w.check()
		r := reqs[s.id]
		if r == nil || !r.started {
			w.violate("P06", "unknown-request", "server %d received request %q, which no client sent", s.Srv, s.id)
			continue
		}
		seen[s.id] = append(seen[s.id], s)
		e.checkForwarded(r, s)
	}
	for _, r := range e.hreqs {
		if !r.started {
			continue
		}
		w.check()
		e.checkResponse(r, seen[r.id])
	}
}

func (e *edge) checkForwarded(r *ReqRec, s *HSrvRec) {
	w := e.w
	h := r.hc
	sp := h.Spec
	bad := func(prop, class, f string, a ...any) {
		w.violate(prop, class, "request %s (%s %s%s) at server %d: %s", r.id, r.Spec.Method, r.Spec.Host, r.Spec.Path, s.Srv, fmt.Sprintf(f, a...))
	}
	// Does some configuration in force send it there?
	cs := e.combos(h.tStart, max(h.tSettle, s.tStart), sp.Src, sp.Via, sp.ViaSrc, sp.SNI, sp.ALPN, sp.Cert)
	host := r.Spec.Host
	if host == "" {
		host = sp.SNI
	}
	hostname := host
	if hn, _, err := net.SplitHostPort(host); err == nil {
		hostname = hn
	}
	p := r.Spec.Path
	if p == "" {
		p = "/"
	}
	upath, query, _ := strings.Cut(p, "?")
	var m *combo
	wrongHost, denied := false, outcome(0)
	for i, c := range cs {
		if c.o != oServe {
			denied = c.o
			continue
		}
		if !slices.Contains(c.b.Names, hostname) {
			wrongHost = true
			continue
		}
		addrs, pp := target(c.b, upath)
		if slices.Contains(addrs, s.Srv) && s.Port == be2port(c.b, pp) {
			m = &cs[i]
			break
		}
	}
	if m == nil {
		switch {
		case wrongHost:
			bad("P06", "misdirected", "the backend that the server name %q selects does not serve this host", sp.SNI)
		case denied != 0 && !has(cs, oServe):
			bad(denyProp(denied), "denied-served", "want %s", denied)
		default:
			bad("P03", "wrong-backend", "port %d: no configuration in force sends it there", s.Port)
		}
		return
	}
	method := r.Spec.Method
	if method == "" {
		method = "GET"
	}
	if s.method != method {
		bad("P06", "method", "method is %q", s.method)
	}
	wantURI := cleanPath(upath)
	if query != "" {
		wantURI += "?" + query
	}
	if s.uri != wantURI {
		bad("P06", "path", "path is %q, want %q", s.uri, wantURI)
	}
	if s.host != host {
		bad("P06", "host", "host is %q, want %q", s.host, host)
	}
	if v := s.hdr["X-Multi"]; len(v) != 2 || v[0] != "one "+r.id || v[1] != "two "+r.id {
		bad("P06", "header", "X-Multi is %q", v)
	}
	if v := s.hdr.Get("User-Agent"); v != "sim/"+r.id {
		bad("P06", "header", "User-Agent is %q", v)
	}
	enc := r.Spec.Enc
	switch enc {
	case "":
		enc = "identity"
	case "none":
		enc = ""
	}
	if v := strings.Join(s.hdr["Accept-Encoding"], ", "); v != enc {
		bad("P06", "header", "Accept-Encoding is %q, want %q", v, enc)
	}
	if r.Spec.Spoof&spoofCookie != 0 && s.hdr.Get("Cookie") != "x=1; y="+r.id {
		bad("P06", "header", "Cookie is %q", s.hdr["Cookie"])
	}
	if r.Spec.Spoof&spoofHop != 0 && h.proto != "h2" && s.hdr.Get("X-Hop") != "" {
		bad("P06", "hop-header", "the hop-by-hop header X-Hop was forwarded")
	}
	client, _ := peerOf(m.v1.spec, sp.Src, sp.Via, sp.ViaSrc)
	for _, v := range s.hdr["X-Forwarded-For"] {
		if v != client {
			bad("P06", "spoofed-xff", "X-Forwarded-For is %q, the client is %s", v, client)
		}
	}
	if v := s.hdr["X-Forwarded-Client-Cert"]; len(v) > 0 {
		for i, c := range cs { // (the configuration in force at the handshake is the one that counts)
			if c.o == oServe && len(c.b.XFCC) > 0 {
				m = &cs[i]
			}
		}
		ok := len(m.b.XFCC) > 0 && sp.Cert > 0 && len(v) == 1 && !strings.Contains(v[0], "admin")
		if ok && slices.Contains(m.b.XFCC, "subject") && len(e.certs[sp.Cert-1].leaf.Subject.CommonName) > 0 {
			ok = strings.Contains(v[0], e.certs[sp.Cert-1].leaf.Subject.CommonName)
		}
		if !ok {
			bad("P06", "spoofed-xfcc", "X-Forwarded-Client-Cert is %q, client certificate %d", v, sp.Cert)
		}
	}
	if s.Port == portHTTPPP || s.Port == portHTTPSPP {
		want := net.JoinHostPort(sp.Src, fmt.Sprint(h.sock.local.Port))
		if sp.Via != "" {
			want = net.JoinHostPort(sp.ViaSrc, "33333")
		}
		if s.ppErr != "" || s.ppSrc != want {
			bad("P06", "pp-mixed", "it came on a connection whose PROXY header says %q (%s), the client is %s", s.ppSrc, s.ppErr, want)
		}
	}
	if s.corrupt != "" {
		bad("P06", "body", "%s", s.corrupt)
	}
	if s.got > r.Spec.Up || (s.bodyErr == nil && s.tEnd > 0 && s.got != r.Spec.Up && r.Spec.Beh == "" && s.complete) {
		bad("P06", "body", "the body has %d bytes, want %d", s.got, r.Spec.Up)
	}
}

func (e *edge) misbehaves(b *BeSpec) bool {
	for _, r := range e.hreqs {
		if r.Spec.Beh != "" || r.Spec.Cancel != 0 {
			return true
		}
	}
	return false
}

func (e *edge) checkResponse(r *ReqRec, seen []*HSrvRec) {
	w := e.w
	h := r.hc
	sp := h.Spec
	bad := func(prop, class, f string, a ...any) {
		w.violate(prop, class, "request %s (%s %s%s): %s", r.id, r.Spec.Method, r.Spec.Host, r.Spec.Path, fmt.Sprintf(f, a...))
	}
	if len(seen) > 1 && !idempotent(r.Spec.Method) {
		bad("P06", "duplicated", "delivered %d times", len(seen))
	}
	if r.respID != "" && r.respID != r.id {
		bad("P06", "swapped", "got the response of request %q", r.respID)
		return
	}
	if r.respID != "" && len(seen) == 0 {
		bad("P06", "invented", "got a response but no server received the request")
	}
	if r.corrupt != "" {
		bad("P06", "resp-body", "%s", r.corrupt)
	}
	if r.hdrErr != "" {
		bad("P06", "resp-header", "%s", r.hdrErr)
	}
	want := r.Spec.Status
	if want == 0 {
		want = 200
	}
	if r.respID != "" && r.status != want {
		bad("P06", "status", "status is %d, the server sent %d", r.status, want)
	}
	size := r.Spec.Down
	if r.Spec.Method == "HEAD" || want == 204 || want == 304 {
		size = 0
	}
	if r.respID != "" && (r.got > size || (r.complete && r.got != size)) {
		if !(r.complete && r.Spec.NoLen && (r.Spec.Beh == "trunc")) {
			bad("P06", "resp-body", "%d bytes of body, complete %v, want %d", r.got, r.complete, size)
		}
	}
	if r.complete && r.Spec.Beh == "trunc" && r.respID != "" && size > 0 && r.got < size {
		bad("P06", "resp-truncated", "a truncated response was passed on as complete (%d of %d bytes)", r.got, size)
	}
	if r.Spec.Beh != "" && r.Spec.Beh != "close" || r.canceled {
		return
	}
	// Was it disturbed?
	if pairDisturbed(h.sock) || e.partHit(h.tStart, r.tEnd, sp.Src, "10.0.0.1") {
		return
	}
	for _, o := range h.reqs {
		if o.canceled && h.proto != "h2" {
			return
		}
	}
	for _, s := range seen {
		if pairDisturbed(s.conn) || e.partHit(h.tStart, r.tEnd, fmt.Sprintf("10.1.0.%d", s.Srv+1)) {
			return
		}
	}
	ok := r.complete && r.respID == r.id && r.err == nil
	if ok {
		w.probe("request-ok-" + h.proto)
		return
	}
	// Other requests' misbehaving servers share connections with it.
	misb := e.misbehaves(nil)
	// In flight when a reconfiguration or the shutdown came?
	inflight := func(at time.Duration) bool {
		return len(seen) > 0 && seen[0].tStart < at && r.tEnd > at
	}
	if e.shutAt >= 0 && r.tEnd > e.shutAt {
		if !inflight(e.shutAt) || misb {
			return
		}
		// How long would the server have taken?
		need := time.Duration(r.Spec.SrvMs)*time.Millisecond + time.Duration(r.Spec.DnGap)*time.Millisecond*time.Duration(1+r.Spec.Down/8192) + time.Duration(r.Spec.UpGap)*time.Millisecond*time.Duration(1+r.Spec.Up/4096)
		if r.tStart+need+30*time.Second > e.shutDl {
			return
		}
		if len(e.window(r.tStart, r.tEnd)) > 1 {
			return
		}
		bad("P07", "in-flight-lost", "it was in flight when Shutdown was called and got status %d, %d bytes, err %v", r.status, r.got, r.err)
		return
	}
	vs := e.window(h.tStart-time.Second, r.tEnd)
	if len(vs) > 1 {
		if misb {
			return
		}
		// All of them must agree to serve it for the guarantee to hold.
		var mode string
		var auth bool // a client without certificate is closed when one becomes required
		for _, v := range vs {
			o, b := e.expect(v.spec, v.spec, sp.Src, sp.Via, sp.ViaSrc, sp.SNI, sp.ALPN, sp.Cert)
			if o != oServe || (mode != "" && (mode != b.Mode || auth != (len(b.CAs) > 0))) {
				return
			}
			mode, auth = b.Mode, len(b.CAs) > 0
		}
		for _, v := range vs[1:] {
			if v.from > h.tSettle && inflight(v.from) {
				bad("P03", "in-flight-lost", "it was in flight when the configuration changed and got status %d, %d bytes, err %v", r.status, r.got, r.err)
				return
			}
		}
		return
	}
	if !h.hsDone || len(vs) == 0 {
		return
	}
	o, b := e.expect(vs[0].spec, vs[0].spec, sp.Src, sp.Via, sp.ViaSrc, sp.SNI, sp.ALPN, sp.Cert)
	if o != oServe || b.Mode != "HTTP" && b.Mode != "HTTPS" {
		return
	}
	host := r.Spec.Host
	if host == "" {
		host = sp.SNI
	}
	if hn, _, err := net.SplitHostPort(host); err == nil {
		host = hn
	}
	if !slices.Contains(b.Names, host) {
		if r.status != 421 && h.hsDone && r.err == nil && r.started {
			bad("P06", "misdirected", "status is %d, want 421", r.status)
		} else if r.status == 421 {
			w.probe("misdirected")
		}
		return
	}
	if misb {
		return
	}
	// An earlier failure on the same connection explains later ones.
	for _, q := range h.reqs {
		if q == r {
			break
		}
		if q.err != nil || q.Spec.Method == "" && q.status == 0 {
			return
		}
		if h.proto != "h2" && q.status != 0 && q.respID == "" {
			return
		}
	}
	// Idle connections are closed after 30 seconds.
	if r.Spec.GapMs > 25000 {
		return
	}
	up, _, _ := strings.Cut(r.Spec.Path, "?")
	addrs, _ := target(b, up)
	tb := &BeSpec{Addrs: addrs}
	if e.backendDisturbed(tb, r.tStart, r.tEnd) {
		w.inconclusive()
		return
	}
	// (It may share a dial that began before, and takes up to the timeout.)
	if e.unreachable(tb, r.tStart-35*time.Second*time.Duration(len(addrs)), r.tEnd) {
		return
	}
	for _, a := range addrs {
		if e.addrDown(a, r.tStart, r.tEnd) {
			bad("P05", "reachable-not-served", "status %d err %v, although not all the addresses are down", r.status, r.err)
			return
		}
	}
	bad("P06", "not-answered", "status %d, %d bytes, complete %v, err %v (server saw it %d times)", r.status, r.got, r.complete, r.err, len(seen))
}

// checkDials: addresses are tried at most once per connection and used evenly.
func (e *edge) checkDials() {
	w := e.w
	if len(e.vers) != 1 {
		return
	}
	c := e.vers[0].spec
	users := map[string]int{} // backends per address
	for i := range c.Be {
		b := &c.Be[i]
		for _, a := range b.Addrs {
			users[e.srvAddr(a, b.Mode, b.PP)]++
		}
		for _, o := range b.Over {
			for _, a := range o.Addrs {
				users[e.srvAddr(a, b.Mode, o.PP)] += 2
			}
		}
	}
	failed := false
	perAddr := map[string]int{}
	for _, d := range e.dials {
		perAddr[d.addr]++
		if d.kind != "" && d.kind != "lat" {
			failed = true
		}
	}
	if len(e.parts) > 0 {
		failed = true
	}
	aborts := len(w.plan.Faults) > 0
	for _, h := range e.hconns {
		aborts = aborts || h.Spec.End == "abort"
		for _, q := range h.Spec.Reqs {
			aborts = aborts || q.Cancel != 0 || q.Beh != ""
		}
	}
	one := func(i int, b *BeSpec, addrs []int, pp string, weight int, over bool) {
		if len(addrs) == 0 || isHTTP(b) && aborts {
			return
		}
		seen := map[int]bool{}
		for _, a := range addrs {
			if users[e.srvAddr(a, b.Mode, pp)] != weight || seen[a] {
				return
			}
			seen[a] = true
		}
		conns := 0
		for _, r := range e.conns {
			if selectBe(c, r.Spec.SNI, r.Spec.ALPN) == b {
				conns++
			}
		}
		for _, h := range e.hconns {
			if selectBe(c, h.Spec.SNI, h.Spec.ALPN) == b {
				conns += 1 + len(h.reqs) // (it may connect again for each request)
			}
		}
		lo, hi := 1<<30, 0
		for _, a := range addrs {
			n := perAddr[e.srvAddr(a, b.Mode, pp)]
			lo, hi = min(lo, n), max(hi, n)
			w.check()
			if n > conns && !isHTTP(b) {
				w.violate("P05", "tried-twice", "address %d of backend %d was dialled %d times for %d connections", a, i, n, conns)
			}
		}
		if !failed && hi-lo > 1 {
			w.violate("P05", "uneven", "the addresses of backend %d were used between %d and %d times although all are healthy", i, lo, hi)
		}
		if hi > 1 && over {
			w.probe("override-dials")
		}
		if failed {
			w.probe("dial-failures")
		}
	}
	for i := range c.Be {
		b := &c.Be[i]
		one(i, b, b.Addrs, b.PP, 1, false)
		for _, o := range b.Over {
			one(i, b, o.Addrs, o.PP, 2, true)
		}
	}
}

// checkMaxOpen: never more connections served at once than configured.
func (e *edge) checkMaxOpen(steps []openStep) {
	lim := 0
	for _, v := range e.vers {
		m := v.spec.MaxOpen
		if m == 0 {
			return
		}
		lim = max(lim, m)
	}
	var ss []openStep
	add := func(sock *simConn) {
		p := sock.pair
		if p.acceptAt.IsZero() {
			return
		}
		ss = append(ss, openStep{e.rel(p.acceptAt), 1})
		if p.ep[1].closed {
			ss = append(ss, openStep{e.rel(p.ep[1].closedAt), -1})
		}
	}
	for _, r := range e.conns {
		if r.greeted >= 0 {
			add(r.sock)
		}
	}
	for _, h := range e.hconns {
		if h.hsDone {
			add(h.sock)
		}
	}
	sort.Slice(ss, func(a, b int) bool {
		if ss[a].at == ss[b].at {
			return ss[a].d < ss[b].d
		}
		return ss[a].at < ss[b].at
	})
	n := 0
	for _, s := range ss {
		n += s.d
		if n > lim {
			e.w.violate("P08", "max-open", "%d connections were served at once, the maximum is %d", n, lim)
			return
		}
	}
	e.w.check()
}

// checkRates: forward rate limits.
func (e *edge) checkRates() {
	w := e.w
	names := map[string]bool{}
	for _, v := range e.vers {
		for i := range v.spec.Be {
			names[v.spec.Be[i].Names[0]] = true
		}
	}
	for n := range names {
		// Every configuration must give this backend the same place.
		rate := 0
		skip := false
		for _, v := range e.vers {
			for i := range v.spec.Be {
				b := &v.spec.Be[i]
				if b.Names[0] != n {
					continue
				}
				if b.Rate == 0 || len(b.Over) > 0 {
					skip = true
				}
				rate = max(rate, b.Rate)
			}
		}
		if skip || rate == 0 {
			continue
		}
		// When each token was taken from the bucket, at the earliest and at
		// the latest. The first request of an HTTP connection uses the token
		// of the connection; of concurrent requests any may be the first.
		type tok struct {
			lo, hi time.Duration
			par    int
			ver    *cfgVer
		}
		// Every version has a limiter of its own, which the connections that
		// were set up under that version use.
		verOf := func(from, to time.Duration) *cfgVer {
			if vs := e.window(from, to); len(vs) == 1 {
				return vs[0]
			}
			return nil
		}
		var toks []tok
		for _, r := range e.conns {
			if r.greeted < 0 || r.Spec.SNI != n {
				continue
			}
			for _, s := range e.srec {
				if s.Srv == r.greeted && s.Seq == r.greetSeq {
					toks = append(toks, tok{r.tStart, s.tAccept, 0, verOf(r.tStart, r.tSettle)})
				}
			}
		}
		for i, h := range e.hconns {
			if h.Spec.SNI != n {
				continue
			}
			first := true
			for _, r := range h.reqs {
				for _, s := range e.hsrv {
					if s.id != r.id {
						continue
					}
					t := tok{r.tStart, s.tStart, 0, verOf(h.tStart, h.tSettle)}
					if h.Spec.Par {
						t.par = i + 1
					} else if first {
						t.lo = h.tStart
					}
					first = false
					toks = append(toks, t)
					break // (a retry within the proxy takes no token)
				}
			}
		}
		w.check()
		if len(toks) > rate {
			w.probe("rate-limited")
		}
	L:
		for _, x := range toks {
			for _, y := range toks {
				if x.ver == nil || y.ver != x.ver || y.hi <= x.lo {
					continue
				}
				got := 0
				par := map[int]bool{}
				for _, t := range toks {
					if t.ver != x.ver || t.lo < x.lo || t.hi > y.hi {
						continue
					}
					if t.par != 0 && !par[t.par] {
						par[t.par] = true
						continue
					}
					got++
				}
				d := y.hi - x.lo
				if lim := float64(rate)*(d.Seconds()+0.01) + float64(rate); float64(got) > lim+0.5 {
					w.violate("P08", "rate", "%d connections and requests were forwarded to %s within %v, the limit is %d per second", got, n, d, rate)
					break L
				}
			}
		}
	}
}

// checkBandwidth: bytes moved with the clients of a group.
func (e *edge) checkBandwidth() {
	w := e.w
	groups := map[string]bool{}
	for _, v := range e.vers {
		for _, b := range v.spec.BW {
			groups[strings.ToLower(b.Name)] = true
		}
	}
	// limitAt returns the highest limit that may be in force at some time.
	limitAt := func(g string, out bool, at time.Duration) float64 {
		cur, best := 0.0, 0.0
		for _, v := range e.vers {
			if v.from > at {
				break
			}
			prev := cur
			for _, b := range v.spec.BW {
				if strings.ToLower(b.Name) == g {
					cur = b.In
					if out {
						cur = b.Out
					}
				}
			}
			best = cur
			if v.ret == 0 || at <= v.ret {
				best = max(cur, prev)
			}
		}
		return best
	}
	if len(groups) == 0 {
		return
	}
	bad := false
	for _, op := range w.plan.Ops {
		if op.K == "reconf" && int(op.A) < len(e.cfgs) && e.cfgs[op.A].Bad != "" {
			bad = true
		}
	}
	for g := range groups {
		for _, dir := range []bool{false, true} {
			limit, burst := 0.0, float64(1<<17)
			for _, v := range e.vers {
				limit = max(limit, limitAt(g, dir, v.from))
			}
			burst = max(burst, limit)
			var io []ioRec
			nc := 0
			for _, p := range e.w.net.conns {
				if p.ep[1].node != e.node || len(p.ioLog) == 0 {
					continue
				}
				if e.groupOf(p) != g {
					continue
				}
				nc++
				for _, r := range p.ioLog {
					if r.out == dir {
						io = append(io, r)
					}
				}
			}
			sort.SliceStable(io, func(a, b int) bool { return io[a].at < io[b].at })
			// The ClientHello comes before the limit.
			level, worst, total := 0.0, 0.0, 0
			last := time.Duration(0)
			for _, r := range io {
				leak := 0.0
				for t := last; t < r.at; {
					u := r.at
					for _, v := range e.vers {
						for _, x := range []time.Duration{v.from, v.ret} {
							if x >= t && x+1 < u {
								u = x + 1
							}
						}
					}
					leak += (u - t).Seconds() * max(limitAt(g, dir, t), limitAt(g, dir, u-1))
					t = u
				}
				level = max(0, level-leak) + float64(r.n)
				last = r.at
				total += r.n
				worst = max(worst, level)
			}
			w.check()
			if total > int(burst) {
				w.probe("bandwidth-limited")
			}
			slack := float64(nc)*32768 + limit*0.2 + 10*limit*float64(e.w.plan.Sched.StallMs)/1000
			if worst > burst+slack {
				prop := "P08"
				if bad {
					prop = "P03"
				}
				w.violate(prop, "bandwidth", "group %q moved %.0f bytes above its rate of %.0f B/s (out=%v, %d bytes in all), the burst is %.0f", g, worst, limit, dir, total, burst)
			}
		}
	}
}

func (e *edge) groupOf(p *simConnPair) string {
	var sni string
	var alpn []string
	found := false
	for _, r := range e.conns {
		if r.sock != nil && r.sock.pair == p {
			sni, alpn, found = r.Spec.SNI, r.Spec.ALPN, true
		}
	}
	for _, h := range e.hconns {
		if h.sock != nil && h.sock.pair == p {
			sni, alpn, found = h.Spec.SNI, h.Spec.ALPN, true
		}
	}
	if !found {
		return ""
	}
	g := "-"
	for _, v := range e.vers {
		b := selectBe(v.spec, sni, alpn)
		if b == nil {
			return ""
		}
		k := strings.ToLower(b.BW)
		if g != "-" && g != k {
			return ""
		}
		g = k
	}
	return g
}

func (e *edge) checkShutdown() {
	if e.shutAt < 0 || e.shutRet == 0 {
		return
	}
	w := e.w
	w.check()
	if e.shutRet > e.shutDl+20*time.Second {
		w.violate("P07", "shutdown-late", "Shutdown returned %v after its deadline", e.shutRet-e.shutDl)
	}
	// The last connection that is HTTP or not set up yet.
	last := e.shutAt
	for _, p := range e.w.net.conns {
		if p.ep[1].node != e.node || p.acceptAt.IsZero() {
			continue
		}
		stream := false
		for _, r := range e.conns {
			if r.sock != nil && r.sock.pair == p && r.greeted >= 0 && r.tSettle < e.shutAt {
				stream = true
			}
		}
		if stream {
			continue
		}
		if !p.ep[1].closed {
			last = 1 << 62
			continue
		}
		last = max(last, e.rel(p.ep[1].closedAt))
	}
	if e.shutRet > last+15*time.Second && e.shutRet > e.shutAt+15*time.Second {
		w.violate("P07", "shutdown-waits", "Shutdown returned %v after the last HTTP connection was closed", e.shutRet-last)
	}
	// Requests cut short before the deadline are reported by checkResponse.
}
