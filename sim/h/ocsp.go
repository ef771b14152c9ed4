package main

// OCSP (P19): client and backend certificates whose issuers run responders
// that can be trusted more or less.

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

// OcspSpec is the set-up of a run.
type OcspSpec struct {
	Certs []OcCert `json:"certs"`
	Inter []int    `json:"inter,omitempty"` // responders of the intermediate CA's certificate
	TTL   []int64  `json:"ttl"`             // how long answers of each responder are valid, in seconds
	Deleg []bool   `json:"deleg"`           // each responder signs with a delegated key
	NResp int      `json:"nresp"`
	HTTPS bool     `json:"https,omitempty"` // mode of the backend with the certificates
}

// OcCert is a certificate of a client or a backend server.
type OcCert struct {
	Srv   bool   `json:"srv,omitempty"`
	Root  bool   `json:"root,omitempty"` // issued by the root CA
	Resp  []int  `json:"resp,omitempty"` // responders
	Bad   string `json:"bad,omitempty"`  // bad URL after, or before, the others
	First bool   `json:"first,omitempty"`
}

type ocCert struct {
	spec   *OcCert
	name   string
	tc     tls.Certificate
	issuer *ocCA
	stat   []ocStat // what its issuer thinks of it
	ans    []*ocAns // what its issuer has said about it

	kept    []byte // what the server staples
	keptAns ocAns
}

type ocStat struct {
	at     time.Duration
	status int
}

type ocAns struct {
	at         time.Duration // when it was sent
	status     int
	this, next time.Duration // wall clock; next 0 if it is not there
	staple     bool
	slow       bool
	hs         *ocHS
}

type ocCA struct {
	key   *ecdsa.PrivateKey
	cert  *x509.Certificate
	deleg tls.Certificate
	user  tls.Certificate // somebody's certificate
}

// ocMode is how a responder behaves.
type ocMode struct {
	from time.Duration
	s    string
}

type ocHS struct {
	n        int
	cert     *ocCert
	from, to time.Duration
	ok       bool
	err      string
	fwd      bool
	staple   string
}

type ocWorld struct {
	*mini
	spec  *OcspSpec
	root  ocCA
	inter ocCA
	evil  ocCA
	ca    *ocCert // the intermediate CA's certificate
	certs []*ocCert
	modes [][]ocMode
	parts []span
	mu    sync.Mutex
	hss   []*ocHS
	fwdMu sync.Mutex // one connection to the backend at a time
	fwd   *ocHS
	cache map[int]tls.ClientSessionCache
	nconf int
}

func ocURL(i int) string { return fmt.Sprintf("http://10.3.0.%d/ocsp", i+1) }

func (c *ocCert) at(t time.Duration) int {
	st := ocsp.Good
	for _, s := range c.stat {
		if s.at <= t {
			st = s.status
		}
	}
	return st
}

func (o *ocWorld) makeCerts() {
	o.root.key, o.root.cert = caKeyPair("OCSP root", "")
	o.evil.key, o.evil.cert = caKeyPair("OCSP root", "")
	mk := func(iss *ocCA, name string, ca bool, urls []string, eku ...x509.ExtKeyUsage) tls.Certificate {
		t := &x509.Certificate{Subject: pkix.Name{CommonName: name}, OCSPServer: urls, ExtKeyUsage: eku,
			NotBefore: time.Unix(0, baseTime).Add(-24 * time.Hour * 30), NotAfter: time.Unix(0, baseTime).Add(10 * 365 * 24 * time.Hour)}
		if ca {
			t.IsCA, t.BasicConstraintsValid = true, true
			t.KeyUsage = x509.KeyUsageCertSign | x509.KeyUsageCRLSign | x509.KeyUsageDigitalSignature
		}
		if strings.HasPrefix(name, "srv") {
			t.DNSNames = []string{"srv.internal"}
		}
		return issueCert(iss.cert, iss.key, t)
	}
	var urls []string
	for _, r := range o.spec.Inter {
		urls = append(urls, ocURL(r))
	}
	itc := mk(&o.root, "OCSP intermediate", true, urls)
	o.inter.key, o.inter.cert = itc.PrivateKey.(*ecdsa.PrivateKey), itc.Leaf
	o.ca = &ocCert{spec: &OcCert{Resp: o.spec.Inter}, name: "the intermediate CA", tc: itc, issuer: &o.root}
	for _, ca := range []*ocCA{&o.root, &o.inter, &o.evil} {
		ca.deleg = mk(ca, "responder", false, nil, x509.ExtKeyUsageOCSPSigning)
		ca.user = mk(ca, "somebody", false, nil, x509.ExtKeyUsageClientAuth)
	}
	for i := range o.spec.Certs {
		s := &o.spec.Certs[i]
		var urls []string
		for _, r := range s.Resp {
			urls = append(urls, ocURL(r))
		}
		if s.Bad != "" {
			if s.First {
				urls = append([]string{s.Bad}, urls...)
			} else {
				urls = append(urls, s.Bad)
			}
		}
		c := &ocCert{spec: s, issuer: &o.inter}
		if s.Root {
			c.issuer = &o.root
		}
		eku := x509.ExtKeyUsageClientAuth
		c.name = fmt.Sprintf("user%d", i)
		if s.Srv {
			eku = x509.ExtKeyUsageServerAuth
			c.name = fmt.Sprintf("srv%d", i)
		}
		c.tc = mk(c.issuer, c.name, false, urls, eku)
		if !s.Root {
			c.tc.Certificate = append(c.tc.Certificate, o.inter.cert.Raw)
		}
		o.certs = append(o.certs, c)
	}
}

func (o *ocWorld) config() *proxy.Config {
	o.nconf++
	c := &proxy.Config{
		TLSAddr: "10.0.0.1:443", EnableQUIC: ptr(false), CacheDir: "/simdisk/ocsp", MaxOpen: 1000 + o.nconf,
	}
	c.Backends = append(c.Backends, &proxy.Backend{
		ServerNames: []string{"app.example.com"}, Mode: "TCP", Addresses: []string{"10.1.0.1:9000"}, ForwardRateLimit: 100000,
		ClientAuth: &proxy.ClientAuth{RootCAs: []string{certPEM(o.root.cert)}},
	})
	mode := "TLS"
	c.Backends = append(c.Backends, &proxy.Backend{
		ServerNames: []string{"fwd.example.com"}, Mode: mode, Addresses: []string{"10.1.1.1:8443"}, ForwardRateLimit: 100000,
		ForwardServerName: "srv.internal", ForwardRootCAs: []string{certPEM(o.root.cert)}, ForwardTimeout: 30 * time.Second,
	})
	return c
}

// greet is a server that greets its clients and waits for them to leave.
func greet(c net.Conn) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(2 * time.Minute))
	if _, err := c.Write([]byte("hello\n")); err != nil {
		return
	}
	io.Copy(io.Discard, c)
}

func (o *ocWorld) startServers() {
	w := o.w
	n := w.newNode("10.1.0.1")
	w.in(n, func() {
		l, err := w.net.listen(n, "tcp", "10.1.0.1:9000")
		if err != nil {
			panic(err)
		}
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go greet(c)
			}
		}()
	})
	n2 := w.newNode("10.1.1.1")
	w.in(n2, func() {
		l, err := w.net.listen(n2, "tcp", "10.1.1.1:8443")
		if err != nil {
			panic(err)
		}
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				o.mu.Lock()
				hs := o.fwd
				o.mu.Unlock()
				if hs == nil {
					c.Close()
					continue
				}
				go func() {
					tc := hs.cert.tc
					tc.OCSPStaple = o.staple(hs)
					t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{tc}, SessionTicketsDisabled: true})
					c.SetDeadline(time.Now().Add(2 * time.Minute))
					if err := t.Handshake(); err != nil {
						c.Close()
						return
					}
					greet(t)
				}()
			}
		}()
	})
	for i := 0; i < o.spec.NResp; i++ {
		ip := fmt.Sprintf("10.3.0.%d", i+1)
		n := w.newNode(ip)
		w.in(n, func() {
			l, err := w.net.listen(n, "tcp", ip+":80")
			if err != nil {
				panic(err)
			}
			go (&http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) { o.respond(i, rw, req) })}).Serve(l)
		})
	}
}

// sign makes an answer.
func sign(ca *ocCA, with *tls.Certificate, t ocsp.Response) []byte {
	key, cert := crypto.Signer(ca.key), ca.cert
	if with != nil {
		key, cert = with.PrivateKey.(crypto.Signer), with.Leaf
		t.Certificate = cert
	}
	t.IssuerHash = crypto.SHA1
	b, err := ocsp.CreateResponse(ca.cert, cert, t, key)
	if err != nil {
		panic(err)
	}
	return b
}

func secs(d time.Duration) time.Duration { return d / time.Second * time.Second }

// answer makes an answer about a certificate, the way mode says. It returns a
// record if the answer can be believed.
func (o *ocWorld) answer(c *ocCert, resp int, mode string) ([]byte, *ocAns) {
	now := o.w.since()
	st := c.at(now)
	ttl := time.Duration(o.spec.TTL[resp%len(o.spec.TTL)]) * time.Second
	a := &ocAns{at: now, status: st, this: secs(now) - time.Minute, next: secs(now) + ttl}
	var with *tls.Certificate
	ca := c.issuer
	if o.spec.Deleg[resp%len(o.spec.Deleg)] {
		with = &ca.deleg
	}
	serial := c.tc.Leaf.SerialNumber
	ok := true
	switch mode {
	case "none":
	case "nonext":
		a.next = 0
	case "lie": // the answer of somebody who is not the issuer's delegate
		st, ok = ocsp.Good, false
		with = &ca.user
	case "own": // of the certificate's own key
		st, ok = ocsp.Good, false
		with = &tls.Certificate{PrivateKey: c.tc.PrivateKey, Leaf: c.tc.Leaf}
	case "evil": // of another CA of the same name
		st, ok = ocsp.Good, false
		ca, with = &o.evil, nil
	case "evildeleg":
		st, ok = ocsp.Good, false
		ca, with = &o.evil, &o.evil.deleg
	case "otherca": // of the other CA
		st, ok = ocsp.Good, false
		if ca == &o.root {
			ca = &o.inter
		} else {
			ca = &o.root
		}
		with = nil
	case "other": // about another certificate
		st, ok = ocsp.Good, false
		serial = new(big.Int).Add(serial, big.NewInt(1))
	case "old": // replayed
		st = ocsp.Good
		a.status, a.this, a.next = st, secs(now)-3*ttl-2*time.Hour, secs(now)-ttl-time.Hour
	case "future":
		st = ocsp.Good
		a.status, a.this, a.next = st, secs(now)+24*time.Hour, secs(now)+24*time.Hour+ttl
	case "unknown":
		st = ocsp.Unknown
		a.status = st
	case "bitflip":
		ok = false
	}
	t := ocsp.Response{Status: st, SerialNumber: serial, ThisUpdate: time.Unix(0, baseTime).Add(a.this)}
	if a.next != 0 {
		t.NextUpdate = time.Unix(0, baseTime).Add(a.next)
	}
	if st == ocsp.Revoked {
		t.RevokedAt = time.Unix(0, baseTime).Add(a.this)
	}
	b := sign(ca, with, t)
	if mode == "bitflip" {
		b[len(b)-1-int(o.w.netRand(60))] ^= 1
	}
	if !ok {
		a = nil
	}
	return b, a
}

func (o *ocWorld) mode(i int, t time.Duration) string {
	m := "none"
	for _, x := range o.modes[i] {
		if x.from <= t {
			m = x.s
		}
	}
	return m
}

// respond is a responder.
func (o *ocWorld) respond(i int, rw http.ResponseWriter, req *http.Request) {
	b, _ := io.ReadAll(req.Body)
	q, err := ocsp.ParseRequest(b)
	if err != nil || req.Method != "POST" {
		http.Error(rw, "bad request", 400)
		return
	}
	var c *ocCert
	for _, x := range append([]*ocCert{o.ca}, o.certs...) {
		if x.tc.Leaf.SerialNumber.Cmp(q.SerialNumber) == 0 {
			c = x
		}
	}
	if c == nil {
		rw.Write(ocsp.UnauthorizedErrorResponse)
		return
	}
	o.mu.Lock()
	mode := o.mode(i, o.w.since())
	o.mu.Unlock()
	o.w.ev("responder %d is asked about %s (%s)", i, c.name, mode)
	if mode != "none" {
		o.w.fault("responder-" + mode)
	}
	rw.Header().Set("content-type", "application/ocsp-response")
	switch mode {
	case "hang":
		time.Sleep(time.Minute)
		panic(http.ErrAbortHandler)
	case "close":
		panic(http.ErrAbortHandler)
	case "500":
		rw.WriteHeader(500)
		io.WriteString(rw, "sorry")
		return
	case "later":
		rw.Write(ocsp.TryLaterErrorResponse)
		return
	case "garbage":
		rw.Write(bytes.Repeat([]byte{0x30, 0x82}, 400))
		return
	case "empty":
		return
	case "huge":
		for j := 0; j < 400; j++ {
			if _, err := rw.Write(bytes.Repeat([]byte{0x30, 0x82}, 4096)); err != nil {
				return
			}
		}
		return
	case "slow":
		time.Sleep(time.Duration(1+o.w.netRand(6)) * time.Second)
	}
	m := mode
	if m == "slow" {
		m = "none"
	}
	body, a := o.answer(c, i, m)
	if m == "cut" {
		body = body[:len(body)/2]
		a = nil
	}
	if a != nil {
		a.slow = mode == "slow"
		o.mu.Lock()
		c.ans = append(c.ans, a)
		o.mu.Unlock()
		o.w.ev("it says %d until %v", a.status, a.next)
	}
	rw.Write(body)
}

// staple makes the answer that a backend server sends along.
func (o *ocWorld) staple(hs *ocHS) []byte {
	if hs.staple == "" || len(hs.cert.tc.Leaf.OCSPServer) == 0 && hs.staple != "none" {
		return nil
	}
	mode := hs.staple
	if mode == "replay" {
		mode = "none"
	}
	b, a := o.answer(hs.cert, 0, mode)
	if c := hs.cert; hs.staple == "replay" {
		// The server keeps an answer as long as it is valid.
		o.mu.Lock()
		if c.kept == nil || c.keptAns.next < o.w.since() {
			c.kept, c.keptAns = b, *a
		} else {
			b = c.kept
			k := c.keptAns
			k.at = a.at
			a = &k
		}
		o.mu.Unlock()
	}
	o.w.fault("staple-" + hs.staple)
	if a != nil {
		a.staple, a.hs = true, hs
		o.mu.Lock()
		hs.cert.ans = append(hs.cert.ans, a)
		o.mu.Unlock()
	}
	return b
}

// connect makes a connection and finds out whether the certificate was good.
func (o *ocWorld) connect(op *Op) {
	w := o.w
	c := o.certs[int(op.A)%len(o.certs)]
	hs := &ocHS{cert: c, fwd: c.spec.Srv}
	if hs.fwd {
		o.fwdMu.Lock()
		defer o.fwdMu.Unlock()
		hs.staple = op.S
	}
	o.mu.Lock()
	hs.n = len(o.hss)
	o.hss = append(o.hss, hs)
	if hs.fwd {
		o.fwd = hs
	}
	o.mu.Unlock()
	hs.from = w.since()
	tc := &tls.Config{ServerName: "fwd.example.com", InsecureSkipVerify: true}
	if !hs.fwd {
		tc.ServerName = "app.example.com"
		tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &c.tc, nil }
		if op.C&1 != 0 {
			tc.MaxVersion = tls.VersionTLS12
		}
		if op.C&2 != 0 {
			o.mu.Lock()
			k := int(op.A)%len(o.certs)*2 + int(op.C&1)
			if o.cache[k] == nil {
				o.cache[k] = tls.NewLRUClientSessionCache(4)
			}
			tc.ClientSessionCache = o.cache[k]
			o.mu.Unlock()
		}
	}
	resumed := false
	err := func() error {
		conn, err := w.net.dial(ctxTimeout(10*time.Second), 0, fmt.Sprintf("192.0.2.%d", 10+op.W), "tcp", "10.0.0.1:443")
		if err != nil {
			return err
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(50 * time.Second))
		t := tls.Client(conn, tc)
		if err := t.Handshake(); err != nil {
			return err
		}
		resumed = t.ConnectionState().DidResume
		b := make([]byte, 6)
		if _, err := io.ReadFull(t, b); err != nil {
			return err
		}
		if string(b) != "hello\n" {
			return errors.New("bad greeting")
		}
		t.Close()
		return nil
	}()
	hs.to = w.since()
	if err != nil {
		hs.err = err.Error()
	} else {
		hs.ok = true
	}
	if resumed {
		w.probe("resumed")
	}
	w.ev("connection %d with %s ok=%v", hs.n, c.name, hs.ok)
	if hs.fwd {
		o.mu.Lock()
		o.fwd = nil
		o.mu.Unlock()
		time.Sleep(time.Second)
	}
	o.judge(hs)
}

// believable tells whether some answer makes the certificate acceptable
// during an interval.
func (o *ocWorld) believable(hs *ocHS, c *ocCert, from, to time.Duration) bool {
	lo, hi := o.wall(from, to)
	for _, a := range c.ans {
		if a.status != ocsp.Good || a.at > to {
			continue
		}
		if a.next == 0 {
			if a.at >= from {
				return true
			}
			continue
		}
		// An answer that came before the clock was set back is good enough.
		_, then := o.wall(a.at-time.Second, a.at+10*time.Second)
		if a.next >= secs(lo) && a.this <= max(hi, then)+time.Hour {
			return true
		}
	}
	return false
}

// known tells what a proxy that keeps what it hears must know about a
// certificate: the status if it is certain, otherwise -1.
func (o *ocWorld) known(hs *ocHS, c *ocCert, from, to time.Duration) int {
	lo, hi := o.wall(from, to)
	boot := time.Duration(0)
	for _, b := range o.boots {
		if b <= to {
			boot = b
		}
	}
	// The last one counts.
	var last *ocAns
	for _, a := range c.ans {
		if a.staple && (a.status != ocsp.Good || a.hs == hs) {
			continue // the proxy asks the responder
		}
		if a.at <= to && (last == nil || a.at > last.at) {
			last = a
		}
	}
	if last == nil || last.next == 0 || last.next <= hi+2*time.Second || last.this > lo || last.at > from-15*time.Second {
		return -1
	}
	for _, a := range c.ans {
		switch {
		case a.staple && a.hs == hs:
		case a != last && a.status != last.status && a.at > last.at-15*time.Second && a.at <= to+time.Second:
			return -1
		case a != last && a.at > last.at-15*time.Second && a.at <= to+time.Second && (a.next == 0 || a.next < last.next):
			return -1
		}
	}
	if l, h := o.wall(last.at, last.at+10*time.Second); o.lost(last) || last.this > l || last.next <= h {
		return -1
	}
	if last.staple && (!last.hs.ok || last.hs.to+time.Second > from) {
		return -1 // it may not have been looked at
	}
	if last.at < boot {
		// It was saved if the process lived long enough afterwards.
		end := time.Duration(1 << 62)
		for _, d := range o.downs {
			if d.from > last.at {
				end = min(end, d.from)
			}
		}
		if end-last.at < 90*time.Second {
			return -1
		}
	}
	return last.status
}

// lost tells whether an answer may not have arrived.
func (o *ocWorld) lost(a *ocAns) bool {
	if a.slow {
		return true
	}
	for _, p := range append(append([]span(nil), o.parts...), o.downs...) {
		if p.from <= a.at+10*time.Second && a.at <= p.to+10*time.Second {
			return true
		}
	}
	return false
}

// well tells whether a responder answers properly in an interval.
func (o *ocWorld) well(c *ocCert, from, to time.Duration) bool {
	for _, p := range o.parts {
		if p.from-10*time.Second <= to && from <= p.to+10*time.Second {
			return false
		}
	}
	if c.spec.Bad != "" || len(c.spec.Resp) == 0 {
		return false
	}
	lo, _ := o.wall(from, to)
	for _, r := range c.spec.Resp {
		if o.mode(r, from) != "none" || lo < from || o.spec.TTL[r%len(o.spec.TTL)] < 240 {
			return false
		}
		for _, m := range o.modes[r] {
			if m.from >= from-10*time.Second && m.from <= to {
				return false
			}
		}
		// The proxy's clock may be ahead of the responder's.
		if _, hi := o.wall(from, to); hi > to+time.Duration(o.spec.TTL[r%len(o.spec.TTL)]-30)*time.Second {
			return false
		}
	}
	for _, s := range c.stat {
		if s.at >= from-10*time.Second && s.at <= to {
			return false
		}
	}
	return true
}

func (o *ocWorld) judge(hs *ocHS) {
	w := o.w
	w.check()
	down := o.wasDown(hs.from-10*time.Second, hs.to+time.Second)
	jump := o.jumped(hs.from-time.Second, hs.to+time.Second)
	o.mu.Lock()
	chain := []*ocCert{hs.cert}
	if !hs.cert.spec.Root {
		chain = append(chain, o.ca)
	}
	leafURL := len(hs.cert.tc.Leaf.OCSPServer) > 0
	var bad []string
	must := !down && !jump
	for i, c := range chain {
		if len(c.tc.Leaf.OCSPServer) == 0 || i > 0 && !leafURL {
			continue
		}
		if !o.believable(hs, c, hs.from, hs.to) {
			bad = append(bad, c.name)
		}
		k := o.known(hs, c, hs.from, hs.to)
		if !down && !jump && k == ocsp.Revoked {
			bad = append(bad, c.name+", which is known to be revoked")
		}
		switch {
		case k == ocsp.Good:
		case k == -1 && o.well(c, hs.from, hs.to) && c.at(hs.from) == ocsp.Good && o.noBad(c, hs.from):
		default:
			must = false
		}
	}
	var hist []string
	for _, c := range chain {
		for _, a := range c.ans {
			if a.at <= hs.to {
				hist = append(hist, fmt.Sprintf("%s: %d at %v from %v to %v", c.name, a.status, a.at, a.this, a.next))
			}
		}
	}
	o.mu.Unlock()
	sort.Strings(hist)
	what := "a client"
	if hs.fwd {
		what = "a backend server"
	}
	switch {
	case hs.ok && len(bad) > 0:
		w.violate("P19", "accepted", "connection %d with the certificate of %s was made although there is no answer that makes it acceptable (%s; answers: %s)", hs.n, what, strings.Join(bad, ", "), strings.Join(hist, "; "))
	case !hs.ok && must:
		w.violate("P19", "refused", "connection %d with the certificate of %s was refused although the certificate is good (%s; answers: %s)", hs.n, what, hs.err, strings.Join(hist, "; "))
	case hs.ok && leafURL:
		w.probe("accepted")
	case !hs.ok && len(bad) > 0:
		w.probe("refused")
	case hs.ok:
		w.probe("no-responder")
	default:
		w.probe("refused-maybe")
	}
}

// noBad tells that the proxy has not heard anything bad about a certificate
// that still counts.
func (o *ocWorld) noBad(c *ocCert, from time.Duration) bool {
	lo, _ := o.wall(from, from)
	for _, a := range c.ans {
		if a.status == ocsp.Revoked || a.status != ocsp.Good && (a.at > from-15*time.Second || a.next != 0 && a.next > lo-time.Hour) {
			return false
		}
	}
	return true
}

func runOCSP(w *World) {
	o := &ocWorld{mini: newMini(w, "P19"), spec: w.plan.Ocsp, cache: map[int]tls.ClientSessionCache{}}
	o.makeCerts()
	o.modes = make([][]ocMode, o.spec.NResp)
	o.startServers()
	o.cfg = o.config
	o.make = func() (*proxy.Proxy, error) { return proxy.NewTestProxy(o.config()) }
	if err := o.boot(); err != nil {
		w.violate("P19", "start", "the proxy does not start: %v", err)
		return
	}
	for _, c := range o.certs {
		if c.spec.Srv && len(c.tc.Leaf.OCSPServer) > 0 {
			b, a := o.answer(c, 0, "none")
			c.kept, c.keptAns = b, *a
		}
	}
	w.perturb()
	byW := map[int][]*Op{}
	for i := range w.plan.Ops {
		op := &w.plan.Ops[i]
		byW[op.W] = append(byW[op.W], op)
	}
	var ids []int
	for k := range byW {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	var wg sync.WaitGroup
	for _, k := range ids {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range byW[k] {
				time.Sleep(time.Duration(op.At) * time.Millisecond)
				o.do(op)
			}
		}()
	}
	wg.Wait()
	w.calm()
}

func (o *ocWorld) do(op *Op) {
	w := o.w
	switch op.K {
	case "conn":
		o.connect(op)
	case "status":
		c := o.ca
		if op.A >= 0 {
			c = o.certs[int(op.A)%len(o.certs)]
		}
		o.mu.Lock()
		c.stat = append(c.stat, ocStat{w.since(), int(op.B)})
		o.mu.Unlock()
		w.ev("%s becomes %d", c.name, op.B)
	case "mode":
		o.mu.Lock()
		i := int(op.A) % o.spec.NResp
		o.modes[i] = append(o.modes[i], ocMode{w.since(), op.S})
		o.mu.Unlock()
		w.ev("responder %d: %s", i, op.S)
	case "part":
		d := time.Duration(op.B) * time.Millisecond
		o.mu.Lock()
		o.parts = append(o.parts, span{w.since(), w.since() + d})
		o.mu.Unlock()
		w.net.addPartition("10.0.0.1", fmt.Sprintf("10.3.0.%d", 1+int(op.A)%o.spec.NResp), d)
		w.fault("partition")
	case "crash":
		o.restart(false, 0, time.Duration(op.B)*time.Millisecond)
	case "stop":
		o.restart(true, 5*time.Second, time.Duration(op.B)*time.Millisecond)
	case "reconf":
		if err := o.reconf(); err != nil && !o.wasDown(w.since()-time.Minute, w.since()) {
			w.violate("P03", "good-config-rejected", "the configuration was rejected: %v", err)
		}
	case "jump":
		o.jump(time.Duration(op.B) * time.Second)
	}
}

func ctxTimeout(d time.Duration) context.Context {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	time.AfterFunc(d, cancel)
	return ctx
}

func genOCSP(r rng, tier string) *Plan {
	p := &Plan{Sched: r.randSched(), Net: r.randNet()}
	s := &OcspSpec{NResp: r.between(1, 3)}
	for i := 0; i < s.NResp; i++ {
		s.TTL = append(s.TTL, int64(r.pick(120, 300, 900, 3600, 7200, 86400)))
		s.Deleg = append(s.Deleg, r.p(40))
	}
	urls := func() []int {
		if s.NResp > 1 && r.p(30) {
			a := r.n(s.NResp)
			return []int{a, (a + 1) % s.NResp}
		}
		return []int{r.n(s.NResp)}
	}
	if r.p(35) {
		s.Inter = urls()
	}
	for i, n := 0, r.between(2, 5); i < n; i++ {
		c := OcCert{Srv: r.p(40), Root: r.p(30)}
		if !r.p(7) {
			c.Resp = urls()
		}
		if r.p(12) {
			c.Bad = r.picks("http://[::1", "http://a b/", "ldap://10.3.0.1/x", "http://10.3.0.99/ocsp", "%zz", "")
			c.First = r.p(50)
		}
		s.Certs = append(s.Certs, c)
	}
	p.Ocsp = s
	nw := r.between(1, 3)
	dense := r.p(30)
	gap := func() int64 {
		if dense {
			return int64(r.pick(0, 0, 1, 10, 100, 1000))
		}
		return int64(r.pick(0, 100, 1000, 5000, 20000, 61000, 200000, 400000, 1000000, 4000000))
	}
	modes := []string{"none", "none", "none", "nonext", "lie", "own", "evil", "evildeleg", "otherca", "other", "old", "old", "future", "unknown", "bitflip", "hang", "close", "500", "later", "garbage", "empty", "huge", "slow", "cut"}
	staples := []string{"", "", "replay", "replay", "replay", "replay", "none", "none", "lie", "own", "own", "evil", "other", "old", "future", "unknown", "bitflip", "otherca", "nonext"}
	for i := 0; i < nw; i++ {
		for j, n := 0, r.between(4, 14); j < n; j++ {
			op := Op{K: "conn", At: gap(), W: i, A: int64(r.n(len(s.Certs))), C: int64(r.n(4))}
			if r.p(60) {
				op.S = staples[r.n(len(staples))]
			}
			p.Ops = append(p.Ops, op)
		}
	}
	if r.p(15) { // a revoked server with an old answer
		if i := r.n(len(s.Certs)); s.Certs[i].Srv {
			p.Ops = append(p.Ops, Op{K: "status", W: 12, A: int64(i), B: 1}, Op{K: "conn", W: 12, A: int64(i), At: 1000},
				Op{K: "conn", W: 12, A: int64(i), At: int64(r.pick(20000, 20000, 100000)), S: "replay"})
		}
	}
	// The world.
	for j, n := 0, r.between(0, 8); j < n; j++ {
		op := Op{At: gap(), W: 10}
		switch k := r.n(100); {
		case k < 50:
			op.K, op.A, op.S = "mode", int64(r.n(s.NResp)), modes[r.n(len(modes))]
		case k < 80:
			op.K, op.A, op.B = "status", int64(r.between(-1, len(s.Certs)-1)), int64(r.pick(1, 1, 1, 2, 0))
		default:
			op.K, op.A, op.B = "part", int64(r.n(s.NResp)), int64(r.pick(1000, 10000, 100000, 1000000))
		}
		p.Ops = append(p.Ops, op)
	}
	for j, n := 0, r.pick(0, 0, 1, 2, 3); j < n; j++ {
		op := Op{At: gap() + int64(r.n(100000)), W: 11, B: int64(r.pick(10, 1000, 10000))}
		switch r.n(5) {
		case 0, 1:
			op.K = "crash"
		case 2:
			op.K = "stop"
		case 3:
			op.K = "reconf"
		case 4:
			op.K, op.B = "jump", int64(r.pick(-100000, -7200, -300, -100, 100, 300, 3600, 7200, 100000))
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

func init() {
	register(&Scenario{Name: "tls-p19", Gen: genOCSP, Run: runOCSP, Horizon: 8 * 24 * time.Hour})
}
