package main

// Certificates from an ACME certificate authority (P14): a whole RFC 8555
// server that validates, issues, refuses, stalls and revokes, and a proxy that
// runs, crashes, is reconfigured and comes back for weeks.

import (
	"bufio"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"net/http"
	"path"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/c2FmZQ/storage/verifos"
	"golang.org/x/crypto/ocsp"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

// AcmeSpec is the set-up of a run.
type AcmeSpec struct {
	Cfgs   []AcCfg `json:"cfgs"`
	Valid  int64   `json:"valid"` // validity of certificates, in minutes
	OCSP   int     `json:"ocsp"`  // 0: no responder, 1: it works, 2: it is down
	HTTP   bool    `json:"http,omitempty"`
	Reuse  bool    `json:"reuse,omitempty"` // authorizations are good for more than one order
	Async  bool    `json:"async,omitempty"` // certificates take a while
	H2     bool    `json:"h2,omitempty"`
	TLS12  bool    `json:"tls12,omitempty"`  // validation with an old version of TLS
	Delay  int64   `json:"delay"`            // before a validation, in ms
	Refuse []int   `json:"refuse,omitempty"` // certificates that are never revoked
}

// AcCfg is one configuration.
type AcCfg struct {
	Names  []int `json:"names"` // names with certificates
	Group  bool  `json:"group,omitempty"`
	Pass   []int `json:"pass,omitempty"`   // names that are passed through
	Auth   bool  `json:"auth,omitempty"`   // clients need a certificate
	Revoke int   `json:"revoke,omitempty"` // 1: true, 2: false
	NoTOS  bool  `json:"notos,omitempty"`
}

var acNames = []string{"a.example.com", "b.example.com", "c.example.com", "xn--bcher-kva.example.com", "e.example.com", "nope.example.net"}
var acWritten = []string{"a.example.com", "b.example.com", "c.example.com", "bücher.example.com", "E.Example.com", "nope.example.net"}

const acHost = "acme-v02.api.letsencrypt.org"

type acCert struct {
	n       int
	name    string
	rsa     bool
	leaf    *x509.Certificate
	pem     []byte
	at      time.Duration
	bad     bool // not what was asked for
	served  time.Duration
	wasUsed bool
	revReq  time.Duration // first request to revoke it
	revoked time.Duration // when it was revoked
	rev     bool
	acked   bool // and the proxy heard of it
	ackAt   time.Duration
}

type acOrder struct {
	id     int
	acct   int
	name   string
	at     time.Duration
	status string
	authz  int
	cert   *acCert
}

type acAuthz struct {
	id      int
	acct    int
	name    string
	status  string
	token   string
	started map[string]bool
}

type acAcct struct {
	thumb string
	pub   crypto.PublicKey
	at    time.Duration
}

// acForce is what configurations may be in force from a moment.
type acForce struct {
	at   time.Duration
	cfgs []int
}

type acHS struct {
	n        int
	name     string
	rsa      bool
	acme     bool
	from, to time.Duration
	certs    []*x509.Certificate
	staple   []byte
	err      error
	hello    bool
}

type acWorld struct {
	*mini
	spec   *AcmeSpec
	root   ocCA
	inter  ocCA
	pool   *x509.CertPool
	front  tls.Certificate
	caNode uint32

	mu     sync.Mutex
	cur    int
	force  []acForce
	nonces map[string]bool
	nNonce int
	accts  []*acAcct
	orders []*acOrder
	authzs []*acAuthz
	certs  []*acCert
	modes  []ocMode
	parts  []span
	armed  []*acFault
	disk   []time.Duration // when disk faults happened
	all    span            // RevokeAllCertificates at work
	allTo  []span
	hss    []*acHS
	nconf  int
	supEnd chan struct{}
	start  map[uint32]time.Duration
}

type acFault struct {
	*Fault
	cnt   int64
	fired bool
}

func (o *acWorld) config() *proxy.Config {
	o.mu.Lock()
	o.nconf++
	c := &o.spec.Cfgs[o.cur]
	n := o.nconf
	o.mu.Unlock()
	cfg := &proxy.Config{
		TLSAddr: "10.0.0.1:443", EnableQUIC: ptr(false), CacheDir: "/simdisk/acme", MaxOpen: 1000 + n,
		AcceptTOS: !c.NoTOS, Email: "admin@example.com",
	}
	if o.spec.HTTP {
		cfg.HTTPAddr = "10.0.0.1:80"
	}
	switch c.Revoke {
	case 1:
		cfg.RevokeUnusedCertificates = ptr(true)
	case 2:
		cfg.RevokeUnusedCertificates = ptr(false)
	}
	var groups [][]int
	if c.Group {
		groups = [][]int{c.Names}
	} else {
		for _, i := range c.Names {
			groups = append(groups, []int{i})
		}
	}
	for i, g := range groups {
		be := &proxy.Backend{Mode: "TCP", Addresses: []string{"10.1.0.1:9000"}, ForwardRateLimit: 100000}
		for _, j := range g {
			be.ServerNames = append(be.ServerNames, acWritten[j])
		}
		if c.Auth && i == 0 {
			be.ClientAuth = &proxy.ClientAuth{RootCAs: []string{certPEM(o.root.cert)}}
		}
		cfg.Backends = append(cfg.Backends, be)
	}
	for _, j := range c.Pass {
		cfg.Backends = append(cfg.Backends, &proxy.Backend{Mode: "TLSPASSTHROUGH", Addresses: []string{"10.1.0.1:9443"}, ForwardRateLimit: 100000, ServerNames: []string{acWritten[j]}})
	}
	return cfg
}

func (c *AcCfg) has(name string) bool {
	for _, j := range c.Names {
		if acNames[j] == name {
			return true
		}
	}
	return false
}

func (c *AcCfg) any(name string) bool {
	for _, j := range c.Pass {
		if acNames[j] == name {
			return true
		}
	}
	return c.has(name)
}

// during lists the sets of configurations that may be in force in an interval.
// o.mu is held.
func (o *acWorld) during(from, to time.Duration) [][]int {
	var out [][]int
	for i, f := range o.force {
		e := time.Duration(1 << 62)
		if i+1 < len(o.force) {
			e = o.force[i+1].at
		}
		if f.at <= to && from <= e {
			out = append(out, f.cfgs)
		}
	}
	return out
}

// always tells whether all configurations in force in an interval have a property.
func (o *acWorld) always(from, to time.Duration, f func(c *AcCfg) bool) bool {
	if from < 0 {
		from = 0
	}
	for _, s := range o.during(from, to) {
		if len(s) == 0 {
			return false
		}
		for _, i := range s {
			if !f(&o.spec.Cfgs[i]) {
				return false
			}
		}
	}
	return true
}

// ever tells whether some configuration in force in an interval has a property.
func (o *acWorld) ever(from, to time.Duration, f func(c *AcCfg) bool) bool {
	for _, s := range o.during(from, to) {
		for _, i := range s {
			if f(&o.spec.Cfgs[i]) {
				return true
			}
		}
	}
	return false
}

func (o *acWorld) setForce(cfgs ...int) {
	o.force = append(o.force, acForce{o.w.since(), cfgs})
}

// lastBoot is when the current process, or the one before it if it is young, started.
func (o *acWorld) lastBoot(t, grace time.Duration) time.Duration {
	o.mm.Lock()
	defer o.mm.Unlock()
	b := time.Duration(0)
	for _, x := range o.boots {
		if x+grace <= t {
			b = x
		}
	}
	return b
}

// sent is the earliest moment when a request that arrives now may have been
// sent. o.mu is held.
func (o *acWorld) sent(now time.Duration) time.Duration {
	t := now
	for _, p := range o.parts {
		if p.from < now && now < p.to+time.Minute {
			t = min(t, p.from)
		}
	}
	return t
}

func (o *acWorld) mode(t time.Duration) string {
	m := "none"
	for _, x := range o.modes {
		if x.from <= t {
			m = x.s
		}
	}
	return m
}

func harmless(m string) bool { return m == "none" }

// well tells whether the CA works and can be reached in an interval.
func (o *acWorld) well(from, to time.Duration) bool {
	for i, x := range o.modes {
		e := time.Duration(1 << 62)
		if i+1 < len(o.modes) {
			e = o.modes[i+1].from
		}
		if x.from <= to && from <= e && !harmless(x.s) {
			return false
		}
	}
	for _, p := range o.parts {
		if p.from <= to && from <= p.to {
			return false
		}
	}
	return true
}

func (o *acWorld) diskFault(from, to time.Duration) bool {
	for _, t := range o.disk {
		if t >= from && t <= to {
			return true
		}
	}
	return false
}

// lockLeft tells whether a lock may have been left behind that still counts.
func (o *acWorld) lockLeft(from, to time.Duration) bool {
	o.mm.Lock()
	defer o.mm.Unlock()
	for _, t := range o.locks {
		if t <= to && from <= t+13*time.Minute {
			return true
		}
	}
	return o.diskFault(from-25*time.Minute, to)
}

// ---- the CA

var oidACME = asn1.ObjectIdentifier{1, 3, 6, 1, 5, 5, 7, 1, 31}

type acJWS struct {
	nonce, url string
	pub        crypto.PublicKey
	thumb      string
	acct       int // -1: none
	payload    []byte
}

type acProblem struct {
	code      int
	typ, what string
}

func (e *acProblem) Error() string { return e.typ + ": " + e.what }

func problem(code int, typ, f string, args ...any) *acProblem {
	return &acProblem{code, "urn:ietf:params:acme:error:" + typ, fmt.Sprintf(f, args...)}
}

func jwkKey(raw json.RawMessage) (crypto.PublicKey, string, error) {
	var k struct{ Kty, Crv, X, Y, N, E string }
	if err := json.Unmarshal(raw, &k); err != nil {
		return nil, "", err
	}
	dec := func(s string) *big.Int {
		b, _ := base64.RawURLEncoding.DecodeString(s)
		return new(big.Int).SetBytes(b)
	}
	switch k.Kty {
	case "EC":
		if k.Crv != "P-256" {
			return nil, "", errors.New("bad curve")
		}
		pub := &ecdsa.PublicKey{Curve: elliptic.P256(), X: dec(k.X), Y: dec(k.Y)}
		h := sha256.Sum256([]byte(fmt.Sprintf(`{"crv":"P-256","kty":"EC","x":"%s","y":"%s"}`, k.X, k.Y)))
		return pub, b64(h[:]), nil
	case "RSA":
		pub := &rsa.PublicKey{N: dec(k.N), E: int(dec(k.E).Int64())}
		h := sha256.Sum256([]byte(fmt.Sprintf(`{"e":"%s","kty":"RSA","n":"%s"}`, k.E, k.N)))
		return pub, b64(h[:]), nil
	}
	return nil, "", errors.New("bad key type")
}

// jws reads and verifies a signed request.
func (o *acWorld) jws(req *http.Request) (*acJWS, *acProblem) {
	b, err := io.ReadAll(io.LimitReader(req.Body, 1<<20))
	if err != nil {
		return nil, problem(400, "malformed", "%v", err)
	}
	var m struct{ Protected, Payload, Signature string }
	if err := json.Unmarshal(b, &m); err != nil {
		return nil, problem(400, "malformed", "%v", err)
	}
	hb, err1 := base64.RawURLEncoding.DecodeString(m.Protected)
	pb, err2 := base64.RawURLEncoding.DecodeString(m.Payload)
	sig, err3 := base64.RawURLEncoding.DecodeString(m.Signature)
	if err := errors.Join(err1, err2, err3); err != nil {
		return nil, problem(400, "malformed", "%v", err)
	}
	var h struct {
		Alg, Nonce, URL, Kid string
		Jwk                  json.RawMessage
	}
	if err := json.Unmarshal(hb, &h); err != nil {
		return nil, problem(400, "malformed", "%v", err)
	}
	j := &acJWS{nonce: h.Nonce, url: h.URL, payload: pb, acct: -1}
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.nonces[h.Nonce] {
		return nil, problem(400, "badNonce", "bad nonce")
	}
	delete(o.nonces, h.Nonce)
	if h.URL != "https://"+acHost+req.URL.Path {
		return nil, problem(400, "unauthorized", "wrong url")
	}
	switch {
	case len(h.Jwk) > 0 && h.Kid == "":
		if j.pub, j.thumb, err = jwkKey(h.Jwk); err != nil {
			return nil, problem(400, "badPublicKey", "%v", err)
		}
	case h.Kid != "":
		var n int
		if _, err := fmt.Sscanf(h.Kid, "https://"+acHost+"/acct/%d", &n); err != nil || n < 0 || n >= len(o.accts) {
			return nil, problem(400, "accountDoesNotExist", "no such account")
		}
		j.acct, j.pub, j.thumb = n, o.accts[n].pub, o.accts[n].thumb
	default:
		return nil, problem(400, "malformed", "no key")
	}
	hash := sha256.Sum256([]byte(m.Protected + "." + m.Payload))
	ok := false
	switch pub := j.pub.(type) {
	case *ecdsa.PublicKey:
		ok = h.Alg == "ES256" && len(sig) == 64 && ecdsa.Verify(pub, hash[:], new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:]))
	case *rsa.PublicKey:
		ok = h.Alg == "RS256" && rsa.VerifyPKCS1v15(pub, crypto.SHA256, hash[:], sig) == nil
	}
	if !ok {
		return nil, problem(400, "malformed", "bad signature")
	}
	return j, nil
}

func (o *acWorld) nonce() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.nNonce++
	n := fmt.Sprintf("nonce%d", o.nNonce)
	o.nonces[n] = true
	return n
}

func acURL(f string, args ...any) string {
	return "https://" + acHost + fmt.Sprintf(f, args...)
}

// serveCA answers one request.
func (o *acWorld) serveCA(rw http.ResponseWriter, req *http.Request) {
	w := o.w
	now := w.since()
	o.mu.Lock()
	mode := o.mode(now)
	o.mu.Unlock()
	if mode != "none" {
		w.fault("ca-" + mode)
	}
	// An answer that does not come.
	switch mode {
	case "hang":
		time.Sleep(time.Minute)
		panic(http.ErrAbortHandler)
	case "close":
		panic(http.ErrAbortHandler)
	case "500":
		rw.WriteHeader(500)
		io.WriteString(rw, "sorry")
		return
	case "garbage":
		rw.Write([]byte(`{"status": 12, "newNonce": [`))
		return
	case "slow":
		time.Sleep(time.Duration(1+w.netRand(6)) * time.Second)
	}
	h := rw.Header()
	h.Set("Replay-Nonce", o.nonce())
	h.Set("Cache-Control", "no-store")
	var code int
	var body []byte
	var err *acProblem
	if mode == "429" && req.Method == "POST" {
		h.Set("Retry-After", fmt.Sprint(1+w.netRand(30)))
		err = problem(429, "rateLimited", "too many requests")
	} else if mode == "403" && req.Method == "POST" {
		err = problem(403, "unauthorized", "no")
	} else if mode == "badnonce" && req.Method == "POST" && w.netRand(3) != 0 {
		err = problem(400, "badNonce", "bad nonce")
	} else {
		code, body, err = o.handleCA(req, h, mode)
	}
	if err != nil {
		h.Set("Content-Type", "application/problem+json")
		code = err.code
		body, _ = json.Marshal(map[string]any{"type": err.typ, "detail": err.what, "status": err.code})
		w.ev("CA: %s %s: %v", req.Method, req.URL.Path, err)
	}
	if mode == "lost" && req.Method == "POST" {
		panic(http.ErrAbortHandler)
	}
	h.Set("Content-Length", fmt.Sprint(len(body)))
	rw.WriteHeader(code)
	if mode == "cut" && len(body) > 1 {
		rw.Write(body[:len(body)/2])
		panic(http.ErrAbortHandler)
	}
	rw.Write(body)
}

func jsn(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func (o *acWorld) handleCA(req *http.Request, h http.Header, mode string) (int, []byte, *acProblem) {
	w := o.w
	now := w.since()
	h.Set("Content-Type", "application/json")
	p := req.URL.Path
	if p == "/directory" {
		return 200, jsn(map[string]any{
			"newNonce": acURL("/nonce"), "newAccount": acURL("/account"), "newOrder": acURL("/order"), "revokeCert": acURL("/revoke"), "keyChange": acURL("/keychange"),
			"meta": map[string]any{"termsOfService": "https://letsencrypt.org/tos"},
		}), nil
	}
	if p == "/nonce" {
		return 200, nil, nil
	}
	if req.Method != "POST" {
		return 0, nil, problem(405, "malformed", "method not allowed")
	}
	j, err := o.jws(req)
	if err != nil {
		return 0, nil, err
	}
	var id int
	dir, base := path.Split(p)
	fmt.Sscanf(base, "%d", &id)
	o.mu.Lock()
	defer o.mu.Unlock()
	if j.acct < 0 && p != "/account" && p != "/revoke" {
		return 0, nil, problem(400, "malformed", "no account")
	}
	switch {
	case p == "/account":
		return o.newAccount(j, h, now)
	case p == "/order":
		return o.newOrder(j, h, now)
	case dir == "/acct/":
		return 200, jsn(map[string]any{"status": "valid"}), nil
	case dir == "/order/" && id < len(o.orders):
		h.Set("Location", acURL("/order/%d", id))
		return 200, o.orderJSON(o.orders[id]), nil
	case dir == "/authz/" && id < len(o.authzs):
		a := o.authzs[id]
		if strings.Contains(string(j.payload), "deactivated") {
			a.status = "deactivated"
		}
		return 200, o.authzJSON(a), nil
	case strings.HasPrefix(p, "/chall/") && id < len(o.authzs):
		a := o.authzs[id]
		typ := strings.TrimSuffix(strings.TrimPrefix(dir, "/chall/"), "/")
		if a.status == "pending" && !a.started[typ] {
			a.started[typ] = true
			go o.validate(a, typ, j.thumb, mode)
		}
		return 200, jsn(map[string]any{"type": typ, "url": acURL("/chall/%s/%d", typ, id), "token": a.token, "status": "processing"}), nil
	case dir == "/final/" && id < len(o.orders):
		return o.finalize(j, h, o.orders[id], now, mode)
	case dir == "/cert/" && id < len(o.certs):
		h.Set("Content-Type", "application/pem-certificate-chain")
		return 200, o.certs[id].pem, nil
	case p == "/revoke":
		return o.revoke(j, now, mode)
	}
	return 0, nil, problem(404, "malformed", "not found")
}

func (o *acWorld) newAccount(j *acJWS, h http.Header, now time.Duration) (int, []byte, *acProblem) {
	w := o.w
	var q struct{ TermsOfServiceAgreed, OnlyReturnExisting bool }
	json.Unmarshal(j.payload, &q)
	for i, a := range o.accts {
		if a.thumb == j.thumb {
			h.Set("Location", acURL("/acct/%d", i))
			return 200, jsn(map[string]any{"status": "valid"}), nil
		}
	}
	if q.OnlyReturnExisting {
		return 0, nil, problem(400, "accountDoesNotExist", "no")
	}
	if !q.TermsOfServiceAgreed {
		return 0, nil, problem(403, "userActionRequired", "terms of service")
	}
	w.check()
	if o.always(o.lastBoot(o.sent(now), 15*time.Second), now, func(c *AcCfg) bool { return c.NoTOS }) {
		w.violate("P14", "tos", "an ACME account was registered although the terms of service have not been accepted")
	}
	if n := len(o.accts); n > 0 {
		w.violate("P14", "account", "a second ACME account was registered; the first one was registered at %v", o.accts[n-1].at)
	}
	o.accts = append(o.accts, &acAcct{thumb: j.thumb, pub: j.pub, at: now})
	h.Set("Location", acURL("/acct/%d", len(o.accts)-1))
	w.probe("account")
	return 201, jsn(map[string]any{"status": "valid"}), nil
}

func (o *acWorld) newOrder(j *acJWS, h http.Header, now time.Duration) (int, []byte, *acProblem) {
	w := o.w
	var q struct {
		Identifiers []struct{ Type, Value string }
	}
	if err := json.Unmarshal(j.payload, &q); err != nil || len(q.Identifiers) != 1 || q.Identifiers[0].Type != "dns" {
		return 0, nil, problem(400, "malformed", "bad order")
	}
	name := q.Identifiers[0].Value
	w.ev("CA: order for %s", name)
	w.check()
	boot := o.lastBoot(o.sent(now), 15*time.Second)
	if !o.ever(boot, now, func(c *AcCfg) bool { return c.has(name) }) {
		w.violate("P14", "order", "a certificate was ordered for %q, for which the proxy is not configured", name)
	}
	if o.always(boot, now, func(c *AcCfg) bool { return c.NoTOS }) {
		w.violate("P14", "tos", "a certificate was ordered although the terms of service have not been accepted")
	}
	a := (*acAuthz)(nil)
	if o.spec.Reuse {
		for _, x := range o.authzs {
			if x.acct == j.acct && x.name == name && x.status == "valid" {
				a = x
			}
		}
	}
	if a == nil {
		a = &acAuthz{id: len(o.authzs), acct: j.acct, name: name, status: "pending", token: fmt.Sprintf("token%d", len(o.authzs)), started: map[string]bool{}}
		o.authzs = append(o.authzs, a)
	}
	ord := &acOrder{id: len(o.orders), acct: j.acct, name: name, at: now, status: "pending", authz: a.id}
	o.orders = append(o.orders, ord)
	h.Set("Location", acURL("/order/%d", ord.id))
	return 201, o.orderJSON(ord), nil
}

func (o *acWorld) orderJSON(ord *acOrder) []byte {
	if ord.status == "pending" {
		switch o.authzs[ord.authz].status {
		case "valid":
			ord.status = "ready"
		case "pending":
		default:
			ord.status = "invalid"
		}
	}
	m := map[string]any{
		"status": ord.status, "identifiers": []any{map[string]any{"type": "dns", "value": ord.name}},
		"authorizations": []any{acURL("/authz/%d", ord.authz)}, "finalize": acURL("/final/%d", ord.id),
	}
	if ord.status == "valid" {
		m["certificate"] = acURL("/cert/%d", ord.cert.n)
	}
	return jsn(m)
}

func (o *acWorld) authzJSON(a *acAuthz) []byte {
	var ch []any
	for _, t := range []string{"http-01", "dns-01", "tls-alpn-01"} {
		st := "pending"
		if a.started[t] {
			st = a.status
		}
		ch = append(ch, map[string]any{"type": t, "url": acURL("/chall/%s/%d", t, a.id), "token": a.token, "status": st})
	}
	return jsn(map[string]any{"status": a.status, "identifier": map[string]any{"type": "dns", "value": a.name}, "challenges": ch})
}

// validate looks for the proof that the applicant controls a name.
func (o *acWorld) validate(a *acAuthz, typ, thumb, mode string) {
	w := o.w
	time.Sleep(time.Duration(o.spec.Delay) * time.Millisecond)
	auth := a.token + "." + thumb
	from := w.since()
	err := errors.New("refused")
	if mode != "invalid" {
		switch typ {
		case "tls-alpn-01":
			err = o.validateTLS(a.name, auth)
		case "http-01":
			err = o.validateHTTP(a, auth)
		}
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	w.ev("CA: validation of %s with %s: %v", a.name, typ, err)
	if a.status != "pending" {
		return
	}
	if err != nil {
		a.status = "invalid"
		w.probe("validation-failed")
		n := 0
		for _, x := range o.orders {
			if x.name == a.name && x.at >= from-6*time.Minute {
				n++
			}
		}
		now := w.since()
		if n == 1 && mode != "invalid" && o.well(from-10*time.Minute, now) && !o.wasDown(from-10*time.Minute, now) && !o.diskFault(from-25*time.Minute, now) &&
			o.always(from-10*time.Second, now, func(c *AcCfg) bool { return c.has(a.name) && !c.NoTOS }) && len(o.during(from-10*time.Second, now)) == 1 {
			w.violate("P14", "validation", "the validation of %s with %s from %v to %v failed: %v", a.name, typ, from, now, err)
		}
		return
	}
	a.status = "valid"
	w.probe("validated-" + typ)
}

func (o *acWorld) validateTLS(name, auth string) error {
	c, err := o.w.net.dial(ctxTimeout(10*time.Second), o.caNode, "10.4.0.1", "tcp", "10.0.0.1:443")
	if err != nil {
		return err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(10 * time.Second))
	tc := &tls.Config{ServerName: name, NextProtos: []string{"acme-tls/1"}, InsecureSkipVerify: true}
	if o.spec.TLS12 {
		tc.MaxVersion = tls.VersionTLS12
	}
	t := tls.Client(c, tc)
	if err := t.Handshake(); err != nil {
		return err
	}
	cs := t.ConnectionState()
	if cs.NegotiatedProtocol != "acme-tls/1" {
		return fmt.Errorf("negotiated protocol %q", cs.NegotiatedProtocol)
	}
	leaf := cs.PeerCertificates[0]
	if len(leaf.DNSNames) != 1 || leaf.DNSNames[0] != name {
		return fmt.Errorf("names %q", leaf.DNSNames)
	}
	sum := sha256.Sum256([]byte(auth))
	want, _ := asn1.Marshal(sum[:])
	for _, e := range leaf.Extensions {
		if e.Id.Equal(oidACME) && e.Critical && string(e.Value) == string(want) {
			return nil
		}
	}
	return errors.New("wrong proof")
}

func (o *acWorld) validateHTTP(a *acAuthz, auth string) error {
	b, code, _, err := o.httpGet(o.caNode, "10.4.0.1", a.name, "/.well-known/acme-challenge/"+a.token)
	if err != nil {
		return err
	}
	if code != 200 || strings.TrimSpace(string(b)) != auth {
		return fmt.Errorf("status %d", code)
	}
	return nil
}

// httpGet makes a request to the proxy's port 80.
func (o *acWorld) httpGet(node uint32, ip, host, path string) ([]byte, int, string, error) {
	c, err := o.w.net.dial(ctxTimeout(10*time.Second), node, ip, "tcp", "10.0.0.1:80")
	if err != nil {
		return nil, 0, "", err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(10 * time.Second))
	fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", path, host)
	resp, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return nil, 0, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return b, resp.StatusCode, resp.Header.Get("Location"), err
}

func (o *acWorld) finalize(j *acJWS, h http.Header, ord *acOrder, now time.Duration, mode string) (int, []byte, *acProblem) {
	w := o.w
	h.Set("Location", acURL("/order/%d", ord.id))
	o.orderJSON(ord)
	if ord.status != "ready" || ord.acct != j.acct {
		return 0, nil, problem(403, "orderNotReady", "order is %s", ord.status)
	}
	var q struct{ Csr string }
	json.Unmarshal(j.payload, &q)
	der, _ := base64.RawURLEncoding.DecodeString(q.Csr)
	csr, err := x509.ParseCertificateRequest(der)
	if err != nil || csr.CheckSignature() != nil {
		return 0, nil, problem(400, "badCSR", "bad request")
	}
	if len(csr.DNSNames) != 1 || csr.DNSNames[0] != ord.name || len(csr.IPAddresses)+len(csr.EmailAddresses)+len(csr.URIs) > 0 {
		return 0, nil, problem(400, "badCSR", "wrong names")
	}
	_, isRSA := csr.PublicKey.(*rsa.PublicKey)
	pub, name := csr.PublicKey, ord.name
	c := &acCert{n: len(o.certs), name: ord.name, rsa: isRSA, at: now, bad: true}
	nb, na := time.Unix(0, baseTime).Add(now-time.Hour), time.Unix(0, baseTime).Add(now+time.Duration(o.spec.Valid)*time.Minute)
	switch mode {
	case "wrongkey":
		k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		pub = k.Public()
	case "wrongname":
		name = "other.example.org"
	case "expired":
		nb, na = nb.Add(-60*24*time.Hour), nb.Add(-time.Hour)
	default:
		c.bad = false
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(int64(1000 + c.n)), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name},
		NotBefore: nb, NotAfter: na, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
		BasicConstraintsValid: true,
	}
	if o.spec.OCSP > 0 {
		t.OCSPServer = []string{ocURL(0)}
	}
	b, err := x509.CreateCertificate(rand.Reader, t, o.inter.cert, pub, o.inter.key)
	if err != nil {
		return 0, nil, problem(500, "serverInternal", "%v", err)
	}
	c.leaf, _ = x509.ParseCertificate(b)
	c.pem = append(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: b}), certPEM(o.inter.cert)...)
	o.judgeIssue(c, now)
	o.certs = append(o.certs, c)
	ord.cert = c
	ord.status = "valid"
	w.ev("CA: certificate %d for %s rsa=%v", c.n, c.name, c.rsa)
	w.probe("issued")
	if o.spec.Async {
		ord.status = "processing"
		time.AfterFunc(1500*time.Millisecond, func() {
			o.mu.Lock()
			ord.status = "valid"
			o.mu.Unlock()
		})
	}
	return 200, o.orderJSON(ord), nil
}

func (o *acWorld) revoke(j *acJWS, now time.Duration, mode string) (int, []byte, *acProblem) {
	w := o.w
	var q struct {
		Certificate string
		Reason      int
	}
	json.Unmarshal(j.payload, &q)
	der, _ := base64.RawURLEncoding.DecodeString(q.Certificate)
	var c *acCert
	for _, x := range o.certs {
		if string(x.leaf.Raw) == string(der) {
			c = x
		}
	}
	if c == nil {
		w.probe("revoke-unknown")
		return 0, nil, problem(404, "malformed", "certificate not found")
	}
	key, ok := c.leaf.PublicKey.(interface{ Equal(crypto.PublicKey) bool })
	if !(ok && j.acct < 0 && key.Equal(j.pub)) && j.acct < 0 {
		return 0, nil, problem(403, "unauthorized", "not your certificate")
	}
	w.ev("CA: certificate %d for %s is to be revoked", c.n, c.name)
	if c.revReq == 0 {
		c.revReq = now
	}
	o.judgeRevoke(c, now)
	if mode == "norev" {
		return 0, nil, problem(403, "unauthorized", "no")
	}
	for _, i := range o.spec.Refuse {
		if i == c.n {
			w.fault("refused-revocation")
			return 0, nil, problem(403, "unauthorized", "no")
		}
	}
	if c.rev {
		if mode != "lost" && mode != "cut" {
			c.acked, c.ackAt = true, now
		}
		return 0, nil, problem(400, "alreadyRevoked", "revoked already")
	}
	c.rev, c.revoked = true, now
	c.acked, c.ackAt = mode != "lost" && mode != "cut", now
	w.probe("revoked")
	return 200, nil, nil
}

func (o *acWorld) startCA() {
	w := o.w
	w.net.dns[acHost] = []string{"10.4.0.1"}
	o.root.key, o.root.cert = caKeyPair("ACME root", "")
	it := issueCert(o.root.cert, o.root.key, &x509.Certificate{Subject: pkix.Name{CommonName: "R3"}, IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageCRLSign | x509.KeyUsageDigitalSignature})
	o.inter.key, o.inter.cert = it.PrivateKey.(*ecdsa.PrivateKey), it.Leaf
	o.front = issueCert(o.root.cert, o.root.key, &x509.Certificate{Subject: pkix.Name{CommonName: acHost}, DNSNames: []string{acHost}})
	o.pool = x509.NewCertPool()
	o.pool.AddCert(o.root.cert)
	o.caNode = w.newNode("10.4.0.1")
	w.in(o.caNode, func() {
		l, err := w.net.listen(o.caNode, "tcp", "10.4.0.1:443")
		if err != nil {
			panic(err)
		}
		tc := &tls.Config{Certificates: []tls.Certificate{o.front}, NextProtos: []string{"http/1.1"}}
		if o.spec.H2 {
			tc.NextProtos = []string{"h2", "http/1.1"}
		}
		go (&http.Server{Handler: http.HandlerFunc(o.serveCA), TLSConfig: tc, ErrorLog: log.New(io.Discard, "", 0)}).ServeTLS(l, "", "")
	})
	n := w.newNode("10.1.0.1")
	w.in(n, func() {
		l, err := w.net.listen(n, "tcp", "10.1.0.1:9000")
		if err != nil {
			panic(err)
		}
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go greet(c)
			}
		}()
	})
	if o.spec.OCSP != 1 {
		return
	}
	n = w.newNode("10.3.0.1")
	w.in(n, func() {
		l, err := w.net.listen(n, "tcp", "10.3.0.1:80")
		if err != nil {
			panic(err)
		}
		go (&http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
			b, _ := io.ReadAll(req.Body)
			q, err := ocsp.ParseRequest(b)
			if err != nil {
				return
			}
			now := secs(w.since())
			t := ocsp.Response{Status: ocsp.Good, SerialNumber: q.SerialNumber, ThisUpdate: time.Unix(0, baseTime).Add(now - time.Minute), NextUpdate: time.Unix(0, baseTime).Add(now + 4*time.Hour)}
			o.mu.Lock()
			for _, c := range o.certs {
				if c.leaf.SerialNumber.Cmp(q.SerialNumber) == 0 && c.rev {
					t.Status, t.RevokedAt = ocsp.Revoked, t.ThisUpdate
				}
			}
			o.mu.Unlock()
			rw.Write(sign(&o.inter, nil, t))
		})}).Serve(l)
	})
}

// ---- judgement

// usedAt tells since when a certificate must be in the proxy's cache; ok is
// false if it need not be. o.mu is held.
func (o *acWorld) saved(c *acCert, t time.Duration) bool {
	if c.bad || !c.wasUsed || c.served+time.Minute > t {
		return false
	}
	if o.diskFault(c.at, t) || o.wasDown(c.at, c.served+time.Minute) {
		return false
	}
	if o.lockLeft(c.at, c.served) && o.wasDown(c.served, c.served+25*time.Minute) {
		return false
	}
	for _, x := range o.certs {
		if x.n > c.n && x.name == c.name && x.rsa == c.rsa && x.at < t {
			return false // that one took its place
		}
	}
	return c.revReq == 0 || c.revReq > t
}

func (o *acWorld) valid(c *acCert, t time.Duration) time.Duration {
	return c.leaf.NotAfter.Sub(time.Unix(0, baseTime).Add(t))
}

// judgeIssue looks for a reason not to ask for a certificate. o.mu is held.
func (o *acWorld) judgeIssue(n *acCert, now time.Duration) {
	o.w.check()
	for _, c := range o.certs {
		if c.name != n.name || c.rsa != n.rsa || !o.saved(c, now) {
			continue
		}
		o.w.probe("renewed")
		if d := o.valid(c, now); d > 30*24*time.Hour+65*time.Minute {
			o.w.violate("P14", "reissued", "a certificate for %s (rsa=%v) was asked for although certificate %d, served at %v, is good for another %v", n.name, n.rsa, c.n, c.served, d)
			return
		}
	}
}

// judgeRevoke looks for a reason not to revoke a certificate. o.mu is held.
func (o *acWorld) judgeRevoke(c *acCert, now time.Duration) {
	w := o.w
	w.check()
	if now >= o.all.from && now <= o.all.to {
		return
	}
	boot := o.lastBoot(o.sent(now), 15*time.Second)
	if o.always(o.sent(now)-2*time.Minute, now, func(x *AcCfg) bool { return x.any(c.name) }) && now > 2*time.Minute {
		w.violate("P14", "revoked-used", "certificate %d for %s is to be revoked although the name has been in use for two minutes", c.n, c.name)
	}
	if o.always(boot, now, func(x *AcCfg) bool { return x.any(c.name) }) {
		w.violate("P14", "revoked-used", "certificate %d for %s is to be revoked although the name is in use", c.n, c.name)
	}
	if o.always(boot, now, func(x *AcCfg) bool { return x.Revoke == 2 }) {
		w.violate("P14", "revoked-disabled", "certificate %d for %s is to be revoked although that is disabled", c.n, c.name)
	}
}

// judge looks at the outcome of a handshake.
func (o *acWorld) judge(hs *acHS) {
	w := o.w
	w.check()
	o.mu.Lock()
	defer o.mu.Unlock()
	down := o.wasDown(hs.from-10*time.Second, hs.to+time.Second)
	has := func(c *AcCfg) bool { return c.has(hs.name) }
	maybe := o.ever(hs.from-time.Second, hs.to, has)
	// A reconfiguration may close connections.
	sure := o.always(hs.from-time.Second, hs.to, has) && !down && len(o.during(hs.from, hs.to)) == 1
	pass := o.ever(hs.from-time.Second, hs.to, func(c *AcCfg) bool { return c.any(hs.name) && !c.has(hs.name) })
	notos := o.ever(hs.from-time.Second, hs.to, func(c *AcCfg) bool { return c.NoTOS }) || o.ever(o.lastBoot(hs.from, 0), hs.to, func(c *AcCfg) bool { return c.NoTOS })
	what := fmt.Sprintf("handshake %d for %s (rsa=%v)", hs.n, hs.name, hs.rsa)
	if hs.acme {
		if hs.hello {
			w.violate("P14", "challenge-reach", "%s: a validation connection reached the backend", what)
		}
		for _, c := range o.certs {
			if len(hs.certs) > 0 && string(c.leaf.Raw) == string(hs.certs[0].Raw) {
				w.violate("P14", "challenge-cert", "%s: a validation connection was given certificate %d", what, c.n)
			}
		}
		return
	}
	if len(hs.certs) == 0 {
		if hs.err == nil {
			w.violate("P14", "no-cert", "%s: no certificate", what)
		}
		if !sure || notos {
			w.probe("no-cert")
			return
		}
		why := ""
		for _, c := range o.certs {
			if c.name == hs.name && c.rsa == hs.rsa && o.saved(c, hs.from) && !o.diskFault(hs.from-time.Minute, hs.to) && o.valid(c, hs.to) > 0 {
				why = fmt.Sprintf("certificate %d, served at %v, is still good", c.n, c.served)
			}
		}
		if why == "" && o.well(hs.from-10*time.Minute, hs.to) && !o.lockLeft(hs.from-10*time.Minute, hs.to) {
			n := 0
			for _, x := range o.orders {
				if x.name == hs.name && x.at >= hs.from-6*time.Minute && x.at <= hs.to {
					n++
				}
			}
			if n < 2 {
				why = "the CA is fine"
			}
		}
		if why != "" {
			w.violate("P14", "not-served", "%s took from %v to %v and failed (%v) although %s", what, hs.from, hs.to, hs.err, why)
		}
		w.probe("failed")
		return
	}
	leaf := hs.certs[0]
	if !maybe {
		if !pass {
			w.violate("P14", "served", "%s: a certificate for %q was presented although the name is not configured", what, leaf.DNSNames)
		}
		return
	}
	var c *acCert
	for _, x := range o.certs {
		if string(x.leaf.Raw) == string(leaf.Raw) {
			c = x
		}
	}
	if c == nil {
		w.violate("P14", "served", "%s: the certificate for %q was not issued by the CA", what, leaf.DNSNames)
		return
	}
	inter := x509.NewCertPool()
	for _, x := range hs.certs[1:] {
		inter.AddCert(x)
	}
	if _, err := leaf.Verify(x509.VerifyOptions{DNSName: hs.name, Roots: o.pool, Intermediates: inter, CurrentTime: time.Unix(0, baseTime).Add(hs.from)}); err != nil || c.bad {
		w.violate("P14", "served", "%s: certificate %d does not verify: %v", what, c.n, err)
		return
	}
	if c.rsa != hs.rsa {
		w.violate("P14", "served", "%s: certificate %d has the other kind of key", what, c.n)
		return
	}
	if !c.wasUsed {
		c.wasUsed, c.served = true, hs.to
	}
	w.probe("served")
	if c.rev && c.acked && c.ackAt+30*time.Second < hs.from &&
		!o.diskFault(c.ackAt-25*time.Minute, hs.from) && !o.lockLeft(c.ackAt, c.ackAt+30*time.Second) && !o.wasDown(c.ackAt, c.ackAt+30*time.Second) &&
		!o.ever(o.lastBoot(c.ackAt, 15*time.Second)+1, c.ackAt+2*time.Minute, func(x *AcCfg) bool { return x.any(hs.name) }) {
		w.violate("P14", "served-revoked", "%s: certificate %d, which was revoked at %v, is served", what, c.n, c.revoked)
	}
	// Renewal.
	boot := o.lastBoot(hs.from, 0)
	if d := o.valid(c, hs.from); d < 30*24*time.Hour-150*time.Minute && o.well(hs.from-150*time.Minute, hs.from) &&
		hs.from-boot > 170*time.Minute && !o.diskFault(hs.from-4*time.Hour, hs.from) && !o.wasDown(hs.from-170*time.Minute, hs.from) {
		// It must have been loaded for long enough, too.
		ok := false
		for _, x := range o.hss {
			if x.name == hs.name && x.rsa == hs.rsa && !x.acme && x.to != 0 && x.from > boot+time.Second && x.to < hs.from-150*time.Minute && len(x.certs) > 0 &&
				o.always(x.from, hs.from, func(c *AcCfg) bool { return c.has(hs.name) && !c.NoTOS }) {
				ok = true
			}
		}
		if ok {
			w.violate("P14", "not-renewed", "%s: certificate %d is good for only another %v although it should have been renewed", what, c.n, d)
		}
	}
	if o.spec.OCSP == 1 && hs.err == nil {
		if len(hs.staple) == 0 {
			if !c.rev {
				w.violate("P14", "no-staple", "%s: there is no OCSP answer for certificate %d", what, c.n)
			}
		} else if r, err := ocsp.ParseResponseForCert(hs.staple, leaf, o.inter.cert); err != nil || r.Status != ocsp.Good || time.Unix(0, baseTime).Add(hs.from).After(r.NextUpdate) {
			w.violate("P14", "bad-staple", "%s: the OCSP answer for certificate %d is no good: %v", what, c.n, err)
		}
	}
}

// judgeBoot looks whether the certificates that are not in use any more have
// been revoked some time after a start.
func (o *acWorld) judgeBoot(boot time.Duration) {
	w := o.w
	end := boot + 5*time.Minute
	if o.lockLeft(boot, end) { // that can take eleven minutes
		end = boot + 18*time.Minute
	}
	time.Sleep(end - w.since())
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.wasDown(boot+time.Millisecond, end) || !o.well(boot, end) || o.diskFault(boot-25*time.Minute, end) {
		return
	}
	for _, c := range o.certs {
		if !o.saved(c, boot) && !(o.saved(c, max(0, c.revReq-1)) && !c.rev) || o.valid(c, end) < 0 {
			continue
		}
		if o.always(boot+1, end, func(x *AcCfg) bool { return !x.any(c.name) && x.Revoke != 2 }) {
			w.check()
			ref := false
			for _, i := range o.spec.Refuse {
				ref = ref || i == c.n
			}
			if o.superseded(c) {
				continue
			}
			if !c.rev && !ref {
				w.violate("P14", "not-revoked", "certificate %d for %s has not been revoked %v after the start at %v although the name is not in use", c.n, c.name, end-boot, boot)
			} else if !ref {
				w.probe("unused-revoked")
			}
		}
	}
}

// superseded tells whether a later certificate may have taken the place of one.
func (o *acWorld) superseded(c *acCert) bool {
	for _, x := range o.certs {
		if x.n > c.n && x.name == c.name && x.rsa == c.rsa {
			return true
		}
	}
	return false
}

// ---- the run

func (o *acWorld) fsHook(op verifos.Op) verifos.Action {
	ok := verifos.Action{Keep: -1}
	o.mm.Lock()
	node := o.node
	o.mm.Unlock()
	if op.Node == 0 || op.Node != node || o.w.isDead(op.Node) || len(o.armed) == 0 {
		return ok
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	now := o.w.since()
	for _, f := range o.armed {
		if f.fired || now < time.Duration(f.A)*time.Millisecond || !strings.Contains(op.Path, "autocert") {
			continue
		}
		if (f.S == "rerr") == (op.N > 0) || f.S == "rerr" && op.Name != "read" && op.Name != "open" || f.S == "part" && op.Name != "write" {
			continue
		}
		f.cnt++
		if f.cnt < f.N {
			continue
		}
		f.fired = true
		a := ok
		switch f.S {
		case "err", "rerr":
			a.Err = syscall.EIO
			a.Keep = 0
		case "part":
			a.Err = syscall.ENOSPC
			a.Keep = int(f.B) % max(1, op.Size)
		case "crash0":
			a.Crash, a.Keep = true, 0
		case "crash1":
			a.Crash, a.After = true, true
		case "torn":
			a.Crash = true
			a.Keep = int(f.B) % max(1, op.Size)
		}
		if !a.Crash {
			// A crash leaves the store in order.
			o.disk = append(o.disk, now)
		} else {
			o.mm.Lock()
			o.downs = append(o.downs, span{now, now + 2*time.Second})
			o.mm.Unlock()
		}
		o.w.fault("fs-" + f.S)
		o.w.ev("fs fault %s on %s %s", f.S, op.Name, op.Path)
		return a
	}
	return ok
}

// supervise starts the proxy again when a disk operation was its last.
func (o *acWorld) supervise() {
	for {
		o.mm.Lock()
		node := o.node
		o.mm.Unlock()
		o.w.mu.Lock()
		ch := o.w.crashed[node]
		o.w.mu.Unlock()
		select {
		case <-o.supEnd:
			return
		case <-ch:
		}
		o.smu.Lock()
		o.mm.Lock()
		same := o.node == node
		o.mm.Unlock()
		o.smu.Unlock()
		if same {
			o.again(false, time.Second, -1)
		}
	}
}

// again restarts the proxy, maybe with another configuration.
func (o *acWorld) again(graceful bool, down time.Duration, cfg int64) {
	o.smu.Lock()
	o.mu.Lock()
	o.setForce(o.cur)
	if cfg >= 0 {
		o.cur = int(cfg) % len(o.spec.Cfgs)
	}
	o.mu.Unlock()
	o.smu.Unlock()
	if o.restart(graceful, 5*time.Second, down) {
		o.booted()
	}
}

func (o *acWorld) booted() {
	o.mm.Lock()
	boot := o.boots[len(o.boots)-1]
	o.mm.Unlock()
	go o.judgeBoot(boot)
}

func runAcme(w *World) {
	o := &acWorld{mini: newMini(w, "P14"), spec: w.plan.Acme, nonces: map[string]bool{}, supEnd: make(chan struct{}), all: span{-1, -1}}
	o.lock = "/simdisk/acme/autocert.lock"
	o.startCA()
	for i := range w.plan.Faults {
		o.armed = append(o.armed, &acFault{Fault: &w.plan.Faults[i]})
	}
	o.cfg = o.config
	o.tr = func() http.RoundTripper {
		t := newTransport()
		t.TLSClientConfig = &tls.Config{RootCAs: o.pool}
		return t
	}
	o.make = func() (*proxy.Proxy, error) {
		o.mu.Lock()
		o.setForce(o.cur)
		o.mu.Unlock()
		return proxy.New(o.config(), []byte("very secret"))
	}
	if err := o.boot(); err != nil {
		w.violate("P14", "start", "the proxy does not start: %v", err)
		return
	}
	verifos.Hook = o.fsHook
	go o.supervise()
	w.perturb()
	byW := map[int][]*Op{}
	for i := range w.plan.Ops {
		op := &w.plan.Ops[i]
		byW[op.W] = append(byW[op.W], op)
	}
	var ids []int
	for k := range byW {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	var wg sync.WaitGroup
	for _, k := range ids {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, op := range byW[k] {
				time.Sleep(time.Duration(op.At) * time.Millisecond)
				o.do(op)
			}
		}()
	}
	wg.Wait()
	time.Sleep(19 * time.Minute)
	w.calm()
	close(o.supEnd)
}

func (o *acWorld) do(op *Op) {
	w := o.w
	switch op.K {
	case "hs":
		o.handshake(op)
	case "mode":
		o.mu.Lock()
		o.modes = append(o.modes, ocMode{w.since(), op.S})
		o.mu.Unlock()
		w.ev("CA: %s", op.S)
	case "part":
		d := time.Duration(op.B) * time.Millisecond
		o.mu.Lock()
		o.parts = append(o.parts, span{w.since(), w.since() + d + 30*time.Second})
		o.mu.Unlock()
		w.net.addPartition("10.0.0.1", "10.4.0.1", d)
		w.fault("partition")
	case "crash":
		o.again(false, time.Duration(op.B)*time.Millisecond, op.A)
	case "stop":
		o.again(true, time.Duration(op.B)*time.Millisecond, op.A)
	case "reconf":
		o.smu.Lock()
		o.mu.Lock()
		old := o.cur
		o.cur = int(op.A) % len(o.spec.Cfgs)
		now := o.cur
		o.setForce(old, now)
		o.mu.Unlock()
		o.smu.Unlock()
		err := o.reconf()
		o.mu.Lock()
		if err == nil {
			o.setForce(now)
		}
		o.mu.Unlock()
		if err != nil && !o.wasDown(w.since()-time.Minute, w.since()) {
			w.violate("P14", "config", "the configuration was rejected: %v", err)
		}
	case "revokeall":
		o.revokeAll(op)
	case "http":
		if !o.spec.HTTP {
			return
		}
		from := w.since()
		_, code, loc, err := o.httpGet(0, fmt.Sprintf("192.0.2.%d", 10+op.W), acNames[int(op.A)%len(acNames)], "/x/y?z=1")
		if o.wasDown(from-time.Second, w.since()+time.Second) {
			return
		}
		w.check()
		if err != nil || code != 302 || loc != "https://"+acNames[int(op.A)%len(acNames)]+":443/x/y?z=1" && loc != "https://"+acNames[int(op.A)%len(acNames)]+"/x/y?z=1" {
			w.violate("P14", "redirect", "a request to port 80 gets status %d, location %q, error %v", code, loc, err)
		}
	}
}

func (o *acWorld) handshake(op *Op) {
	w := o.w
	hs := &acHS{name: acNames[int(op.A)%len(acNames)], rsa: op.C&1 != 0, acme: op.C&2 != 0}
	o.mu.Lock()
	hs.n = len(o.hss)
	o.hss = append(o.hss, hs)
	o.mu.Unlock()
	hs.from = w.since()
	w.ev("handshake %d for %s rsa=%v acme=%v", hs.n, hs.name, hs.rsa, hs.acme)
	tc := &tls.Config{ServerName: hs.name, InsecureSkipVerify: true}
	var certs []*x509.Certificate
	tc.VerifyPeerCertificate = func(raw [][]byte, _ [][]*x509.Certificate) error {
		for _, b := range raw {
			c, err := x509.ParseCertificate(b)
			if err != nil {
				return err
			}
			certs = append(certs, c)
		}
		return nil
	}
	if hs.rsa {
		tc.MaxVersion = tls.VersionTLS12
		tc.CipherSuites = []uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305}
	}
	if hs.acme {
		tc.NextProtos = []string{"acme-tls/1"}
	}
	err := func() error {
		c, err := w.net.dial(ctxTimeout(10*time.Second), 0, fmt.Sprintf("192.0.2.%d", 10+op.W), "tcp", "10.0.0.1:443")
		if err != nil {
			return err
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(150 * time.Second))
		t := tls.Client(c, tc)
		if err := t.Handshake(); err != nil {
			return err
		}
		hs.staple = t.ConnectionState().OCSPResponse
		c.SetDeadline(time.Now().Add(5 * time.Second))
		if l, _ := bufio.NewReader(t).ReadString('\n'); l == "hello\n" {
			hs.hello = true
		}
		return nil
	}()
	hs.err = err
	hs.certs = certs
	hs.to = w.since()
	n := -1
	if len(certs) > 0 {
		n = int(certs[0].SerialNumber.Int64()) - 1000
	}
	w.ev("handshake %d: certificate %d err=%v", hs.n, n, err)
	o.judge(hs)
}

// revokeAll stops the proxy and runs it to revoke all its certificates.
func (o *acWorld) revokeAll(op *Op) {
	w := o.w
	o.smu.Lock()
	o.mm.Lock()
	p, node := o.p, o.node
	o.downs = append(o.downs, span{w.since(), 1 << 62})
	di := len(o.downs) - 1
	o.mm.Unlock()
	w.ev("revoking all certificates")
	w.in(node, func() { p.Shutdown(ctxTimeout(5 * time.Second)) })
	w.crash(node)
	time.Sleep(time.Second)
	from := w.since()
	o.mu.Lock()
	o.all = span{from, 1 << 62}
	o.setForce()
	var want []*acCert
	for _, c := range o.certs {
		if o.saved(c, from) && !o.superseded(c) && o.valid(c, from+20*time.Minute) > 0 {
			want = append(want, c)
		}
	}
	o.mu.Unlock()
	n2 := w.newNode("10.0.0.1")
	http.DefaultTransport = o.tr()
	var err error
	w.in(n2, func() {
		var p *proxy.Proxy
		if p, err = proxy.New(o.config(), []byte("very secret")); err == nil {
			err = p.RevokeAllCertificates(ctxTimeout(15*time.Minute), "superseded")
		}
	})
	to := w.since()
	w.crash(n2)
	w.ev("revoked all: %v", err)
	o.mu.Lock()
	o.all.to = to
	well := o.well(from, to)
	refused, bad := false, ""
	for _, c := range want {
		ref := false
		for _, i := range o.spec.Refuse {
			ref = ref || i == c.n
		}
		refused = refused || ref
		if !c.rev && !ref {
			bad = fmt.Sprintf("certificate %d for %s", c.n, c.name)
		}
		if !c.rev && err == nil {
			w.violate("P14", "revoke-all", "the revocation of all certificates succeeded, but certificate %d for %s was not revoked", c.n, c.name)
		}
	}
	for _, i := range o.spec.Refuse {
		refused = refused || i < len(o.certs)
	}
	disk := o.diskFault(0, to)
	o.mu.Unlock()
	w.check()
	switch {
	case well && !disk && bad != "":
		w.violate("P14", "revoke-all", "%s was not revoked by the revocation of all certificates (%v)", bad, err)
	case well && !disk && err != nil && !refused && len(want) > 0:
		w.violate("P14", "revoke-all", "the revocation of all certificates failed: %v", err)
	case err == nil && len(want) > 0:
		w.probe("revoked-all")
	}
	time.Sleep(time.Duration(op.B) * time.Millisecond)
	err = o.boot()
	o.mm.Lock()
	o.downs[di].to = w.since()
	o.mm.Unlock()
	o.smu.Unlock()
	if err != nil && !errors.Is(err, context.Canceled) {
		w.violate("P14", "start", "the proxy does not start any more: %v", err)
		return
	}
	o.booted()
}

func genAcme(r rng, tier string) *Plan {
	p := &Plan{Sched: r.randSched(), Net: r.randNet()}
	day := int64(24 * 60)
	s := &AcmeSpec{OCSP: r.pick(0, 0, 1, 1, 2), HTTP: r.p(40), Reuse: r.p(40), Async: r.p(30), H2: r.p(50), Delay: int64(r.pick(0, 10, 1000, 3000))}
	switch r.n(3) {
	case 0:
		s.Valid = 90 * day
	case 1:
		s.Valid = 30*day + int64(r.between(30, 2*24*60))
	case 2:
		s.Valid = 30*day + int64(r.between(90, 300))
	}
	for i := 0; i < r.pick(0, 0, 0, 1, 2); i++ {
		s.Refuse = append(s.Refuse, r.n(6))
	}
	s.TLS12 = r.p(30)
	notos := r.p(4)
	for i, n := 0, r.between(1, 4); i < n; i++ {
		c := AcCfg{Group: r.p(40), Auth: r.p(15), Revoke: r.pick(0, 0, 1, 1, 1, 2), NoTOS: notos && r.p(60)}
		for j := 0; j < 5; j++ {
			switch {
			case r.p(55):
				c.Names = append(c.Names, j)
			case r.p(15):
				c.Pass = append(c.Pass, j)
			}
		}
		if len(c.Names) == 0 {
			c.Names = []int{r.n(2)}
			c.Pass = nil
		}
		s.Cfgs = append(s.Cfgs, c)
	}
	p.Acme = s
	dense := r.pick(0, 0, 1, 2)
	gap := func() int64 {
		switch dense {
		case 0:
			return int64(r.pick(0, 0, 1, 10, 100, 1000, 3000))
		case 1:
			return int64(r.pick(0, 100, 1000, 20000, 61000, 200000, 600000, 1200000))
		}
		return int64(r.pick(0, 1000, 61000, 600000, 1800000, 3600000, 4*3600000, 12*3600000))
	}
	few := r.p(40) // names
	for i, nw := 0, r.between(1, 3); i < nw; i++ {
		for j, n := 0, r.between(3, 12); j < n; j++ {
			op := Op{K: "hs", At: gap(), W: i, A: int64(r.n(6))}
			if few {
				op.A = int64(r.n(2))
			} else if r.p(50) {
				c := s.Cfgs[r.n(len(s.Cfgs))].Names
				op.A = int64(c[r.n(len(c))])
			}
			if r.p(20) {
				op.C |= 1
			}
			if r.p(6) {
				op.C |= 2
			}
			if r.p(5) {
				op.K = "http"
			}
			p.Ops = append(p.Ops, op)
		}
	}
	modes := []string{"none", "none", "none", "none", "hang", "close", "500", "garbage", "slow", "429", "403", "badnonce", "lost", "cut", "invalid", "wrongkey", "wrongname", "expired", "norev"}
	for j, n := 0, r.pick(0, 0, 1, 2, 4, 6); j < n; j++ {
		op := Op{At: gap(), W: 10}
		if r.p(80) {
			op.K, op.S = "mode", modes[r.n(len(modes))]
			p.Ops = append(p.Ops, op)
			if r.p(60) {
				p.Ops = append(p.Ops, Op{K: "mode", S: "none", At: int64(r.pick(100, 1000, 10000, 60000, 100000)), W: 10})
			}
			continue
		}
		op.K, op.B = "part", int64(r.pick(1000, 10000, 100000, 1000000))
		p.Ops = append(p.Ops, op)
	}
	for j, n := 0, r.pick(0, 1, 1, 2, 3, 4); j < n; j++ {
		op := Op{At: gap() + int64(r.n(30000)), W: 11, A: int64(r.between(-1, len(s.Cfgs)-1)), B: int64(r.pick(10, 1000, 10000))}
		if r.p(5) {
			op.B = 31 * 24 * 3600 * 1000
		}
		switch r.n(8) {
		case 0, 1:
			op.K = "crash"
		case 2, 3:
			op.K = "stop"
		case 4, 5, 6:
			op.K = "reconf"
			op.A = int64(r.n(len(s.Cfgs)))
		case 7:
			op.K = "revokeall"
		}
		p.Ops = append(p.Ops, op)
		if r.p(25) {
			p.Ops = append(p.Ops, Op{K: "reconf", At: int64(r.pick(0, 1, 10, 100, 1000, 60000, 130000)), W: 11, A: int64(r.n(len(s.Cfgs)))})
		}
	}
	if r.p(40) { // names go out of use, and maybe come back
		s.Cfgs = append(s.Cfgs, AcCfg{Names: []int{0, 1, 2, 3, 4}, Revoke: r.pick(0, 1)}, AcCfg{Names: []int{r.n(5)}, Revoke: r.pick(0, 0, 1, 2)})
		full, one := int64(len(s.Cfgs)-2), int64(len(s.Cfgs)-1)
		if r.p(50) {
			s.Valid = 90 * day
		}
		if r.p(70) {
			p.Ops = nil
		}
		add := func(k string, at, a int64) {
			p.Ops = append(p.Ops, Op{K: k, At: at, A: a, W: 12, B: int64(r.pick(10, 1000))})
		}
		mode := func(at int64) {
			if r.p(30) {
				p.Ops = append(p.Ops, Op{K: "mode", At: at, W: 12, S: modes[r.n(len(modes))]})
			}
		}
		again := func(cfg int64) {
			add(r.picks("stop", "stop", "crash", "revokeall"), int64(r.pick(0, 1000, 20000)), cfg)
		}
		add("reconf", 5000, full)
		for j, n := 0, r.between(1, 4); j < n; j++ {
			add("hs", int64(r.pick(0, 1, 1000)), int64(r.n(5)))
		}
		add("hs", int64(r.pick(70000, 130000, 3700000)), int64(r.n(2)))
		if r.p(25) { // names come back while the CA cannot revoke anything
			bad := r.picks("500", "norev", "429", "badnonce", "close", "hang", "slow", "lost", "garbage")
			p.Ops = append(p.Ops, Op{K: "mode", W: 12, S: bad})
			s.Cfgs[one].Revoke = r.pick(0, 1)
			add(r.picks("stop", "crash"), int64(r.pick(0, 1000, 20000)), one)
			add("reconf", int64(r.pick(20, 1000, 10000, 30000)), full)
			p.Ops = append(p.Ops, Op{K: "mode", At: int64(r.pick(60000, 130000, 200000, 600000)), W: 12, S: "none"})
			for j, n := 0, r.between(1, 4); j < n; j++ {
				add("hs", int64(r.pick(1000, 130000, 310000)), int64(r.n(5)))
			}
		}
		if r.p(20) { // leave a challenge behind
			p.Ops = append(p.Ops, Op{K: "hs", W: 13, At: 200000, A: int64(r.n(5)), C: 1})
			add("crash", int64(200000-r.n(2000)), full)
			add("hs", 70000, int64(r.n(2)))
		}
		mode(0)
		again(one)
		if r.p(50) {
			add("reconf", int64(r.pick(0, 1, 20, 1000, 10000)), one)
		}
		mode(0)
		if r.p(60) {
			add("reconf", int64(r.pick(0, 10, 100, 1000, 20000, 150000, 150000)), full)
		}
		for j, n := 0, r.between(1, 4); j < n; j++ {
			add("hs", int64(r.pick(0, 100, 1000, 130000, 310000)), int64(r.n(5)))
		}
		if r.p(50) {
			p.Ops = append(p.Ops, Op{K: "mode", At: int64(r.pick(0, 60000)), W: 12, S: "none"})
			again(int64(r.pick(int(one), int(full))))
			for j, n := 0, r.between(1, 4); j < n; j++ {
				add("hs", int64(r.pick(0, 60000, 310000)), int64(r.n(5)))
			}
		}
	}
	for j, n := 0, r.pick(0, 0, 0, 1, 2); j < n; j++ {
		p.Faults = append(p.Faults, Fault{K: "fs", N: int64(r.between(1, 40)), A: int64(r.n(60000)), B: int64(r.n(4000)), S: r.picks("err", "rerr", "part", "crash0", "crash1", "torn")})
	}
	return p
}

func init() {
	register(&Scenario{Name: "acme-p14", Gen: genAcme, Run: runAcme, Horizon: 150 * 24 * time.Hour})
}
