package main

// Identity tokens and the keys that sign them (P15).

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"time"
)

// tokModel is a relying party that caches the published key set.
type tokModel struct {
	keys    map[string]crypto.PublicKey
	etag    string
	at      time.Duration // of the last refresh
	n       int
	checked map[string]bool // tokens compared with the set when they appeared
}

func parseJWKS(b []byte) (map[string]crypto.PublicKey, error) {
	var set struct {
		Keys []struct{ Kty, Use, Kid, Alg, Crv, N, E, X, Y string }
	}
	if err := json.Unmarshal(b, &set); err != nil {
		return nil, err
	}
	out := map[string]crypto.PublicKey{}
	dec := func(s string) *big.Int {
		b, err := base64.RawURLEncoding.DecodeString(s)
		if err != nil {
			return new(big.Int)
		}
		return new(big.Int).SetBytes(b)
	}
	for _, k := range set.Keys {
		if out[k.Kid] != nil {
			return nil, fmt.Errorf("two keys are named %s", k.Kid)
		}
		switch k.Kty {
		case "RSA":
			out[k.Kid] = &rsa.PublicKey{N: dec(k.N), E: int(dec(k.E).Int64())}
		case "EC":
			x, _ := base64.RawURLEncoding.DecodeString(k.X)
			if k.Crv != "P-256" || len(x) != 32 {
				return nil, fmt.Errorf("bad EC key %s", k.Kid)
			}
			p := &ecdsa.PublicKey{Curve: elliptic.P256(), X: dec(k.X), Y: dec(k.Y)}
			if !p.Curve.IsOnCurve(p.X, p.Y) {
				return nil, fmt.Errorf("bad EC key %s", k.Kid)
			}
			out[k.Kid] = p
		case "OKP":
			x, err := base64.RawURLEncoding.DecodeString(k.X)
			if err != nil || k.Crv != "Ed25519" || len(x) != ed25519.PublicKeySize {
				return nil, fmt.Errorf("bad Ed25519 key %s", k.Kid)
			}
			out[k.Kid] = ed25519.PublicKey(x)
		default:
			return nil, fmt.Errorf("unknown key type %q", k.Kty)
		}
	}
	return out, nil
}

func jwtKid(tok string) (kid, alg string) {
	for i := range tok {
		if tok[i] == '.' {
			b, _ := base64.RawURLEncoding.DecodeString(tok[:i])
			var h struct{ Kid, Alg string }
			json.Unmarshal(b, &h)
			return h.Kid, h.Alg
		}
	}
	return "", ""
}

func verifyJWT(tok string, keys map[string]crypto.PublicKey) error {
	kid, alg := jwtKid(tok)
	k := keys[kid]
	if k == nil {
		return fmt.Errorf("key %s is unknown", kid)
	}
	i := len(tok) - 1
	for i > 0 && tok[i] != '.' {
		i--
	}
	sig, err := base64.RawURLEncoding.DecodeString(tok[i+1:])
	if err != nil {
		return err
	}
	sum := sha256.Sum256([]byte(tok[:i]))
	ok := false
	switch p := k.(type) {
	case *rsa.PublicKey:
		ok = alg == "RS256" && rsa.VerifyPKCS1v15(p, crypto.SHA256, sum[:], sig) == nil
	case *ecdsa.PublicKey:
		ok = alg == "ES256" && len(sig) == 64 && ecdsa.Verify(p, sum[:], new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:]))
	case ed25519.PublicKey:
		ok = alg == "EdDSA" && ed25519.Verify(p, []byte(tok[:i]), sig)
	}
	if !ok {
		return fmt.Errorf("the signature with key %s does not verify", kid)
	}
	return nil
}

const jwksURL = "https://ca.example.com/jwks"

// refresh gets the published keys and checks all known tokens with them.
func (s *store) refresh(b *browser) bool {
	o := reqOpt{kind: "jwks", noJar: true, hdr: http.Header{}}
	s.mu.Lock()
	m := s.tm
	if m.etag != "" && m.n%3 != 0 {
		o.hdr.Set("If-None-Match", m.etag)
	}
	m.n++
	known := append([]*aTok(nil), s.toks...)
	s.mu.Unlock()
	r := s.do(b, jwksURL, o)
	if r.err != nil {
		return false
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	switch {
	case r.status == 304 && o.hdr.Get("If-None-Match") != "":
		s.w.probe("jwks-unchanged")
	case r.status == 200:
		keys, err := parseJWKS([]byte(r.body))
		if err != nil {
			s.w.violate("P15", "jwks", "the published key set is malformed: %v", err)
			return false
		}
		m.keys = keys
		m.etag = r.etag
		s.w.probe("jwks")
	default:
		s.w.violate("P15", "jwks", "the key set was refused with status %d", r.status)
		return false
	}
	m.at = r.sent
	_, hi := s.wall(0, r.done)
	for _, t := range known {
		if s.back || hi > float64(t.exp)-1 || t.at > r.sent {
			continue
		}
		s.w.check()
		if err := verifyJWT(t.s, m.keys); err != nil {
			lo, _ := s.wall(r.sent, r.sent)
			s.w.violate("P15", "unverifiable", "%s token of %s, issued %.0fs ago, %.0fs left, does not verify with the published keys: %v", t.kind, auUsers[max(0, t.user)].email, lo-float64(t.iat), float64(t.exp)-lo, err)
			return true
		}
	}
	return true
}

// newToks checks new tokens with the keys that the relying party has.
func (s *store) newToks() {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := s.tm
	now := s.w.since()
	for _, t := range s.toks {
		if m.checked[t.s] {
			continue
		}
		m.checked[t.s] = true
		if m.keys == nil || now-m.at > 62*time.Minute || t.at > now {
			continue
		}
		skip := false
		for i, x := range s.walls {
			skip = skip || i > 0 && x.at > now-4*time.Hour
		}
		down := time.Duration(0)
		for _, d := range s.downs {
			if d.to > now-4*time.Hour {
				down += min(d.to, now) - max(d.from, now-4*time.Hour)
			}
		}
		if skip || down > 40*time.Minute || now < 4*time.Hour {
			continue
		}
		s.w.check()
		s.w.probe("token-known-key")
		if err := verifyJWT(t.s, m.keys); err != nil {
			s.w.violate("P15", "unknown-key", "a new %s token does not verify with the keys published %.0fs earlier: %v", t.kind, (now - m.at).Seconds(), err)
		}
	}
}

func (s *store) doTok(b *browser, op *Op) {
	switch op.K {
	case "jwks":
		s.refresh(b)
	case "expire": // use a token close to its expiry
		t := s.pickTok("auth", int(op.B))
		if op.C == 1 {
			t = s.pickTok("id", int(op.B))
		}
		if t == nil {
			return
		}
		s.mu.Lock()
		_, now := s.wall(s.w.since(), s.w.since())
		s.mu.Unlock()
		d := time.Duration((float64(t.exp)-now)*1e9) + time.Duration(op.A)*time.Millisecond
		if d < 0 || d > 21*time.Hour {
			return
		}
		time.Sleep(d)
		s.w.probe("use-near-expiry")
		o := reqOpt{kind: "get", noJar: true, hdr: http.Header{}}
		if op.C == 1 {
			o.hdr.Set("Authorization", "Bearer "+t.s)
		} else {
			o.raw = []*http.Cookie{{Name: "TLSPROXYAUTH", Value: t.s}}
		}
		s.do(b, "https://app.example.com/near", o)
	default:
		s.runOp(b, op)
	}
	s.newToks()
}

func runTok(w *World) {
	s := newStore(w)
	s.reqProp = "P15"
	s.tm = &tokModel{checked: map[string]bool{}}
	if !s.boot() {
		return
	}
	w.ev("started")
	w.perturb()
	s.start()
	// The relying party.
	stop := make(chan struct{})
	done := make(chan struct{})
	b := s.brs[len(s.brs)-1]
	go func() {
		defer close(done)
		for {
			d := time.Hour
			if !s.refresh(b) {
				d = 30 * time.Second
			}
			select {
			case <-stop:
				return
			case <-time.After(d):
			}
		}
	}()
	if !s.run(s.doTok) {
		return
	}
	close(stop)
	<-done
	// Everything that is valid still is.
	s.refresh(s.brs[0])
	s.mu.Lock()
	toks := append([]*aTok(nil), s.toks...)
	s.mu.Unlock()
	for i, t := range toks {
		if t.kind == "auth" && (i%3 == 0 || i > len(toks)-10) {
			s.do(s.brs[0], "https://app.example.com/end", reqOpt{kind: "get", noJar: true, raw: []*http.Cookie{{Name: "TLSPROXYAUTH", Value: t.s}}})
		}
	}
	s.end()
	s.judgeAll()
}

func genTok(r rng, tier string) *Plan {
	p := &Plan{Sched: r.randSched(), Net: r.randNet()}
	nb := r.between(2, 4)
	p.Auth, p.Store = storeBase(r, nb)
	be := p.Auth.Cfgs[0].Be[:2]
	app := AuthBe{Hosts: []string{"app.example.com"}, Mode: "HTTP", Srv: 1, SSO: 1, UID: true, GenID: r.p(60)}
	be = append(be, app)
	oidc := r.p(35)
	if oidc {
		be = append(be, AuthBe{Hosts: []string{"op.example.com"}, Mode: "HTTP", Srv: 1, SSO: 1, OPrefix: "/op", OIDC: []ClientSpec{{ID: "rp", Secret: "s3cret", Redir: []string{"https://rp.example.net/cb"}}}})
	}
	p.Auth.Cfgs[0].Be = be
	// How long and how dense.
	gaps := [][]int{
		{0, 1, 10, 60, 600},
		{600, 1800, 3600, 5400, 7200, 10800},
		{1800, 7200, 3600 * 5, 3600 * 12, 3600 * 19, 3600 * 21},
		{3600, 3600 * 8, 3600 * 19, 3600 * 23, 3600 * 26, 3600 * 30},
	}[r.n(4)]
	n := r.between(8, 26)
	if tier == "thorough" {
		n = r.between(8, 60)
	}
	span := int64(0)
	tot := map[int]int64{}
	add := func(o Op) {
		o.At = int64(gaps[r.n(len(gaps))])*1000 + int64(r.n(1000))
		if r.p(15) {
			o.At = 0
		}
		tot[o.W] += o.At
		span = max(span, tot[o.W])
		p.Ops = append(p.Ops, o)
	}
	login := func(w int) {
		add(Op{K: "login", W: w, Au: &AuOp{Host: "app.example.com", Path: fmt.Sprintf("/l%d", r.n(100)), User: p.Store.Users[w], Form: r.p(30)}})
	}
	for w := 0; w < nb; w++ {
		login(w)
	}
	for i := 0; i < n; i++ {
		w := r.n(nb)
		au := &AuOp{Host: "app.example.com", Path: fmt.Sprintf("/p%d", i), N: r.n(40)}
		switch r.n(12) {
		case 0, 1, 2:
			login(w)
		case 3, 4:
			au.Cred = "tok"
			add(Op{K: "get", W: w, Au: au})
		case 5:
			au.Cred = "bearer:id"
			add(Op{K: "get", W: w, Au: au})
		case 6:
			au.Cred = r.picks("forge:none", "forge:hs256", "forge:flip", "forge:payload", "forge:extend", "forge:trunc", "bearerforge:payload", "bearerforge:extend", "bearer:auth", "idcookie")
			add(Op{K: "get", W: w, Au: au})
		case 7, 8:
			add(Op{K: "expire", W: w, A: int64(r.pick(-3600000, -5000, -1500, -500, 500, 1500, 3000, 60000)), B: int64(r.n(40)), C: int64(r.pick(0, 0, 1))})
		case 9:
			if oidc {
				add(Op{K: "authz", W: w, Au: &AuOp{Host: "op.example.com", Scope: "email", Reds: []RedOp{{MS: int64(r.pick(0, 1000, 60000))}}}})
				continue
			}
			fallthrough
		default:
			add(Op{K: "get", W: w, Au: au})
		}
	}
	span += 1000
	at := func() int64 { return int64(r.n(int(span))) }
	for i, n := 0, r.pick(0, 0, 1, 2, 3, 5); i < n; i++ {
		p.Ops = append(p.Ops, Op{K: r.picks("crash", "crash", "restart"), At: at()})
	}
	for i, n := 0, r.pick(0, 0, 1, 1, 2); i < n; i++ {
		d := int64(r.pick(1, 600, 3600, 3600*3, 3600*19, 3600*23, 3600*25, 3600*27, 3600*50, 3600*24*8, 3600*24*30)) * 1000
		if r.p(10) {
			d = -int64(r.pick(1, 600, 7200)) * 1000
		}
		if r.p(60) {
			p.Ops = append(p.Ops, Op{K: "jump", At: at(), A: d})
		}
	}
	for i, n := 0, r.pick(0, 0, 0, 1); i < n; i++ {
		p.Ops = append(p.Ops, Op{K: "reconf", At: at()})
	}
	// Downtime matters here.
	if r.p(25) {
		p.Store.DownMs = append(p.Store.DownMs, int64(r.pick(3600, 3600*5, 3600*19, 3600*30, 3600*24*9))*1000)
	}
	p.Faults = r.fsFaults(span, "token-keys", "token-keys", "token-keys", ".lock")
	// Faults at the rotations, about a day after the start.
	if r.p(40) {
		for i, n := 0, r.pick(1, 1, 2, 3); i < n; i++ {
			op := r.picks("rename /simdisk/auth/test/token-keys", "create /simdisk/auth/test/token-keys", "write /simdisk/auth/test/token-keys", "token-keys", "remove", ".lock")
			p.Faults = append(p.Faults, Fault{K: "fs", A: int64(r.pick(0, 3600*12, 3600*24, 3600*25, 3600*48)) * 1000, N: int64(r.pick(1, 1, 2, 3)), B: int64(r.n(5000)),
				S: r.picks("err", "err", "part", "after", "after", "crash0", "crash1", "torn") + "|" + op})
		}
	}
	if r.p(15) { // a rotation whose outcome is uncertain, then a restart
		h := int64(3600 * 1000)
		p.Faults = append(p.Faults, Fault{K: "fs", A: 12 * h, N: 1, S: r.picks("after|rename /simdisk/auth/test/token-keys", "after|rename /simdisk/auth/test/token-keys", "err|remove /simdisk/auth/test/token-keys", "after|remove /simdisk/auth/test/token-keys")})
		w := r.n(nb)
		t, t0 := int64(r.between(26, 60))*h, tot[w]
		if r.p(70) {
			p.Ops = append(p.Ops, Op{K: r.picks("crash", "restart"), At: t})
		} else {
			t += 24 * h
		}
		for i, n := 0, r.between(2, 5); i < n; i++ {
			g := int64(r.pick(60, 600, 1800, 3600)) * 1000
			if i == 0 {
				g += max(0, t-t0)
			}
			p.Ops = append(p.Ops, Op{K: "login", W: w, At: g, Au: &AuOp{Host: "app.example.com", Path: fmt.Sprintf("/m%d", i), User: p.Store.Users[w]}})
		}
	}
	return p
}

func init() {
	register(&Scenario{Name: "st-p15", Gen: func(r rng, tier string) *Plan { return genTok(r, tier) }, Run: runTok, Horizon: 200 * 24 * time.Hour})
}
