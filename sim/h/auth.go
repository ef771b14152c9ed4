package main

// The single sign-on world: browsers, identity providers, relying parties of
// the local OpenID Connect server, and HTTP backend servers.

import (
	"context"
	"crypto"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

// AuthSpec is the single sign-on part of a plan.
type AuthSpec struct {
	Provs []ProvSpec `json:"provs"`
	Cfgs  []AuthCfg  `json:"cfgs"`
	NB    int        `json:"nb"`
}

type ProvSpec struct {
	Name     string `json:"name"`
	Domain   string `json:"domain,omitempty"`
	Redirect string `json:"redirect"` // URL
	PKCE     bool   `json:"pkce,omitempty"`
	UserInfo bool   `json:"userinfo,omitempty"`
	HD       string `json:"hd,omitempty"`
}

type AuthCfg struct {
	Be  []AuthBe `json:"be"`
	Bad string   `json:"bad,omitempty"`
}

type AuthBe struct {
	Hosts   []string     `json:"hosts"`
	Mode    string       `json:"mode"`
	Srv     int          `json:"srv,omitempty"` // backend server, from 1
	SSO     int          `json:"sso,omitempty"` // provider, from 1
	ACL     *[]string    `json:"acl,omitempty"`
	Paths   []string     `json:"paths,omitempty"`
	ForceS  int64        `json:"force,omitempty"`
	UID     bool         `json:"uid,omitempty"`
	GenID   bool         `json:"genid,omitempty"`
	JWT     bool         `json:"jwt,omitempty"` // forward ${JWT:email}
	Raw     bool         `json:"raw,omitempty"` // do not sanitize paths
	OPrefix string       `json:"oprefix,omitempty"`
	OIDC    []ClientSpec `json:"oidc,omitempty"`
}

type ClientSpec struct {
	ID     string   `json:"id"`
	Secret string   `json:"secret"`
	Redir  []string `json:"redir"`
}

// AuOp is the argument of an authentication operation.
type AuOp struct {
	Host   string   `json:"host"`
	SNI    string   `json:"sni,omitempty"`
	Path   string   `json:"path,omitempty"`
	Method string   `json:"m,omitempty"`
	Cred   string   `json:"cred,omitempty"`
	N      int      `json:"n,omitempty"`
	Hdr    int      `json:"hdr,omitempty"`
	User   int      `json:"user,omitempty"`
	Beh    string   `json:"beh,omitempty"` // identity provider
	BehMs  int64    `json:"behms,omitempty"`
	MS     int64    `json:"ms,omitempty"` // time spent at the identity provider
	Var    string   `json:"var,omitempty"`
	Form   bool     `json:"form,omitempty"`
	Client int      `json:"client,omitempty"`
	Redir  int      `json:"redir,omitempty"`
	Scope  string   `json:"scope,omitempty"`
	Nonce  string   `json:"nonce,omitempty"`
	Reds   []RedOp  `json:"reds,omitempty"`
	Infos  []InfoOp `json:"infos,omitempty"`
}

// RedOp is an attempt to redeem a code.
type RedOp struct {
	MS     int64 `json:"ms"` // after the code was issued
	Client int   `json:"client"`
	Bad    bool  `json:"bad,omitempty"` // wrong secret
	Redir  int   `json:"redir"`
}

// InfoOp is a use of the user-information endpoint.
type InfoOp struct {
	MS int64 `json:"ms"` // after the redemption
}

type auUser struct {
	email, sub, hd string
}

var auUsers = []auUser{
	{"alice@example.com", "sub-alice", "example.com"},
	{"bob@example.com", "sub-bob", "example.com"},
	{"carol@other.org", "sub-carol", "other.org"},
	{"mallory@evil.net", "sub-mallory", ""},
	{"dave@sub.example.com", "sub-dave", ""},
	{"eve@notexample.com", "sub-eve", ""},
}

type browser struct {
	idx int
	ip  string
	mu  sync.Mutex
	jar map[[2]string]string // domain (with a leading dot if it covers subdomains), name
	tr  *http.Transport
}

// aReq is a request sent to the proxy.
type aReq struct {
	id       string
	br       int
	sni      string
	host     string
	path     string
	method   string
	sent     time.Duration
	done     time.Duration
	hdr      http.Header
	auth     []string // TLSPROXYAUTH cookies
	nonce    []string
	bearer   string
	spoof    bool
	status   int
	loc      string
	set      map[string]*http.Cookie
	setAll   []*http.Cookie
	body     string
	ctype    string
	etag     string
	err      error
	seen     []*aSeen
	kind     string // what it is part of: get, login, callback, authz, token, userinfo, logout
	exempt   bool
	finished bool
}

type aSeen struct {
	srv  int
	at   time.Duration
	hdr  http.Header
	host string
	path string
	ck   []*http.Cookie
}

type aTok struct {
	kind string // auth, id, oidc
	s    string
	user int
	prov int
	host string // login host, or audience host
	iat  int64
	aiat int64 // of the authentication
	exp  int64
	sid  string
	at   time.Duration
}

type stRec struct {
	state   string
	br      int
	prov    int
	sentAt  time.Duration
	recvAt  time.Duration
	orig    string
	ver     int
	chal    string
	success int
}

type cbRec struct {
	br    int
	prov  int
	state string
	code  string
	nonce string // cookie sent
	req   *aReq
	dup   bool
	again bool // the proxy set an ID token and asked for the same request again
}

type idpCode struct {
	code     string
	prov     int
	state    string
	chal     string
	user     int
	beh      string
	behMs    int64
	at       time.Duration
	redeemed []time.Duration
	served   bool // a complete and correct answer was written
	hit      bool
	hitEnd   time.Duration
	access   string
}

type oCode struct {
	code   string
	host   string
	client ClientSpec
	redir  string
	user   []int
	nonce  string
	scope  string
	at     time.Duration // earliest
	got    time.Duration
	reds   []*redRec
	ver    int
}

type redRec struct {
	c      *oCode
	client ClientSpec
	bad    bool
	redir  string
	req    *aReq
	idtok  string
	access string
	infos  []*aReq
}

type wallStep struct {
	at  time.Duration
	off int64
}

type auth struct {
	w     *World
	prop  string
	spec  *AuthSpec
	node  uint32
	addr  string
	p     *proxy.Proxy
	base  time.Duration
	mu    sync.Mutex
	brs   []*browser
	reqs  []*aReq
	byID  map[string]*aReq
	nreq  int
	toks  []*aTok
	tokOf map[string]*aTok
	sts   map[string]*stRec
	stl   []*stRec
	cbs   []*cbRec
	codes map[string]*idpCode
	oc    []*oCode
	jwks  map[string]*jwksKey
	vers  []*authVer
	walls []wallStep
	parts [][2]time.Duration
	wg    sync.WaitGroup
	ncode int
	extra func(cfg *proxy.Config)
	jumps bool

	reqProp string // the property of wrong admissions
}

type authVer struct {
	n     int
	spec  *AuthCfg
	from  time.Duration
	ret   time.Duration
	until time.Duration
}

func newAuth(w *World, spec *AuthSpec) *auth {
	a := &auth{w: w, spec: spec, prop: w.plan.Property, addr: "10.0.0.1:443", byID: map[string]*aReq{}, tokOf: map[string]*aTok{},
		sts: map[string]*stRec{}, codes: map[string]*idpCode{}, jwks: map[string]*jwksKey{}, walls: []wallStep{{0, 0}}}
	if a.prop == "" {
		a.prop = "P10"
	}
	a.reqProp = "P10"
	for i := 0; i < spec.NB; i++ {
		b := &browser{idx: i, ip: fmt.Sprintf("192.0.2.%d", i+1), jar: map[[2]string]string{}}
		protos := []string{"http/1.1"}
		if i%2 == 1 {
			protos = []string{"h2", "http/1.1"}
		}
		b.tr = &http.Transport{
			ForceAttemptHTTP2: true,
			DisableKeepAlives: i%3 == 2,
			MaxIdleConns:      10,
			IdleConnTimeout:   20 * time.Second,
			DialTLSContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
				h, _, _ := net.SplitHostPort(addr)
				c, err := w.net.dial(ctx, 0, b.ip, "tcp", a.addr)
				if err != nil {
					return nil, err
				}
				tc := tls.Client(c, &tls.Config{ServerName: h, InsecureSkipVerify: true, NextProtos: protos})
				if err := tc.HandshakeContext(ctx); err != nil {
					c.Close()
					return nil, err
				}
				return tc, nil
			},
		}
		a.brs = append(a.brs, b)
	}
	for i := range spec.Provs {
		a.startIDP(i)
	}
	n := 0
	for _, c := range spec.Cfgs {
		for _, b := range c.Be {
			n = max(n, b.Srv)
		}
	}
	for i := 0; i < n; i++ {
		a.startBackend(i)
	}
	return a
}

func (a *auth) idpIP(i int) string { return fmt.Sprintf("10.2.0.%d", i+1) }

func (a *auth) proxyConfig(v int) *proxy.Config {
	s := &a.spec.Cfgs[v]
	c := &proxy.Config{
		TLSAddr:    a.addr,
		EnableQUIC: ptr(false),
		CacheDir:   "/simdisk/auth",
		MaxOpen:    1000,
	}
	for i, p := range a.spec.Provs {
		o := &proxy.ConfigOIDC{
			Name:          p.Name,
			AuthEndpoint:  "http://" + a.idpIP(i) + "/auth",
			TokenEndpoint: "http://" + a.idpIP(i) + "/token",
			RedirectURL:   p.Redirect,
			ClientID:      "proxy-" + p.Name,
			ClientSecret:  "secret-" + p.Name,
			Domain:        p.Domain,
			HostedDomain:  p.HD,
		}
		if p.UserInfo {
			o.UserinfoEndpoint = "http://" + a.idpIP(i) + "/userinfo"
		}
		c.OIDCProviders = append(c.OIDCProviders, o)
	}
	for _, b := range s.Be {
		be := &proxy.Backend{ServerNames: append([]string(nil), b.Hosts...), Mode: b.Mode, ForwardRateLimit: 100000}
		if b.Srv > 0 {
			be.Addresses = []string{fmt.Sprintf("10.1.0.%d:8080", b.Srv)}
		}
		if b.JWT {
			be.ForwardHTTPHeaders = map[string]string{"X-Jwt-Email": "${JWT:email}"}
		}
		if b.Raw {
			be.SanitizePath = ptr(false)
		}
		if b.SSO > 0 {
			be.SSO = &proxy.BackendSSO{
				Provider:         a.spec.Provs[b.SSO-1].Name,
				ForceReAuth:      time.Duration(b.ForceS) * time.Second,
				ACL:              b.ACL,
				Paths:            b.Paths,
				SetUserIDHeader:  b.UID,
				GenerateIDTokens: b.GenID,
			}
			if len(b.OIDC) > 0 {
				lo := &proxy.LocalOIDCServer{PathPrefix: b.OPrefix}
				for _, cl := range b.OIDC {
					lo.Clients = append(lo.Clients, &proxy.LocalOIDCClient{ID: cl.ID, Secret: cl.Secret, RedirectURI: cl.Redir})
				}
				be.SSO.LocalOIDCServer = lo
			}
		}
		c.Backends = append(c.Backends, be)
	}
	if s.Bad == "sso" {
		c.Backends = append(c.Backends, &proxy.Backend{ServerNames: []string{"bad.example.com"}, Mode: "LOCAL", SSO: &proxy.BackendSSO{Provider: "nosuch"}})
	}
	if a.extra != nil {
		a.extra(c)
	}
	return c
}

func (a *auth) startProxy(v int) bool {
	a.node = a.w.newNode("10.0.0.1")
	ok := false
	now := a.w.since()
	a.vers = append(a.vers, &authVer{n: len(a.vers), spec: &a.spec.Cfgs[v], from: now, ret: now, until: 1 << 62})
	a.w.in(a.node, func() {
		p, err := proxy.NewTestProxy(a.proxyConfig(v))
		if err != nil {
			a.w.violate(a.prop, "start", "NewTestProxy: %v", err)
			return
		}
		if err := p.Start(context.Background()); err != nil {
			a.w.violate(a.prop, "start", "Start: %v", err)
			return
		}
		a.p = p
		ok = true
	})
	return ok
}

func (a *auth) reconfigure(v int) {
	s := &a.spec.Cfgs[v]
	ver := &authVer{n: len(a.vers), spec: s, from: a.w.since(), until: 1 << 62}
	a.mu.Lock()
	if s.Bad == "" {
		a.vers = append(a.vers, ver)
	}
	a.mu.Unlock()
	var err error
	a.w.ev("reconfigure %d called", v)
	a.w.in(a.node, func() { err = a.p.Reconfigure(a.proxyConfig(v)) })
	now := a.w.since()
	a.w.ev("reconfigure %d returned err=%v", v, err != nil)
	a.mu.Lock()
	defer a.mu.Unlock()
	if s.Bad != "" {
		if err == nil {
			a.w.violate("P03", "bad-config-accepted", "configuration %d (%s) was accepted", v, s.Bad)
		}
		return
	}
	if err != nil {
		a.w.violate("P03", "good-config-rejected", "configuration %d was rejected: %v", v, err)
		return
	}
	a.w.probe("reconfigure")
	ver.ret = now
	for _, o := range a.vers {
		if o != ver && o.until > now {
			o.until = now
		}
	}
}

// jump moves the proxy's wall clock.
func (a *auth) jump(d time.Duration) {
	a.mu.Lock()
	off := a.walls[len(a.walls)-1].off + int64(d)
	a.walls = append(a.walls, wallStep{a.w.since(), off})
	a.jumps = true
	a.mu.Unlock()
	runtime.VerifSetWallOffset(a.node, off)
	a.w.fault("clock-jump")
	a.w.ev("the proxy's wall clock jumps by %v", d)
}

// wall is the range of the proxy's wall clock, in seconds, over an interval.
func (a *auth) wall(from, to time.Duration) (lo, hi float64) {
	lo, hi = 1e18, -1e18
	for i, s := range a.walls {
		e := time.Duration(1 << 62)
		if i+1 < len(a.walls) {
			e = a.walls[i+1].at
		}
		b, t := max(s.at, from), min(e, to)
		if b > t {
			continue
		}
		lo = min(lo, float64(baseTime+s.off+int64(b))/1e9)
		hi = max(hi, float64(baseTime+s.off+int64(t))/1e9)
	}
	return
}

// versions in force at some time of an interval.
func (a *auth) versions(from, to time.Duration) []*authVer {
	const grace = 15 * time.Second
	var out []*authVer
	for _, v := range a.vers {
		if v.from <= to && v.until+grace >= from {
			out = append(out, v)
		}
	}
	return out
}

func (c *AuthCfg) be(host string) *AuthBe {
	for i := range c.Be {
		for _, h := range c.Be[i].Hosts {
			if h == host {
				return &c.Be[i]
			}
		}
	}
	return nil
}

// Backend servers.

func (a *auth) startBackend(i int) {
	ip := fmt.Sprintf("10.1.0.%d", i+1)
	n := a.w.newNode(ip)
	a.w.in(n, func() {
		l, err := a.w.net.listen(n, "tcp", ip+":8080")
		if err != nil {
			panic(err)
		}
		s := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			io.Copy(io.Discard, req.Body)
			id := req.Header.Get("X-Req-Id")
			sn := &aSeen{srv: i + 1, at: a.w.since(), hdr: req.Header.Clone(), host: req.Host, path: req.URL.Path, ck: req.Cookies()}
			a.mu.Lock()
			r := a.byID[id]
			if r != nil {
				r.seen = append(r.seen, sn)
			}
			a.mu.Unlock()
			if r == nil {
				a.w.violate("P10", "unknown-request", "backend server %d saw an unknown request %q", i+1, id)
			}
			w.Header().Set("X-Srv", fmt.Sprint(i+1))
			fmt.Fprintf(w, "backend %d %s", i+1, id)
		})}
		go s.Serve(l)
	})
}

// Identity providers.

func (a *auth) startIDP(i int) {
	ip := a.idpIP(i)
	n := a.w.newNode(ip)
	mux := http.NewServeMux()
	mux.HandleFunc("/token", func(w http.ResponseWriter, req *http.Request) { a.idpToken(i, w, req) })
	mux.HandleFunc("/userinfo", func(w http.ResponseWriter, req *http.Request) { a.idpUserinfo(i, w, req) })
	a.w.in(n, func() {
		l, err := a.w.net.listen(n, "tcp", ip+":80")
		if err != nil {
			panic(err)
		}
		go (&http.Server{Handler: mux}).Serve(l)
	})
}

// authorize is what happens in the browser at the identity provider. It
// returns the callback URL.
func (a *auth) authorize(authURL string, user int, beh string, behMs int64) (prov int, cb *url.URL, c *idpCode) {
	u, err := url.Parse(authURL)
	if err != nil {
		return -1, nil, nil
	}
	prov = -1
	for i := range a.spec.Provs {
		if u.Host == a.idpIP(i) {
			prov = i
		}
	}
	if prov < 0 {
		return -1, nil, nil
	}
	q := u.Query()
	p := a.spec.Provs[prov]
	if q.Get("client_id") != "proxy-"+p.Name || q.Get("redirect_uri") != p.Redirect || q.Get("response_type") != "code" {
		a.w.violate("P11", "auth-request", "bad authorization request %s", authURL)
		return -1, nil, nil
	}
	a.mu.Lock()
	a.ncode++
	c = &idpCode{code: fmt.Sprintf("code%d-%x", a.ncode, a.w.wrng.Uint64()), prov: prov, state: q.Get("nonce"), chal: q.Get("code_challenge"), user: user, beh: beh, behMs: behMs, at: a.w.since()}
	a.codes[c.code] = c
	a.mu.Unlock()
	cb, _ = url.Parse(p.Redirect)
	v := url.Values{}
	v.Set("state", q.Get("state"))
	v.Set("code", c.code)
	cb.RawQuery = v.Encode()
	return prov, cb, c
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func (a *auth) idpClaims(c *idpCode) map[string]any {
	us := auUsers[c.user]
	m := map[string]any{"sub": us.sub, "email": us.email, "email_verified": true, "name": "User " + us.sub, "iss": "https://idp.example.net", "nonce": c.state}
	if us.hd != "" {
		m["hd"] = us.hd
	}
	switch c.beh {
	case "unverified":
		m["email_verified"] = false
	case "noemail":
		delete(m, "email")
	case "nosub":
		delete(m, "sub")
	case "nononce":
		delete(m, "nonce")
	case "noverified":
		delete(m, "email_verified")
	case "badhd":
		m["hd"] = "evil.net"
	}
	return m
}

func (a *auth) idpToken(prov int, w http.ResponseWriter, req *http.Request) {
	req.ParseForm()
	a.mu.Lock()
	c := a.codes[req.Form.Get("code")]
	a.mu.Unlock()
	p := a.spec.Provs[prov]
	fail := func(why string) {
		a.w.ev("idp refuses: %s", why)
		w.Header().Set("Content-Type", "application/json")
		w.WriteHeader(400)
		io.WriteString(w, `{"error":"invalid_grant"}`)
	}
	if c == nil || c.prov != prov {
		fail("unknown code")
		return
	}
	a.mu.Lock()
	c.hit = true
	a.mu.Unlock()
	defer func() {
		a.mu.Lock()
		c.hitEnd = a.w.since()
		a.mu.Unlock()
	}()
	if c.behMs > 0 {
		a.w.fault("idp-slow")
		time.Sleep(time.Duration(c.behMs) * time.Millisecond)
	}
	hj := func() {
		if h, ok := w.(http.Hijacker); ok {
			nc, _, err := h.Hijack()
			if err == nil {
				nc.(*simConn).Abort()
			}
		}
	}
	switch c.beh {
	case "500":
		a.w.fault("idp-error")
		w.WriteHeader(500)
		io.WriteString(w, "internal error")
		return
	case "reset":
		a.w.fault("idp-reset")
		hj()
		return
	case "garbage":
		a.w.fault("idp-garbage")
		io.WriteString(w, "<html>not json</html>")
		return
	case "empty":
		a.w.fault("idp-empty")
		io.WriteString(w, "{}")
		return
	case "trunc":
		a.w.fault("idp-truncated")
		w.Header().Set("Content-Length", "1000")
		io.WriteString(w, `{"access_token":"x","id_token":"eyJhbGciOiJub25lIn0.`)
		return
	}
	a.mu.Lock()
	used := len(c.redeemed) > 0
	a.mu.Unlock()
	if used {
		fail("used code")
		return
	}
	if req.Form.Get("client_id") != "proxy-"+p.Name || req.Form.Get("client_secret") != "secret-"+p.Name || req.Form.Get("redirect_uri") != p.Redirect || req.Form.Get("grant_type") != "authorization_code" {
		a.w.violate("P11", "token-request", "bad token request %v", req.Form)
		fail("bad request")
		return
	}
	if p.PKCE {
		h := sha256.Sum256([]byte(req.Form.Get("code_verifier")))
		if b64(h[:]) != c.chal {
			fail("PKCE")
			return
		}
	}
	a.mu.Lock()
	c.redeemed = append(c.redeemed, a.w.since())
	c.access = fmt.Sprintf("at-%x", a.w.wrng.Uint64())
	a.mu.Unlock()
	out := map[string]any{"access_token": c.access, "token_type": "Bearer", "expires_in": 3600}
	if !p.UserInfo {
		cl, _ := json.Marshal(a.idpClaims(c))
		out["id_token"] = b64([]byte(`{"alg":"RS256","typ":"JWT","kid":"1"}`)) + "." + b64(cl) + "." + b64(make([]byte, 256))
	}
	w.Header().Set("Content-Type", "application/json")
	json.NewEncoder(w).Encode(out)
}

func (a *auth) idpUserinfo(prov int, w http.ResponseWriter, req *http.Request) {
	tok := strings.TrimPrefix(req.Header.Get("Authorization"), "Bearer ")
	a.mu.Lock()
	var c *idpCode
	for _, x := range a.codes {
		if x.access != "" && x.access == tok && x.prov == prov {
			c = x
		}
	}
	a.mu.Unlock()
	if c == nil {
		w.WriteHeader(401)
		return
	}
	if c.beh == "info500" {
		a.w.fault("idp-error")
		w.WriteHeader(500)
		io.WriteString(w, "oops")
		return
	}
	m := a.idpClaims(c)
	delete(m, "nonce")
	w.Header().Set("Content-Type", "application/json")
	json.NewEncoder(w).Encode(m)
}

// Browsers.

func (b *browser) cookies(host string) []*http.Cookie {
	b.mu.Lock()
	defer b.mu.Unlock()
	var out []*http.Cookie
	for k, v := range b.jar {
		if d, ok := strings.CutPrefix(k[0], "."); ok && (host == d || strings.HasSuffix(host, "."+d)) || k[0] == host {
			out = append(out, &http.Cookie{Name: k[1], Value: v})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func (b *browser) update(host string, cs []*http.Cookie) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, c := range cs {
		k := [2]string{host, c.Name}
		if c.Domain != "" {
			d := strings.TrimPrefix(c.Domain, ".")
			if host != d && !strings.HasSuffix(host, "."+d) {
				continue
			}
			k[0] = "." + d
		}
		if c.MaxAge < 0 {
			delete(b.jar, k)
			continue
		}
		b.jar[k] = c.Value
	}
}

type reqOpt struct {
	kind   string
	sni    string
	method string
	hdr    http.Header
	raw    []*http.Cookie // instead of the jar's cookies
	noJar  bool           // do not use the jar nor update it
	body   string
	stall  time.Duration // pause in the middle of the body
	exempt bool
}

// do sends a request and records it.
func (a *auth) do(b *browser, rawurl string, o reqOpt) *aReq {
	u, err := url.Parse(rawurl)
	if err != nil {
		panic(fmt.Sprintf("bad URL %q", rawurl))
	}
	r := &aReq{br: b.idx, kind: o.kind, sni: u.Host, host: u.Host, path: u.Path, method: o.method, exempt: o.exempt}
	if r.method == "" {
		r.method = "GET"
	}
	if o.sni != "" {
		r.sni = o.sni
	}
	a.mu.Lock()
	a.nreq++
	r.id = fmt.Sprintf("r%d", a.nreq)
	a.byID[r.id] = r
	a.reqs = append(a.reqs, r)
	a.mu.Unlock()
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Hour)
	defer cancel()
	var body io.Reader
	if o.body != "" {
		body = strings.NewReader(o.body)
		if o.stall > 0 {
			body = &stallReader{data: []byte(o.body), at: len(o.body) / 2, d: o.stall}
		}
	}
	req, err := http.NewRequestWithContext(ctx, r.method, u.String(), body)
	if err != nil {
		panic(err)
	}
	req.ContentLength = int64(len(o.body))
	req.URL.Host = r.sni
	req.Host = r.host
	for k, v := range o.hdr {
		req.Header[k] = v
	}
	req.Header.Set("X-Req-Id", r.id)
	req.Header.Set("User-Agent", "sim")
	cs := o.raw
	if !o.noJar {
		cs = append(append([]*http.Cookie(nil), cs...), b.cookies(r.host)...)
	}
	for _, c := range cs {
		req.AddCookie(c)
		switch c.Name {
		case "TLSPROXYAUTH":
			r.auth = append(r.auth, c.Value)
		case "TLSPROXYNONCE":
			r.nonce = append(r.nonce, c.Value)
		}
	}
	if h := req.Header.Get("Authorization"); len(h) > 7 {
		r.bearer = h[7:]
	}
	r.hdr = req.Header
	r.sent = a.w.since()
	a.w.ev("b%d %s %s https://%s%s (sni %s) auth=%d bearer=%v", b.idx, r.id, r.method, r.host, r.path, r.sni, len(r.auth), r.bearer != "")
	resp, err := b.tr.RoundTrip(req)
	if err != nil {
		r.err = err
		r.done = a.w.since()
		r.finished = true
		a.w.ev("b%d %s err", b.idx, r.id)
		return r
	}
	bd, err := io.ReadAll(io.LimitReader(resp.Body, 1<<20))
	resp.Body.Close()
	r.err = err
	r.body = string(bd)
	r.ctype = resp.Header.Get("Content-Type")
	r.etag = resp.Header.Get("Etag")
	r.status = resp.StatusCode
	r.loc = resp.Header.Get("Location")
	r.setAll = resp.Cookies()
	r.set = map[string]*http.Cookie{}
	for _, c := range r.setAll {
		r.set[c.Name] = c
	}
	r.done = a.w.since()
	r.finished = true
	a.w.ev("b%d %s -> %d %s", b.idx, r.id, r.status, short(r.loc))
	if !o.noJar {
		b.update(r.host, r.setAll)
	}
	a.learn(b, r)
	return r
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60]
	}
	return s
}

func jwtClaims(s string) map[string]any {
	p := strings.Split(s, ".")
	if len(p) != 3 {
		return nil
	}
	b, err := base64.RawURLEncoding.DecodeString(p[1])
	if err != nil {
		return nil
	}
	var m map[string]any
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	return m
}

func num(v any) int64 {
	f, _ := v.(float64)
	return int64(f)
}

func str(v any) string {
	s, _ := v.(string)
	return s
}

func (a *auth) userOf(email string) int {
	for i, u := range auUsers {
		if u.email == email {
			return i
		}
	}
	return -1
}

// learn records the tokens that a response sets.
func (a *auth) learn(b *browser, r *aReq) {
	a.mu.Lock()
	defer a.mu.Unlock()
	if c := r.set["TLSPROXYIDTOKEN"]; c != nil && c.Value != "" && c.MaxAge >= 0 && a.tokOf[c.Value] == nil {
		m := jwtClaims(c.Value)
		t := &aTok{kind: "id", s: c.Value, user: a.userOf(str(m["email"])), host: r.host, iat: num(m["iat"]), exp: num(m["exp"]), sid: str(m["sid"]), prov: -1, at: r.done}
		a.toks = append(a.toks, t)
		a.tokOf[c.Value] = t
		// The authentication token it was made from.
		var src *aTok
		for _, s := range r.auth {
			if x := a.tokOf[s]; x != nil && x.kind == "auth" && (src == nil || x.sid == t.sid) {
				src = x
			}
		}
		if src == nil {
			a.w.violate("P10", "id-token-unauthenticated", "request %s got an ID token without presenting an authentication token", r.id)
			return
		}
		t.prov, t.aiat = src.prov, src.iat
		if t.user != src.user || str(m["sub"]) != auUsers[src.user].sub || t.exp > src.exp {
			a.w.violate("P10", "id-token-claims", "ID token of request %s (user %v, exp %d) does not follow from the authentication of %s, exp %d", r.id, m["email"], t.exp, auUsers[src.user].email, src.exp)
		}
	}
}

// Public keys of the proxy.

type jwksKey struct {
	rsa  *rsa.PublicKey
	kind string
}

func (a *auth) fetchJWKS(b *browser, u string) bool {
	r := a.do(b, u, reqOpt{kind: "jwks", noJar: true})
	if r.err != nil || r.status != 200 {
		return false
	}
	var set struct {
		Keys []struct{ Kty, Kid, Alg, N, E, X, Y string }
	}
	if json.Unmarshal([]byte(r.body), &set) != nil {
		return false
	}
	for _, k := range set.Keys {
		switch k.Kty {
		case "RSA":
			n, err1 := base64.RawURLEncoding.DecodeString(k.N)
			e, err2 := base64.RawURLEncoding.DecodeString(k.E)
			if err1 != nil || err2 != nil {
				continue
			}
			a.mu.Lock()
			a.jwks[k.Kid] = &jwksKey{kind: "RSA", rsa: &rsa.PublicKey{N: new(big.Int).SetBytes(n), E: int(new(big.Int).SetBytes(e).Int64())}}
			a.mu.Unlock()
		}
	}
	return true
}

func (a *auth) verifyRS256(tok string) error {
	p := strings.Split(tok, ".")
	if len(p) != 3 {
		return fmt.Errorf("not a JWT")
	}
	hb, _ := base64.RawURLEncoding.DecodeString(p[0])
	var h struct{ Alg, Kid string }
	json.Unmarshal(hb, &h)
	a.mu.Lock()
	k := a.jwks[h.Kid]
	a.mu.Unlock()
	if h.Alg != "RS256" || k == nil {
		return fmt.Errorf("alg %s, unknown key %s", h.Alg, h.Kid)
	}
	sum := sha256.Sum256([]byte(p[0] + "." + p[1]))
	sig, err := base64.RawURLEncoding.DecodeString(p[2])
	if err != nil {
		return err
	}
	return rsa.VerifyPKCS1v15(k.rsa, crypto.SHA256, sum[:], sig)
}

var loginRE = regexp.MustCompile(`/\.sso/login\?redirect=([A-Za-z0-9_.%=-]+)`)

// login runs a login. It returns the final callback request, or nil.
func (a *auth) login(b *browser, au *AuOp) *cbRec {
	path := au.Path
	if path == "" {
		path = "/"
	}
	orig := "https://" + au.Host + path
	o := reqOpt{kind: "login"}
	if !au.Form {
		o.hdr = http.Header{"X-Skip-Login-Confirmation": {"1"}}
	}
	r := a.do(b, orig, o)
	for i := 0; i < 2 && r.err == nil && r.status == 302 && r.loc == path; i++ { // new ID token
		r = a.do(b, orig, o)
	}
	loc := r.loc
	if r.err == nil && (r.status == 403 || au.Var == "logout") {
		m := loginRE.FindStringSubmatch(r.body)
		if m != nil {
			loc = "/.sso/login?redirect=" + m[1]
		}
	}
	if !strings.HasPrefix(loc, "/.sso/login") {
		return nil
	}
	if au.Var == "foreign" && len(a.brs) > 1 { // somebody else follows the link
		r = a.do(a.brs[(b.idx+1)%len(a.brs)], "https://"+au.Host+loc, reqOpt{kind: "login"})
		a.w.check()
		// A relative redirect is no login start: an SSO rule on the login path
		// itself or a fresh ID token.
		if r.err == nil && r.status/100 == 3 && !strings.HasPrefix(r.loc, "/") && !strings.HasPrefix(r.loc, "https://"+au.Host+"/.sso/") {
			a.w.violate("P11", "foreign-redirect", "request %s started a login with a redirect token that was given to another browser", r.id)
		}
	}
	sent := a.w.since()
	a.mu.Lock()
	ver := len(a.vers)
	a.mu.Unlock()
	r = a.do(b, "https://"+au.Host+loc, reqOpt{kind: "login"})
	if r.err != nil || r.status != 302 {
		a.w.ev("b%d login request failed: %d %v", b.idx, r.status, r.err != nil)
		return nil
	}
	st := a.noteState(b, r, orig, sent, ver)
	if st == nil {
		return nil
	}
	return a.finishLogin(b, au, r.loc, st)
}

func (a *auth) noteState(b *browser, r *aReq, orig string, sent time.Duration, ver int) *stRec {
	u, err := url.Parse(r.loc)
	if err != nil || u.Query().Get("state") == "" {
		return nil
	}
	st := &stRec{state: u.Query().Get("state"), br: b.idx, sentAt: sent, recvAt: r.done, orig: orig, ver: ver, prov: -1}
	for i := range a.spec.Provs {
		if u.Host == a.idpIP(i) {
			st.prov = i
		}
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.sts[st.state] != nil {
		a.w.violate("P11", "state-reuse", "state %s was issued twice", st.state)
		return nil
	}
	a.sts[st.state] = st
	a.stl = append(a.stl, st)
	if n := r.set["TLSPROXYNONCE"]; n == nil || n.Value != st.state {
		a.w.violate("P11", "no-nonce-cookie", "the login request %s did not tie state %s to the browser", r.id, st.state)
	}
	return st
}

// callback delivers a login response.
func (a *auth) callback(b *browser, cb *url.URL, prov int, o reqOpt) *cbRec {
	o.kind = "callback"
	q := cb.Query()
	c := &cbRec{br: b.idx, prov: prov, state: q.Get("state"), code: q.Get("code")}
	a.mu.Lock()
	a.cbs = append(a.cbs, c)
	a.mu.Unlock()
	for i := 0; i < 2; i++ {
		c.req = a.do(b, cb.String(), o)
		k := c.req.set["TLSPROXYIDTOKEN"]
		if c.req.status != 302 || k == nil || k.Value == "" || c.req.loc != cb.RequestURI() {
			break
		}
		if o.noJar {
			o.raw = append(append([]*http.Cookie(nil), o.raw...), &http.Cookie{Name: k.Name, Value: k.Value})
		}
	}
	if len(c.req.nonce) > 0 {
		c.nonce = c.req.nonce[0]
	}
	a.judgeToken(c)
	return c
}

// judgeToken registers the authentication token that a callback yields.
func (a *auth) judgeToken(c *cbRec) {
	k := c.req.set["TLSPROXYAUTH"]
	if k == nil || k.Value == "" || k.MaxAge < 0 {
		return
	}
	m := jwtClaims(k.Value)
	h := ""
	a.mu.Lock()
	if st := a.sts[c.state]; st != nil {
		if u, err := url.Parse(st.orig); err == nil {
			h = u.Host
		}
	}
	t := &aTok{kind: "auth", s: k.Value, user: a.userOf(str(m["email"])), prov: c.prov, host: h, iat: num(m["iat"]), aiat: num(m["iat"]), exp: num(m["exp"]), sid: str(m["sid"]), at: c.req.done}
	if a.tokOf[t.s] == nil {
		a.toks = append(a.toks, t)
		a.tokOf[t.s] = t
	}
	a.mu.Unlock()
}

func (a *auth) finishLogin(b *browser, au *AuOp, authURL string, st *stRec) *cbRec {
	prov, cb, _ := a.authorize(authURL, au.User, au.Beh, au.BehMs)
	if cb == nil {
		a.w.violate("P11", "auth-endpoint", "login was sent to %s", short(authURL))
		return nil
	}
	time.Sleep(time.Duration(au.MS) * time.Millisecond)
	other := a.brs[(b.idx+1)%len(a.brs)]
	nonce := []*http.Cookie{{Name: "TLSPROXYNONCE", Value: st.state}}
	var c *cbRec
	switch au.Var {
	default:
		c = a.callback(b, cb, prov, reqOpt{})
	case "dup": // the same response twice at the same time
		var wg sync.WaitGroup
		var cs [3]*cbRec
		jar := b.cookies(cb.Host)
		n := 2 + au.N%2
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				cs[i] = a.callback(b, cb, prov, reqOpt{noJar: true, raw: jar})
				cs[i].dup = true
				b.update(cb.Host, cs[i].req.setAll)
			}()
		}
		wg.Wait()
		c = cs[0]
		for _, x := range cs[:n] {
			if x.req.status == 302 {
				c = x
			}
		}
	case "replay":
		c = a.callback(b, cb, prov, reqOpt{})
		time.Sleep(time.Duration(au.N) * time.Second)
		x := a.callback(b, cb, prov, reqOpt{noJar: true, raw: nonce})
		_ = x
	case "replay-fresh": // replays with a fresh code of the same user
		c = a.callback(b, cb, prov, reqOpt{})
		_, cb2, _ := a.authorize(authURL, au.User, "", 0)
		a.callback(b, cb2, prov, reqOpt{noJar: true, raw: nonce})
	case "cross": // delivered to another browser
		a.callback(other, cb, prov, reqOpt{})
		c = a.callback(b, cb, prov, reqOpt{})
	case "cross-only":
		c = a.callback(other, cb, prov, reqOpt{})
	case "swap", "inject": // with somebody else's code
		orig := "https://" + au.Host + "/"
		r := a.do(other, orig, reqOpt{kind: "login", hdr: http.Header{"X-Skip-Login-Confirmation": {"1"}}, noJar: true})
		if !strings.HasPrefix(r.loc, "/.sso/login") {
			return a.callback(b, cb, prov, reqOpt{})
		}
		var sid []*http.Cookie
		for _, k := range r.setAll {
			sid = append(sid, &http.Cookie{Name: k.Name, Value: k.Value})
		}
		sent := a.w.since()
		a.mu.Lock()
		ver := len(a.vers)
		a.mu.Unlock()
		r = a.do(other, "https://"+au.Host+r.loc, reqOpt{kind: "login", noJar: true, raw: sid})
		if r.status != 302 || a.noteState(other, r, orig, sent, ver) == nil {
			return a.callback(b, cb, prov, reqOpt{})
		}
		p2, cb2, c2 := a.authorize(r.loc, 3, "", 0)
		if p2 != prov {
			return a.callback(b, cb, prov, reqOpt{})
		}
		q := cb.Query()
		q.Set("code", c2.code)
		cbx := *cb
		cbx.RawQuery = q.Encode()
		if au.Var == "inject" { // and the state of the other login
			cbx = *cb2
		}
		c = a.callback(b, &cbx, prov, reqOpt{})
	case "badstate":
		q := cb.Query()
		q.Set("state", "0123456789abcdef01234567")
		cb.RawQuery = q.Encode()
		c = a.callback(b, cb, prov, reqOpt{})
	case "nostate":
		q := cb.Query()
		q.Del("state")
		cb.RawQuery = q.Encode()
		c = a.callback(b, cb, prov, reqOpt{})
	case "nocookie":
		c = a.callback(b, cb, prov, reqOpt{noJar: true})
	case "badcode":
		q := cb.Query()
		q.Set("code", "nosuchcode")
		cb.RawQuery = q.Encode()
		c = a.callback(b, cb, prov, reqOpt{})
	case "post":
		q := cb.RawQuery
		u := *cb
		u.RawQuery = ""
		c = &cbRec{br: b.idx, prov: prov, state: cb.Query().Get("state"), code: cb.Query().Get("code")}
		a.mu.Lock()
		a.cbs = append(a.cbs, c)
		a.mu.Unlock()
		c.req = a.do(b, u.String(), reqOpt{kind: "callback", method: "POST", body: q, hdr: http.Header{"Content-Type": {"application/x-www-form-urlencoded"}}})
		if k := c.req.set["TLSPROXYIDTOKEN"]; c.req.status == 302 && k != nil && k.Value != "" {
			c.again = true
		}
		if len(c.req.nonce) > 0 {
			c.nonce = c.req.nonce[0]
		}
		a.judgeToken(c)
	}
	if c != nil && c.req.status == 302 && c.br == b.idx && !c.again {
		if r := a.do(b, c.req.loc, reqOpt{kind: "get"}); r.err == nil && r.status == 302 && strings.HasPrefix(r.loc, "/") && !strings.HasPrefix(r.loc, "/.sso/") {
			a.do(b, "https://"+au.Host+r.loc, reqOpt{kind: "get"})
		}
	}
	return c
}
