package main

// Runs an authentication plan.

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"
)

// forge makes a credential that must not be accepted out of a real one.
func (a *auth) forge(kind, tok string) string {
	p := strings.Split(tok, ".")
	if len(p) != 3 {
		p = []string{b64([]byte(`{"alg":"EdDSA","kid":"x","typ":"JWT"}`)), b64([]byte(`{"sub":"sub-alice","email":"alice@example.com"}`)), b64(make([]byte, 64))}
	}
	m := jwtClaims(strings.Join(p, "."))
	switch kind {
	case "none":
		p[0] = b64([]byte(`{"alg":"none","typ":"JWT"}`))
		p[2] = ""
	case "hs256":
		p[0] = b64([]byte(`{"alg":"HS256","typ":"JWT"}`))
	case "flip":
		b := []byte(p[2])
		if len(b) > 20 {
			if b[10] == 'A' {
				b[10] = 'B'
			} else {
				b[10] = 'A'
			}
		}
		p[2] = string(b)
	case "payload":
		if m["email"] == "alice@example.com" {
			m["email"], m["sub"] = "bob@example.com", "sub-bob"
		} else {
			m["email"], m["sub"] = "alice@example.com", "sub-alice"
		}
		b, _ := json.Marshal(m)
		p[1] = b64(b)
	case "extend":
		m["exp"] = num(m["exp"]) + 100*86400
		m["iat"] = num(m["iat"]) + 3600
		b, _ := json.Marshal(m)
		p[1] = b64(b)
	case "trunc":
		p[2] = p[2][:len(p[2])/2]
	case "empty":
		return ""
	}
	return strings.Join(p, ".")
}

func (a *auth) pickTok(kind string, n int) *aTok {
	a.mu.Lock()
	defer a.mu.Unlock()
	var l []*aTok
	for _, t := range a.toks {
		if t.kind == kind {
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[n%len(l)]
}

func (a *auth) opGet(b *browser, au *AuOp) {
	host, path := au.Host, au.Path
	if path == "" {
		path = "/"
	}
	if au.Cred == "xbearer" { // an ID token for a host, presented on a connection to another host
		if t := a.pickTok("id", au.N); t != nil && au.SNI != "" {
			host = t.host
			au = &AuOp{SNI: au.SNI, Cred: "bearer:id", N: au.N, Hdr: au.Hdr &^ 64}
		}
	}
	o := reqOpt{kind: "get", sni: au.SNI, method: au.Method, hdr: http.Header{}}
	if au.Method == "POST" {
		o.body = "data"
	}
	kind, arg, _ := strings.Cut(au.Cred, ":")
	ck := func(v ...string) {
		o.noJar = true
		for _, x := range v {
			o.raw = append(o.raw, &http.Cookie{Name: "TLSPROXYAUTH", Value: x})
		}
	}
	val := func(t *aTok) string {
		if t == nil {
			return ""
		}
		return t.s
	}
	switch kind {
	case "":
	case "none":
		o.noJar = true
	case "tok":
		ck(val(a.pickTok("auth", au.N)))
	case "forge":
		ck(a.forge(arg, val(a.pickTok("auth", au.N))))
	case "dup1":
		ck(a.forge(arg, val(a.pickTok("auth", au.N))), val(a.pickTok("auth", au.N)))
	case "dup2":
		ck(val(a.pickTok("auth", au.N)), val(a.pickTok("auth", au.N+1)))
	case "idcookie":
		ck(val(a.pickTok("id", au.N)))
	case "oidccookie":
		ck(val(a.pickTok("oidc", au.N)))
	case "bearer":
		t := a.pickTok(arg, au.N)
		if t != nil {
			o.hdr.Set("Authorization", "Bearer "+t.s)
			o.noJar = au.Hdr&64 == 0
		}
	case "bearerforge":
		if t := a.pickTok("id", au.N); t != nil {
			o.hdr.Set("Authorization", "Bearer "+a.forge(arg, t.s))
			o.noJar = true
		}
	}
	if au.Hdr&1 != 0 {
		o.hdr["X-Tlsproxy-User-Id"] = []string{"mallory@evil.net"}
	}
	if au.Hdr&2 != 0 {
		o.hdr["x-tlsproxy-user-id"] = []string{"mallory@evil.net", "alice@example.com"}
	}
	if b.idx%2 == 0 { // HTTP/1.1
		if au.Hdr&4 != 0 {
			o.hdr["Connection"] = []string{"X-Tlsproxy-User-Id"}
		}
		if au.Hdr&16 != 0 {
			o.hdr["Connection"] = append(o.hdr["Connection"], "x-jwt-email, Via")
		}
	}
	if au.Hdr&8 != 0 {
		o.hdr["X-Jwt-Email"] = []string{"mallory@evil.net"}
	}
	if au.Hdr&32 != 0 {
		o.raw = append(o.raw, &http.Cookie{Name: "other", Value: "yes"})
	}
	u := "https://" + host + path
	if _, err := url.Parse(u); err != nil {
		return
	}
	r := a.do(b, u, o)
	if kind == "" && au.SNI == "" && r.err == nil && r.status == 302 && r.set["TLSPROXYIDTOKEN"] != nil && strings.HasPrefix(r.loc, "/") && !strings.HasPrefix(r.loc, "//") {
		o.hdr.Set("X-Follow", "1")
		a.do(b, "https://"+host+r.loc, o)
	}
}

// nearURI changes a URI a little.
func nearURI(u string, n int) string {
	switch n % 9 {
	case 0:
		return u + ".evil.net"
	case 1:
		return u + "/x"
	case 2:
		return u + "?y=1"
	case 3:
		return u[:len(u)-1]
	case 4:
		return strings.Replace(u, "https://", "http://", 1)
	case 5:
		return strings.Replace(u, "/cb", ":8443/cb", 1)
	case 6:
		return strings.Replace(u, "/cb", ".evil.net/cb", 1)
	case 7:
		return strings.Replace(u, "/cb", "/CB", 1)
	}
	return strings.Replace(u, "https://", "https://evil.net@", 1)
}

// rp is the relying parties' address.
func (a *auth) opAuthz(b *browser, au *AuOp) {
	v := a.spec.Cfgs[0].be(au.Host)
	if v == nil || len(v.OIDC) == 0 {
		return
	}
	cl := v.OIDC[au.Client%len(v.OIDC)]
	q := url.Values{}
	q.Set("response_type", "code")
	q.Set("client_id", cl.ID)
	redir := "https://unregistered.example.net/cb"
	if au.Redir >= 0 {
		redir = cl.Redir[au.Redir%len(cl.Redir)]
	}
	switch au.Var {
	case "badclient":
		q.Set("client_id", "nosuch")
	case "otherredir":
		o := v.OIDC[(au.Client+1)%len(v.OIDC)]
		redir = o.Redir[0]
	case "badtype":
		q.Set("response_type", "token")
	case "near": // almost one that is configured
		redir = nearURI(redir, au.N)
	}
	q.Set("redirect_uri", redir)
	q.Set("scope", "openid "+au.Scope)
	q.Set("state", "s1")
	if au.Nonce != "" {
		q.Set("nonce", au.Nonce)
	}
	a.mu.Lock()
	ver := len(a.vers)
	a.mu.Unlock()
	o := reqOpt{kind: "authz"}
	if au.Cred == "none" {
		o.noJar = true
	}
	if au.Cred == "tok" {
		o.noJar = true
		if t := a.pickTok("auth", au.N); t != nil {
			o.raw = []*http.Cookie{{Name: "TLSPROXYAUTH", Value: t.s}}
		}
	}
	var r *aReq
	for i := 0; i < 3; i++ {
		r = a.do(b, "https://"+au.Host+v.OPrefix+"/authorization?"+q.Encode(), o)
		if r.err == nil && r.status == 302 && r.set["TLSPROXYIDTOKEN"] != nil && !o.noJar {
			continue
		}
		break
	}
	if r.err != nil || r.status != 302 {
		return
	}
	lu, err := url.Parse(r.loc)
	if err != nil || lu.Query().Get("code") == "" {
		return
	}
	c := &oCode{code: lu.Query().Get("code"), host: au.Host, client: cl, redir: redir, nonce: au.Nonce, scope: au.Scope, at: r.sent, got: r.done, ver: ver}
	if q.Get("client_id") != cl.ID {
		c.client = ClientSpec{ID: q.Get("client_id")}
	}
	if b, q, _ := strings.Cut(redir, "?"); !strings.HasPrefix(r.loc, b+"?") || !strings.Contains(r.loc, q) || lu.Query().Get("state") != "s1" {
		a.w.violate("P12", "code-location", "the code of %s went to %s, not to %s", r.id, short(r.loc), redir)
	}
	a.w.probe("code")
	a.mu.Lock()
	for _, o := range a.oc {
		if o.code == c.code {
			a.w.violate("P12", "code-reuse", "code %s was issued twice", c.code)
		}
	}
	a.oc = append(a.oc, c)
	c.user = a.codeUsers(r)
	a.mu.Unlock()
	var wg sync.WaitGroup
	for i := range au.Reds {
		i := i
		rd := au.Reds[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			if d := c.got + time.Duration(rd.MS)*time.Millisecond - a.w.since(); d > 0 {
				time.Sleep(d)
			}
			x := &redRec{c: c, client: v.OIDC[rd.Client%len(v.OIDC)], bad: rd.Bad}
			x.redir = redir
			if rd.Redir >= 0 {
				x.redir = x.client.Redir[rd.Redir%len(x.client.Redir)]
			}
			form := url.Values{}
			form.Set("grant_type", "authorization_code")
			form.Set("code", c.code)
			form.Set("client_id", x.client.ID)
			form.Set("client_secret", x.client.Secret)
			if rd.Bad {
				form.Set("client_secret", x.client.Secret+"x")
			}
			form.Set("redirect_uri", x.redir)
			a.mu.Lock()
			c.reds = append(c.reds, x)
			a.mu.Unlock()
			x.req = a.do(a.brs[(b.idx+i)%len(a.brs)], "https://"+au.Host+v.OPrefix+"/token", reqOpt{kind: "token", noJar: true, method: "POST", body: form.Encode(), hdr: http.Header{"Content-Type": {"application/x-www-form-urlencoded"}}})
			if x.req.err != nil || x.req.status != 200 {
				return
			}
			var out struct {
				AccessToken string `json:"access_token"`
				IDToken     string `json:"id_token"`
			}
			json.Unmarshal([]byte(x.req.body), &out)
			x.idtok, x.access = out.IDToken, out.AccessToken
			a.w.probe("redeemed")
			m := jwtClaims(x.idtok)
			t := &aTok{kind: "oidc", s: x.idtok, user: a.userOf(str(m["email"])), prov: -1, iat: num(m["iat"]), exp: num(m["exp"]), at: x.req.done}
			a.mu.Lock()
			if a.tokOf[t.s] == nil {
				a.toks = append(a.toks, t)
				a.tokOf[t.s] = t
			}
			a.mu.Unlock()
			if a.fetchJWKS(a.brs[b.idx], "https://"+au.Host+v.OPrefix+"/jwks") {
				a.w.check()
				if err := a.verifyRS256(x.idtok); err != nil {
					a.w.violate("P15", "oidc-token-unverifiable", "the ID token of %s does not verify with the published keys: %v", x.req.id, err)
				}
			}
			var iw sync.WaitGroup
			for _, in := range au.Infos {
				in := in
				iw.Add(1)
				go func() {
					defer iw.Done()
					time.Sleep(time.Duration(in.MS) * time.Millisecond)
					ir := a.do(a.brs[b.idx], "https://"+au.Host+v.OPrefix+"/userinfo", reqOpt{kind: "userinfo", noJar: true, hdr: http.Header{"Authorization": {"Bearer " + x.access}}})
					a.mu.Lock()
					x.infos = append(x.infos, ir)
					a.mu.Unlock()
				}()
			}
			iw.Wait()
		}()
	}
	wg.Wait()
}

// codeUsers are the users that the credentials of a request may stand for.
func (a *auth) codeUsers(r *aReq) []int {
	var out []int
	for _, s := range append(append([]string(nil), r.auth...), r.bearer) {
		if t := a.tokOf[s]; t != nil {
			out = append(out, t.user)
		}
	}
	return out
}

func (a *auth) runOp(b *browser, op *Op) {
	switch op.K {
	case "login":
		a.login(b, op.Au)
	case "get":
		a.opGet(b, op.Au)
	case "logout":
		path := "/.sso/logout"
		had := len(b.cookies(op.Au.Host)) > 0
		r := a.do(b, "https://"+op.Au.Host+path, reqOpt{kind: "logout"})
		_ = had
		_ = r
	case "authz":
		a.opAuthz(b, op.Au)
	}
}

func runAuth(w *World) {
	a := newAuth(w, w.plan.Auth)
	if !a.startProxy(0) {
		return
	}
	w.ev("started")
	w.net.watch(a.node)
	w.perturb()
	a.base = w.since()
	for _, f := range w.plan.Faults {
		f := f
		switch f.K {
		case "part":
			at := time.Duration(f.A) * time.Millisecond
			x, y, _ := strings.Cut(f.S, "|")
			a.parts = append(a.parts, [2]time.Duration{a.base + at, a.base + at + time.Duration(f.B)*time.Millisecond})
			go func() {
				time.Sleep(at)
				w.fault("partition")
				w.ev("partition %s", f.S)
				w.net.addPartition(x, y, time.Duration(f.B)*time.Millisecond)
			}()
		}
	}
	actors := map[int][]*Op{}
	var order []int
	for i := range w.plan.Ops {
		op := &w.plan.Ops[i]
		if op.K == "reconf" || op.K == "jump" {
			a.wg.Add(1)
			go func() {
				defer a.wg.Done()
				time.Sleep(time.Duration(op.At) * time.Millisecond)
				if op.K == "jump" {
					a.jump(time.Duration(op.A) * time.Millisecond)
				}
			}()
			continue
		}
		if actors[op.W] == nil {
			order = append(order, op.W)
		}
		actors[op.W] = append(actors[op.W], op)
	}
	// Reconfigurations one after the other.
	a.wg.Add(1)
	go func() {
		defer a.wg.Done()
		for i := range w.plan.Ops {
			op := &w.plan.Ops[i]
			if op.K != "reconf" {
				continue
			}
			if d := a.base + time.Duration(op.At)*time.Millisecond - w.since(); d > 0 {
				time.Sleep(d)
			}
			if int(op.A) < len(a.spec.Cfgs) {
				a.reconfigure(int(op.A))
			}
		}
	}()
	for _, k := range order {
		ops := actors[k]
		b := a.brs[k%len(a.brs)]
		a.wg.Add(1)
		go func() {
			defer a.wg.Done()
			for _, op := range ops {
				time.Sleep(time.Duration(op.At) * time.Millisecond)
				a.runOp(b, op)
			}
		}()
	}
	if !w.within(30*24*time.Hour, a.wg.Wait) {
		w.violate(a.prop, "stuck", "an operation never ended")
		return
	}
	w.calm()
	w.net.clearFaults()
	for _, b := range a.brs {
		b.tr.CloseIdleConnections()
	}
	time.Sleep(5 * time.Minute)
	w.in(a.node, func() {
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		a.p.Shutdown(ctx)
	})
	a.oracle()
}

var _ = fmt.Sprint
