package main

// What must be true of an authentication run (P10, P11, P12).

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"time"
)

type verdict struct {
	idMay   []*aTok // credentials that may be taken for valid
	idMust  *aTok   // the credential that must be taken for the user's
	admMay  bool    // the policy may admit the request
	admMust bool
}

func aclHas(acl *[]string, user int) bool {
	if acl == nil {
		return true
	}
	e := auUsers[user].email
	_, d, _ := strings.Cut(e, "@")
	return slices.Contains(*acl, e) || slices.Contains(*acl, "@"+d)
}

// judge decides what a backend's policy may and must do with a request.
func (a *auth) judge(be *AuthBe, r *aReq) (v verdict) {
	lo, hi := a.wall(r.sent, r.done)
	type cand struct {
		t         *aTok
		may, must bool
	}
	classify := func(s, kind string) cand {
		t := a.tokOf[s]
		if t == nil || t.kind != kind || t.prov != be.SSO-1 || t.user < 0 {
			return cand{}
		}
		if kind == "id" && (t.host != r.host || !slices.Contains(be.Hosts, r.host)) {
			return cand{}
		}
		return cand{t: t, may: lo < float64(t.exp)+1, must: hi < float64(t.exp)-1 && t.at <= r.sent}
	}
	adm := func(c cand) (may, must bool) {
		if !aclHas(be.ACL, c.t.user) {
			return false, false
		}
		if be.ForceS == 0 {
			return c.may, c.must
		}
		f := float64(be.ForceS)
		may = c.may && lo-float64(c.t.aiat) <= f+1
		must = c.must && hi-float64(c.t.aiat) <= f-2
		// A forced authentication is one for this host.
		if c.t.kind == "auth" && c.t.host != r.host {
			may, must = false, false
		}
		if c.t.kind != "auth" {
			must = false
		}
		return may, must
	}
	var eff *cand
	sure := true
	if r.bearer != "" {
		c := classify(r.bearer, "id")
		if c.may {
			v.idMay = append(v.idMay, c.t)
			m, _ := adm(c)
			v.admMay = v.admMay || m
			if c.must {
				eff = &c
			} else {
				sure = false
			}
		}
	}
	for i, s := range r.auth {
		c := classify(s, "auth")
		if !c.may {
			continue
		}
		v.idMay = append(v.idMay, c.t)
		m, _ := adm(c)
		v.admMay = v.admMay || m
		if len(r.auth) > 1 {
			sure = false
		}
		if eff == nil && c.must && i == 0 {
			eff = &c
		}
	}
	if eff != nil && sure {
		v.idMust = eff.t
		_, v.admMust = adm(*eff)
	}
	return v
}

func (be *AuthBe) hasName(h string) bool { return slices.Contains(be.Hosts, h) }

func (be *AuthBe) covered(p string) bool {
	if be.SSO == 0 {
		return false
	}
	if len(be.Paths) == 0 {
		return true
	}
	for _, x := range be.Paths {
		if strings.HasPrefix(p, x) || strings.HasPrefix(cleanPath(p), x) {
			return true
		}
	}
	return false
}

func (a *auth) oracle() {
	a.mu.Lock()
	defer a.mu.Unlock()
	for _, r := range a.reqs {
		if !r.finished {
			r.done = a.w.since()
		}
		a.judgeReq(r)
	}
	a.judgeLogins()
	a.judgeCodes()
}

func (a *auth) local(be *AuthBe, r *aReq) string {
	p := cleanPath(r.path)
	switch {
	case strings.HasPrefix(p, "/.sso/"):
		return "sso"
	case be.Mode == "CONSOLE" && (p == "/" || p == "/favicon.ico"):
		return "console"
	case len(be.OIDC) > 0 && p == be.OPrefix+"/authorization":
		return "authz"
	case len(be.OIDC) > 0 && strings.HasPrefix(p, be.OPrefix+"/"):
		return "oidc"
	}
	for i, pr := range a.spec.Provs {
		if pr.Redirect == "https://"+r.host+p {
			return fmt.Sprintf("callback%d", i)
		}
	}
	return ""
}

func (a *auth) judgeReq(r *aReq) {
	w := a.w
	vers := a.versions(r.sent, r.done)
	var bes []*AuthBe
	for _, v := range vers {
		if be := v.spec.be(r.sni); be != nil {
			bes = append(bes, be)
		}
	}
	if len(bes) == 0 {
		return
	}
	desc := func() string {
		return fmt.Sprintf("request %s %s https://%s%s (sni %s) of browser %d", r.id, r.method, r.host, r.path, r.sni, r.br)
	}
	var vd []verdict
	for _, be := range bes {
		vd = append(vd, a.judge(be, r))
	}
	for _, s := range r.seen {
		w.check()
		ok := false
		for i, be := range bes {
			if be.Srv == s.srv && ((!be.covered(s.path) && !be.covered(r.path)) || vd[i].admMay) {
				ok = true
			}
		}
		if !ok {
			w.violate(a.reqProp, "unauthorized", "%s reached backend server %d as %s without a sufficient credential (%s)", desc(), s.srv, s.path, a.explain(r))
		} else {
			w.probe("forwarded")
		}
		// The user id.
		uid := s.hdr.Values("X-Tlsproxy-User-Id")
		jwt := s.hdr.Values("X-Jwt-Email")
		allowNone, allowed := false, map[string]bool{}
		allowNoneJ, allowedJ := false, map[string]bool{}
		anyJWT := true
		for i, be := range bes {
			idn := vd[i]
			if be.SSO == 0 {
				idn = verdict{}
			}
			if !be.UID || idn.idMust == nil {
				allowNone = true
			}
			if !be.JWT || idn.idMust == nil {
				allowNoneJ = true
			}
			if !be.JWT {
				anyJWT = false
			}
			for _, t := range idn.idMay {
				if idn.idMust != nil && t != idn.idMust {
					continue
				}
				if be.UID {
					allowed[auUsers[t.user].email] = true
				}
				if be.JWT {
					allowedJ[auUsers[t.user].email] = true
				}
			}
		}
		if len(uid) == 0 && !allowNone || len(uid) > 1 || len(uid) == 1 && !allowed[uid[0]] {
			w.violate(a.reqProp, "user-id", "%s reached the backend with user id %q, want one of %v (or none: %v)", desc(), uid, keys(allowed), allowNone)
		}
		if anyJWT && (len(jwt) == 0 && !allowNoneJ || len(jwt) > 1 || len(jwt) == 1 && !allowedJ[jwt[0]]) {
			w.violate(a.reqProp, "user-id", "%s reached the backend with JWT email %q, want one of %v (or none: %v)", desc(), jwt, keys(allowedJ), allowNoneJ)
		}
		if len(uid) == 1 {
			w.probe("user-id")
		}
		// The ID token cookie that the backend gets with the user's request is
		// that user's, of that authentication.
		var own *aTok
		for i, be := range bes {
			t := vd[i].idMust
			if be.SSO == 0 || !be.GenID || !be.hasName(r.host) || t == nil || t.kind != "auth" || i > 0 && t != own {
				own = nil
				break
			}
			own = t
		}
		if own != nil && r.err == nil {
			var ids []string
			for _, c := range s.ck {
				if c.Name == "TLSPROXYIDTOKEN" {
					ids = append(ids, c.Value)
				}
			}
			w.probe("id-token-sent")
			if len(ids) == 0 {
				w.violate("P10", "id-token-missing", "%s reached a backend that gets ID tokens without one", desc())
			} else if t := a.tokOf[ids[0]]; t == nil || t.kind != "id" || t.user != own.user || t.sid != own.sid {
				w.violate("P10", "id-token-foreign", "%s of %s reached the backend with an ID token that is not of that user's session", desc(), auUsers[own.user].email)
			}
		}
		sso := true
		for _, be := range bes {
			sso = sso && be.SSO > 0
		}
		for _, c := range s.ck {
			if c.Name == "TLSPROXYAUTH" && sso {
				w.violate("P10", "cookie-forwarded", "%s was forwarded with the proxy's authentication cookie", desc())
				break
			}
		}
		if r.hdr.Get("Cookie") != "" && strings.Contains(r.hdr.Get("Cookie"), "other=yes") {
			found := false
			for _, c := range s.ck {
				found = found || c.Name == "other" && c.Value == "yes"
			}
			if !found {
				w.violate("P06", "cookie-lost", "%s was forwarded without its other cookie", desc())
			}
		}
	}
	if !r.finished || r.err != nil {
		return
	}
	idRedirect := r.status == 302 && r.set["TLSPROXYIDTOKEN"] != nil && r.set["TLSPROXYIDTOKEN"].Value != ""
	// Local handlers.
	kinds := map[string]bool{}
	for _, be := range bes {
		kinds[a.local(be, r)] = true
	}
	admMay, admMust, idMay := false, true, false
	coveredAll, coveredAny := true, false
	for i, be := range bes {
		c := be.covered(r.path)
		coveredAll = coveredAll && c
		coveredAny = coveredAny || c
		admMay = admMay || vd[i].admMay || !c
		admMust = admMust && vd[i].admMust
		idMay = idMay || len(vd[i].idMay) > 0
	}
	if len(kinds) == 1 && kinds["console"] && r.status == 200 {
		w.check()
		w.probe("console")
		if !admMay {
			w.violate(a.reqProp, "unauthorized-local", "%s was answered by the console without a sufficient credential (%s)", desc(), a.explain(r))
		}
	}
	if len(kinds) == 1 && kinds["authz"] && strings.Contains(r.loc, "code=") && !strings.HasPrefix(r.loc, "/") {
		w.check()
		if !admMay || !idMay {
			w.violate("P12", "code-unauthorized", "%s got a code without a sufficient credential (%s)", desc(), a.explain(r))
		}
	}
	if len(kinds) == 1 && kinds["sso"] && r.status == 200 && r.kind == "get" {
		for ui, u := range auUsers {
			if !strings.Contains(r.body, u.email) {
				continue
			}
			ok := strings.Contains(r.path, u.email)
			for _, v := range vd {
				for _, t := range v.idMay {
					ok = ok || t.user == ui
				}
			}
			if !ok {
				w.violate("P10", "identity-shown", "%s shows the identity of %s (%s)", desc(), u.email, a.explain(r))
			}
		}
	}
	if r.kind == "logout" && len(bes) > 0 && r.status == 200 {
		w.check()
		w.probe("logout")
		one := bes[0].SSO
		for _, be := range bes {
			if be.SSO != one {
				one = 0
			}
		}
		if one > 0 {
			c := r.set["TLSPROXYAUTH"]
			if c == nil || c.MaxAge >= 0 || c.Value != "" || strings.TrimPrefix(c.Domain, ".") != a.spec.Provs[one-1].Domain {
				w.violate("P10", "logout", "logging out on %s does not clear the authentication cookie of domain %q", r.host, a.spec.Provs[one-1].Domain)
			}
		}
	}
	// Who is entitled must be admitted.
	if r.host != r.sni || len(vers) != len(bes) {
		return
	}
	if len(kinds) == 1 && kinds[""] && coveredAll && (r.kind == "get") {
		w.check()
		srv := true
		for _, be := range bes {
			srv = srv && be.Srv > 0
		}
		if admMust && srv && len(r.seen) == 0 && !idRedirect && r.status != 301 && r.status != 308 {
			w.violate(a.reqProp, "refused", "%s was refused (status %d) in spite of a valid credential (%s)", desc(), r.status, a.explain(r))
		}
		if admMust {
			w.probe("authorized")
		} else if !admMay {
			w.probe("unauthorized")
			if len(r.seen) == 0 && r.status != 403 && r.status != 302 && r.status != 301 && r.status != 308 {
				w.violate(a.reqProp, "refusal-status", "%s was refused with status %d", desc(), r.status)
			}
		}
	}
	if len(kinds) == 1 && kinds["console"] && coveredAll && r.kind == "get" && admMust && r.status != 200 && !idRedirect && cleanPath(r.path) == r.path {
		w.violate(a.reqProp, "refused-local", "%s was refused (status %d) in spite of a valid credential (%s)", desc(), r.status, a.explain(r))
	}
	if idRedirect && !idMay {
		w.violate("P10", "id-token-unauthorized", "%s got an ID token without a credential", desc())
	}
	if c := r.set["TLSPROXYIDTOKEN"]; c != nil && c.Value != "" {
		w.probe("id-token")
		if !c.Secure || !c.HttpOnly || c.Domain != "" {
			w.violate("P10", "cookie-attributes", "the ID token cookie of %s is not Secure, HttpOnly and host-only", desc())
		}
		m := jwtClaims(c.Value)
		aud, _ := json.Marshal(m["aud"])
		if m["proxyauth"] != nil || !strings.Contains(string(aud), `"https://`+r.host+`/"`) {
			w.violate("P10", "id-token-claims", "the ID token of %s has the wrong audience %s", desc(), aud)
		}
	}
}

func keys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	slices.Sort(l)
	return l
}

func (a *auth) explain(r *aReq) string {
	var l []string
	lo, _ := a.wall(r.sent, r.done)
	for _, s := range r.auth {
		if t := a.tokOf[s]; t != nil {
			l = append(l, fmt.Sprintf("%s token of %s, provider %d, from %s, aged %.0fs, %.0fs left", t.kind, auUsers[max(0, t.user)].email, t.prov, t.host, lo-float64(t.aiat), float64(t.exp)-lo))
		} else {
			l = append(l, "forged cookie")
		}
	}
	if r.bearer != "" {
		if t := a.tokOf[r.bearer]; t != nil {
			l = append(l, fmt.Sprintf("bearer %s token of %s for %s, aged %.0fs, %.0fs left", t.kind, auUsers[max(0, t.user)].email, t.host, lo-float64(t.aiat), float64(t.exp)-lo))
		} else {
			l = append(l, "forged bearer token")
		}
	}
	if len(l) == 0 {
		return "no credential"
	}
	return strings.Join(l, "; ")
}

var badBeh = map[string]bool{"500": true, "reset": true, "garbage": true, "empty": true, "trunc": true, "unverified": true, "noemail": true, "info500": true, "nosub": true}

func (a *auth) judgeLogins() {
	w := a.w
	okBy := map[string]int{}
	for _, c := range a.cbs {
		r := c.req
		if r == nil || c.again {
			continue
		}
		w.check()
		k := r.set["TLSPROXYAUTH"]
		got := k != nil && k.Value != "" && k.MaxAge >= 0
		st := a.sts[c.state]
		code := a.codes[c.code]
		prov := a.spec.Provs[c.prov]
		desc := fmt.Sprintf("login response %s (browser %d, state %.6s)", r.id, c.br, c.state)
		bad := code == nil || badBeh[code.beh] && !(code.beh == "info500" && !prov.UserInfo)
		if code != nil && prov.HD != "" {
			hd := auUsers[code.user].hd
			if code.beh == "badhd" {
				hd = "evil.net"
			}
			if hd == "" || prov.HD != "*" && hd != prov.HD {
				bad = true
			}
		}
		used := false // certainly used before
		maybeUsed := false
		for _, o := range a.cbs {
			if o == c || o.state != c.state || o.req == nil {
				continue
			}
			if o.req.sent < r.done {
				maybeUsed = true
			}
			if o.req.done < r.sent && o.req.err == nil && o.nonce == o.state && o.req.status != 0 {
				used = true
			}
		}
		if got {
			w.probe("login-ok")
			okBy[c.state]++
			m := jwtClaims(k.Value)
			switch {
			case st == nil || st.prov != c.prov:
				w.violate("P11", "unknown-state", "%s yielded a cookie although the state was never issued", desc)
			case st.br != c.br || c.nonce != c.state:
				w.violate("P11", "cross-browser", "%s yielded a cookie although the state was issued to browser %d and the browser's own was %.6s", desc, st.br, c.nonce)
			case r.sent-st.recvAt > 5*time.Minute+2*time.Second:
				w.violate("P11", "late", "%s yielded a cookie %v after the state was issued", desc, r.sent-st.recvAt)
			case okBy[c.state] > 1:
				w.violate("P11", "twice", "%s yielded a second cookie for the same state", desc)
			case used:
				w.violate("P11", "replayed", "%s yielded a cookie although the state had been used before", desc)
			case bad:
				beh := "unknown code"
				if code != nil {
					beh = code.beh + " of " + auUsers[code.user].email
				}
				w.violate("P11", "unverified", "%s yielded a cookie although the provider gave no verified identity (%s)", desc, beh)
			case code.state != c.state && (prov.PKCE || !prov.UserInfo && code.beh != "nononce"):
				w.violate("P11", "swapped", "%s yielded a cookie for the code of another login", desc)
			case str(m["email"]) != auUsers[code.user].email || str(m["sub"]) != auUsers[code.user].sub:
				w.violate("P11", "wrong-user", "%s yielded a cookie for %v, the user is %s", desc, m["email"], auUsers[code.user].email)
			case r.status != 302 || r.loc != st.orig:
				w.violate("P11", "wrong-url", "%s led to %s (status %d), not to %s", desc, short(r.loc), r.status, st.orig)
			}
			if !k.Secure || !k.HttpOnly || strings.TrimPrefix(k.Domain, ".") != prov.Domain {
				w.violate("P10", "cookie-attributes", "%s set a cookie that is not Secure, HttpOnly and for %q only", desc, prov.Domain)
			}
			lo, hi := a.wall(r.sent, r.done)
			if x := float64(num(m["iat"])); x < lo-1.5 || x > hi+1.5 || num(m["exp"])-num(m["iat"]) > 24*3600 || num(m["exp"])-num(m["iat"]) < 3600 {
				w.violate("P10", "token-times", "%s yielded a token from %.0f to %v at %.0f", desc, x, num(m["exp"]), lo)
			}
		} else {
			w.probe("login-refused")
			if r.err == nil && r.status < 400 && r.status != 0 {
				w.violate("P11", "refusal-status", "%s was refused with status %d", desc, r.status)
			}
		}
		// Bounded answer time.
		limit := 3 * time.Minute
		for _, p := range a.parts {
			if p[0] <= r.done && p[1] >= r.sent {
				limit += 7*time.Minute + p[1] - p[0]
			}
		}
		if r.done-r.sent > limit {
			w.violate("P11", "no-answer", "%s was not answered within %v", desc, r.done-r.sent)
		}
		// What must succeed.
		if got || st == nil || st.br != c.br || c.nonce != c.state || c.dup || used || maybeUsed || bad || limit > 3*time.Minute || r.err != nil {
			continue
		}
		if code.state != c.state || code.behMs > 20000 || len(a.reqVersions(st, r)) != 1 || len(code.redeemed) == 0 && code.hit {
			continue
		}
		if r.done-st.sentAt > 5*time.Minute-2*time.Second || a.cookieUnset(c) {
			continue
		}
		w.violate("P11", "refused", "%s was refused with status %d (%.60s) %v after it was requested", desc, r.status, r.body, r.sent-st.sentAt)
	}
	// Of several copies of the same good response, one succeeds.
	for _, st := range a.stl {
		var l []*cbRec
		all := true
		for _, c := range a.cbs {
			if c.state == st.state && c.req != nil {
				l = append(l, c)
				code := a.codes[c.code]
				all = all && c.dup && c.br == st.br && c.nonce == c.state && c.req.err == nil && code != nil && code.state == c.state && code.beh == "" && code.behMs <= 20000 &&
					c.req.done-st.sentAt < 5*time.Minute-2*time.Second && len(a.reqVersions(st, c.req)) == 1 && a.spec.Provs[c.prov].HD == ""
				for _, p := range a.parts {
					if p[0] <= c.req.done && p[1] >= c.req.sent {
						all = false
					}
				}
			}
		}
		if len(l) > 1 && all && okBy[st.state] == 0 {
			w.violate("P11", "refused", "none of %d copies of the response for state %.6s succeeded", len(l), st.state)
		}
	}
}

// cookieUnset is whether a callback came without the domain's cookies.
func (a *auth) cookieUnset(c *cbRec) bool { return len(c.req.nonce) == 0 }

func (a *auth) reqVersions(st *stRec, r *aReq) []*authVer { return a.versions(st.sentAt, r.done) }

// least and most are how much time goes by between two moments, by the real
// time or by the proxy's wall clock.
func (a *auth) least(from, to time.Duration) time.Duration {
	_, f := a.wall(from, from)
	t, _ := a.wall(to, to)
	return min(to-from, time.Duration((t-f)*1e9))
}

func (a *auth) most(from, to time.Duration) time.Duration {
	f, _ := a.wall(from, from)
	_, t := a.wall(to, to)
	return max(to-from, time.Duration((t-f)*1e9))
}

func (a *auth) judgeCodes() {
	w := a.w
	for _, c := range a.oc {
		n := 0
		w.check()
		inCfg := func(vers []*authVer, id, secret, redir string, withSecret bool) bool {
			for _, v := range vers {
				be := v.spec.be(c.host)
				if be == nil {
					continue
				}
				for _, cl := range be.OIDC {
					if cl.ID == id && (!withSecret || cl.Secret == secret) && slices.Contains(cl.Redir, redir) {
						return true
					}
				}
			}
			return false
		}
		if !inCfg(a.versions(c.at, c.got), c.client.ID, "", c.redir, false) {
			w.violate("P12", "code-client", "a code was issued for client %s and redirect URI %s", c.client.ID, c.redir)
		}
		for _, x := range c.reds {
			r := x.req
			if r == nil {
				continue
			}
			w.check()
			desc := fmt.Sprintf("redemption %s of the code of %s", r.id, c.client.ID)
			secret := x.client.Secret
			if x.bad {
				secret += "x"
			}
			good := x.client.ID == c.client.ID && inCfg(a.versions(r.sent, r.done), x.client.ID, secret, x.redir, true) && x.redir == c.redir
			if r.err == nil && r.status == 200 {
				n++
				switch {
				case n > 1:
					w.violate("P12", "redeemed-twice", "%s: a second token for one code", desc)
				case x.client.ID != c.client.ID:
					w.violate("P12", "other-client", "%s succeeded for client %s", desc, x.client.ID)
				case x.bad:
					w.violate("P12", "wrong-secret", "%s succeeded with a wrong secret", desc)
				case x.redir != c.redir:
					w.violate("P12", "other-redirect", "%s succeeded with redirect URI %s, the code was sent to %s", desc, x.redir, c.redir)
				case !good:
					w.violate("P12", "not-configured", "%s succeeded for a client that is not configured", desc)
				case a.least(c.got, r.sent) > 2*time.Minute+2*time.Second:
					w.violate("P12", "late", "%s succeeded %v after the code was issued", desc, r.sent-c.got)
				}
				m := jwtClaims(x.idtok)
				ok := false
				for _, u := range c.user {
					ok = ok || str(m["sub"]) == auUsers[u].sub && (m["email"] == nil || str(m["email"]) == auUsers[u].email)
				}
				nonceOK := str(m["nonce"]) == c.nonce
				issOK := false
				for _, v := range a.versions(c.at, c.got) {
					if be := v.spec.be(c.host); be != nil {
						issOK = issOK || str(m["iss"]) == "https://"+be.Hosts[0]+be.OPrefix
					}
				}
				lo, hi := a.wall(c.at, c.got)
				iat, exp := float64(num(m["iat"])), float64(num(m["exp"]))
				if !ok || str(m["aud"]) != c.client.ID || !nonceOK || !issOK || strings.Contains(c.scope, "email") && m["email"] == nil || iat < lo-1.5 || iat > hi+1.5 || exp <= iat || exp > iat+3600 {
					w.violate("P12", "token-claims", "%s yielded a token with claims %v; want user %v, audience %s, nonce %q", desc, m, c.user, c.client.ID, c.nonce)
				}
				infoOK := 0
				for _, ir := range x.infos {
					if ir.err != nil {
						continue
					}
					w.check()
					if ir.status == 200 {
						infoOK++
						w.probe("userinfo")
						var im map[string]any
						json.Unmarshal([]byte(ir.body), &im)
						uok := false
						for _, u := range c.user {
							uok = uok || str(im["sub"]) == auUsers[u].sub
						}
						if !uok {
							w.violate("P12", "userinfo-user", "user information for %v, want user %v", im["sub"], c.user)
						}
						if a.least(r.done, ir.sent) > 122*time.Second {
							w.violate("P12", "userinfo-late", "user information was given %v after the token was issued", ir.sent-r.done)
						}
					}
				}
				if infoOK > 1 {
					w.violate("P12", "userinfo-twice", "%s: its access token was good for user information %d times", desc, infoOK)
				}
				if len(x.infos) > 0 && infoOK == 0 {
					for _, ir := range x.infos {
						if ir.err == nil && a.most(c.at, ir.done) < 88*time.Second && len(a.versions(c.at, ir.done)) == 1 {
							w.violate("P12", "userinfo-refused", "user information was refused %v after the token was issued (status %d)", ir.sent-r.done, ir.status)
							break
						}
					}
				}
				continue
			}
			if !good || r.err != nil || a.most(c.at, r.done) > 2*time.Minute-2*time.Second || len(a.versions(c.at, r.done)) != 1 {
				continue
			}
			first := true
			for _, o := range c.reds {
				if o != x && o.req != nil && o.req.sent <= r.done {
					first = false
				}
			}
			if first {
				w.violate("P12", "refused", "%s was refused with status %d %v after the code was issued", desc, r.status, r.sent-c.got)
			}
		}
		// Concurrent correct redemptions: one must succeed.
		allGood := len(c.reds) > 1
		for _, x := range c.reds {
			if x.req == nil || x.req.err != nil || x.bad || x.client.ID != c.client.ID || x.redir != c.redir || a.most(c.at, x.req.done) > 2*time.Minute-2*time.Second || len(a.versions(c.at, x.req.done)) != 1 {
				allGood = false
			}
		}
		if allGood && n == 0 {
			w.violate("P12", "refused", "none of %d correct redemptions of one code succeeded", len(c.reds))
		}
	}
}
