package main

import (
	"fmt"
	"slices"
	"strings"
	"time"
)

func init() {
	for _, p := range []string{"p10", "p11", "p12"} {
		p := p
		register(&Scenario{Name: "auth-" + p, Gen: func(r rng, tier string) *Plan { return genAuth(r, p, tier) }, Run: runAuth, Horizon: 60 * 24 * time.Hour})
	}
}

type authGen struct {
	rng
	prop string
	s    *AuthSpec
}

func (g *authGen) acl() *[]string {
	switch g.n(8) {
	case 0, 1, 2:
		return nil
	case 3:
		return &[]string{"alice@example.com"}
	case 4:
		return &[]string{"@example.com"}
	case 5:
		return &[]string{"@example.com", "carol@other.org"}
	case 6:
		return &[]string{"@other.org", "bob@example.com"}
	}
	if g.p1(40) {
		return &[]string{}
	}
	return &[]string{"alice@example.com", "bob@example.com"}
}

func (g *authGen) policy(b *AuthBe) {
	b.ACL = g.acl()
	b.Paths = nil
	if g.p1(25) {
		b.Paths = []string{"/private"}
		if g.p1(30) {
			b.Paths = append(b.Paths, "/x/secret/")
		}
	}
	b.ForceS = 0
	if g.p1(25) {
		b.ForceS = int64(g.pick(30, 60, 600, 3600, 3*3600))
	}
	b.UID = g.p1(70)
	b.GenID = g.p1(40)
	b.JWT = g.p1(40)
	b.Raw = g.p1(25)
}

func (g *authGen) clients() []ClientSpec {
	l := []ClientSpec{{ID: "rp1", Secret: "s-one", Redir: []string{"https://rp1.example.net/cb", "https://rp1.example.net/cb2"}}}
	l = append(l, ClientSpec{ID: "rp2", Secret: "s-two", Redir: []string{"https://rp2.example.net/cb"}})
	if g.p1(30) {
		l[1].Redir = append(l[1].Redir, l[0].Redir[0])
	}
	if g.p1(20) {
		l = append(l, ClientSpec{ID: "rp1x", Secret: "s-one", Redir: []string{"https://rp3.example.net/cb?x=1"}})
	}
	return l
}

func (g *authGen) base() AuthCfg {
	s := g.s
	p1 := ProvSpec{Name: "one", Domain: "example.com", Redirect: "https://auth.example.com/oidc/cb", PKCE: g.p1(50), UserInfo: g.p1(30)}
	onApp := g.p1(20)
	if onApp {
		p1.Redirect = "https://app1.example.com/oidc/cb"
		if g.p1(50) {
			p1.Domain = ""
		}
	}
	if g.p1(12) {
		p1.HD = g.picks("example.com", "*")
	}
	s.Provs = append(s.Provs, p1)
	var c AuthCfg
	app1 := AuthBe{Hosts: []string{"app1.example.com"}, Mode: "HTTP", Srv: 1, SSO: 1}
	if g.p1(25) {
		app1.Hosts = append(app1.Hosts, "app1b.example.com")
	}
	g.policy(&app1)
	if g.prop == "p12" || g.p1(15) {
		app1.OIDC = g.clients()
		if g.p1(50) {
			app1.OPrefix = "/idp"
		}
		if g.p1(60) {
			app1.ForceS = 0
		}
		if g.p1(60) {
			app1.ACL = nil
		}
	}
	c.Be = append(c.Be, app1)
	if !onApp {
		c.Be = append(c.Be, AuthBe{Hosts: []string{"auth.example.com"}, Mode: g.picks("HTTPS", "LOCAL")})
	}
	if p1.Domain != "" && g.p1(75) {
		app2 := AuthBe{Hosts: []string{"app2.example.com"}, Mode: "HTTP", Srv: 2, SSO: 1}
		if g.p1(40) {
			p2 := ProvSpec{Name: "two", Domain: "example.com", Redirect: "https://auth2.example.com/cb", PKCE: g.p1(50), UserInfo: g.p1(30)}
			if g.p1(50) {
				p2.Domain = "example.org"
				p2.Redirect = "https://auth.example.org/cb"
				app2.Hosts = []string{"app2.example.org"}
			} else if !onApp && g.p1(60) { // two providers on one host
				p2.Redirect = "https://auth.example.com/oidc/cb2"
			}
			s.Provs = append(s.Provs, p2)
			switch {
			case p2.Domain == "example.org":
				c.Be = append(c.Be, AuthBe{Hosts: []string{"auth.example.org"}, Mode: "HTTPS"})
			case strings.HasPrefix(p2.Redirect, "https://auth2"):
				c.Be = append(c.Be, AuthBe{Hosts: []string{"auth2.example.com"}, Mode: "HTTPS"})
			}
			app2.SSO = 2
		}
		g.policy(&app2)
		c.Be = append(c.Be, app2)
	}
	if g.p1(40) {
		c.Be = append(c.Be, AuthBe{Hosts: []string{"open.example.com"}, Mode: "HTTP", Srv: 3})
	}
	if p1.Domain != "" && g.p1(40) {
		con := AuthBe{Hosts: []string{"con.example.com"}, Mode: "CONSOLE", SSO: 1}
		con.ACL = g.acl()
		con.GenID = g.p1(40)
		if g.p1(20) {
			con.ForceS = 600
		}
		c.Be = append(c.Be, con)
	}
	return c
}

func cloneAuthCfg(c AuthCfg) AuthCfg {
	c.Be = slices.Clone(c.Be)
	c.Bad = ""
	return c
}

func (g *authGen) mutate(c AuthCfg) AuthCfg {
	c = cloneAuthCfg(c)
	if g.p1(15) {
		c.Bad = "sso"
		return c
	}
	for n := g.between(1, 2); n > 0; n-- {
		b := &c.Be[g.n(len(c.Be))]
		if b.SSO == 0 {
			continue
		}
		switch g.n(4) {
		case 0, 1:
			b.ACL = g.acl()
		case 2:
			if b.Mode != "CONSOLE" {
				o := *b
				g.policy(b)
				b.GenID = o.GenID
			}
		case 3:
			if len(b.OIDC) > 0 {
				b.OIDC = g.clients()
			} else {
				b.ForceS = int64(g.pick(0, 30, 600))
			}
		}
	}
	return c
}

var authPaths = []string{"/", "/a", "/private", "/private/x", "/public", "/public/../private/y", "//private", "/%70rivate/x", "/private/../public", "/./private", "/x/secret/z", "/x//secret/z", "/x/%2e%2e/private", "/PRIVATE", "/private%2fx", "/x/..%2fprivate", "/x/secret", "/.sso/x/../../private", "/index.html?a=b"}

func (g *authGen) ssoHosts(c *AuthCfg, all bool) []string {
	var l []string
	for _, b := range c.Be {
		if b.SSO > 0 || all && b.Srv > 0 {
			l = append(l, b.Hosts...)
		}
	}
	return l
}

func (g *authGen) user() int { return g.pick(0, 0, 0, 1, 1, 2, 3, 4, 5) }

func (g *authGen) loginPath(c *AuthCfg, h string) string {
	if b := c.be(h); b != nil {
		if b.Mode == "CONSOLE" {
			return "/"
		}
		if len(b.Paths) > 0 {
			return g.picks("/private", "/private/a?b=c")
		}
	}
	return g.picks("/", "/", "/a/b", "/a?x=1&y=%2F", "/q?redirect=https://evil.net/")
}

func (g *authGen) login(c *AuthCfg) *AuOp {
	au := &AuOp{Host: g.picks(g.ssoHosts(c, false)...), User: g.user(), MS: int64(g.pick(0, 10, 500, 5000, 60000)), Form: g.p1(30)}
	au.Path = g.loginPath(c, au.Host)
	return au
}

func (g *authGen) wildLogin(c *AuthCfg) *AuOp {
	au := g.login(c)
	au.Var = g.picks("", "", "", "dup", "dup", "replay", "replay-fresh", "cross", "cross-only", "swap", "inject", "badstate", "nostate", "nocookie", "badcode", "post", "logout", "foreign")
	au.N = g.pick(0, 1, 60, 301)
	if g.p1(35) {
		au.Beh = g.picks("500", "reset", "garbage", "empty", "trunc", "unverified", "noemail", "nosub", "nononce", "noverified", "badhd", "info500")
	}
	if g.p1(20) {
		au.BehMs = int64(g.pick(100, 3000, 20000, 200000, 3600000))
	}
	if g.p1(35) {
		au.MS = int64(g.pick(250, 30000, 200000, 290000, 296000, 299000, 301000, 303000, 310000, 3600000))
	}
	return au
}

var forgeKinds = []string{"none", "hs256", "flip", "payload", "extend", "trunc", "empty"}

func (g *authGen) get(c *AuthCfg) *AuOp {
	au := &AuOp{Host: g.picks(g.ssoHosts(c, true)...), Method: g.picks("", "", "", "", "POST", "HEAD")}
	b := c.be(au.Host)
	if b.Mode == "CONSOLE" {
		au.Path = g.picks("/", "/", "/favicon.ico", "//", "/x/..")
		au.Method = ""
	} else {
		au.Path = g.picks(authPaths...)
		if len(b.Paths) == 0 && g.p1(50) {
			au.Path = g.picks("/", "/a")
		}
		if g.p1(6) {
			au.Path = g.picks("/.sso/", "/.sso/")
			au.Method = ""
		}
	}
	if g.p1(45) {
		au.Cred = g.picks("none", "tok", "tok", "dup2", "idcookie", "oidccookie", "bearer:id", "bearer:id", "bearer:auth", "bearer:oidc",
			"forge:"+g.picks(forgeKinds...), "forge:"+g.picks(forgeKinds...), "dup1:"+g.picks(forgeKinds...), "bearerforge:"+g.picks(forgeKinds...))
		au.N = g.n(6)
	}
	if g.p1(50) {
		au.Hdr = 1 << g.n(7)
		if g.p1(40) {
			au.Hdr |= 1 << g.n(7)
		}
	}
	if g.p1(10) {
		au.SNI = g.picks(g.ssoHosts(c, true)...)
		if g.p1(40) {
			au.Cred, au.N = "xbearer", g.n(6)
			au.Method = ""
			if b := c.be(au.SNI); b.Mode == "CONSOLE" || len(b.Paths) == 0 {
				au.Path = "/"
			}
		} else if au.SNI == au.Host {
			au.SNI = ""
		}
	}
	return au
}

func (g *authGen) authz(c *AuthCfg) *AuOp {
	au := &AuOp{Host: "app1.example.com", Client: g.n(3), Redir: g.n(3), Scope: g.picks("", "email", "email profile", "profile"), Nonce: g.picks("", "n-0S6_WzA2Mj", "x y")}
	if g.p1(20) {
		au.Var = g.picks("badclient", "otherredir", "badtype")
	}
	if g.p1(8) {
		au.Redir = -1
	} else if g.p1(12) {
		au.Var, au.N = "near", g.n(9)
	}
	if g.p1(15) && au.Var != "near" {
		au.Cred = g.picks("none", "tok")
		au.N = g.n(4)
	}
	n := g.pick(1, 1, 1, 2, 2, 3, 4)
	t := int64(g.pick(0, 0, 5, 1000, 60000, 115000, 119000, 121000, 125000, 600000))
	for i := 0; i < n; i++ {
		x := RedOp{MS: t, Client: au.Client, Redir: -1}
		if g.p1(15) {
			x.Client = g.n(3)
		}
		x.Bad = g.p1(10)
		if g.p1(12) {
			x.Redir = g.n(3)
		}
		au.Reds = append(au.Reds, x)
		if g.p1(30) {
			t += int64(g.pick(1, 100, 5000, 120000))
		}
	}
	for i := g.n(3); i > 0; i-- {
		au.Infos = append(au.Infos, InfoOp{MS: int64(g.pick(0, 10, 60000, 80000, 119000, 121000, 125000, 3600000))})
	}
	return au
}

func genAuth(r rng, prop, tier string) *Plan {
	g := &authGen{rng: r, prop: prop, s: &AuthSpec{NB: r.between(2, 4)}}
	p := &Plan{Sched: r.randSched(), Net: r.randNet(), P: map[string]int64{}, Auth: g.s}
	c := g.base()
	g.s.Cfgs = []AuthCfg{c}
	hasForce := int64(0)
	for _, b := range c.Be {
		if b.ForceS > 0 {
			hasForce = b.ForceS
		}
	}
	nops := g.between(5, 12)
	if tier == "thorough" {
		nops = g.between(5, 20)
	}
	long := g.p1(30)
	gap := func() int64 {
		switch {
		case g.p1(60):
			return int64(g.pick(0, 1, 20, 300, 2000))
		case g.p1(60):
			return int64(g.pick(5000, 20000, 40000, 70000))
		case hasForce > 0 && g.p1(60):
			return hasForce*1000 + int64(g.pick(-5000, 0, 3000))
		case g.p1(50) || !long:
			return int64(g.pick(300, 600, 3600)) * 1000
		}
		return int64(g.pick(72000-10, 72000+10, 10*3600, 86400+60)) * 1000
	}
	total := int64(0)
	for b := 0; b < g.s.NB; b++ {
		t := int64(0)
		add := func(k string, au *AuOp) {
			at := gap()
			if prop == "p11" || prop == "p12" {
				at = int64(g.pick(0, 0, 1, 50, 1000, 1000, 20000))
				if g.p1(5) {
					at = gap()
				}
			}
			if t == 0 {
				at = int64(g.pick(0, 0, 10, 1000))
			}
			t += at + au.MS
			p.Ops = append(p.Ops, Op{K: k, W: b, At: at, Au: au})
		}
		switch prop {
		case "p10":
			if g.p1(85) {
				add("login", g.login(&c))
			}
			for i := 0; i < nops; i++ {
				switch {
				case g.p1(12):
					add("login", g.login(&c))
				case g.p1(6):
					add("logout", &AuOp{Host: g.picks(g.ssoHosts(&c, false)...)})
				case len(c.Be[0].OIDC) > 0 && g.p1(15):
					add("authz", g.authz(&c))
				default:
					add("get", g.get(&c))
				}
			}
		case "p11":
			for i := 0; i < nops*2/3; i++ {
				switch {
				case g.p1(10):
					add("get", g.get(&c))
				case g.p1(8):
					add("logout", &AuOp{Host: g.picks(g.ssoHosts(&c, false)...)})
				default:
					add("login", g.wildLogin(&c))
					// A browser that is logged in has no login to ask for.
					add("logout", &AuOp{Host: p.Ops[len(p.Ops)-1].Au.Host})
				}
			}
		case "p12":
			if g.p1(90) {
				add("login", &AuOp{Host: "app1.example.com", Path: g.loginPath(&c, "app1.example.com"), User: g.user()})
			}
			for i := 0; i < nops/2; i++ {
				if g.p1(10) {
					add("login", g.login(&c))
				} else if g.p1(10) {
					add("get", g.get(&c))
				} else {
					add("authz", g.authz(&c))
				}
			}
		}
		total = max(total, t)
	}
	recPct := map[string]int{"p10": 35, "p11": 15, "p12": 12}[prop]
	if g.p1(recPct) {
		at := int64(0)
		for n := g.between(1, 3); n > 0; n-- {
			g.s.Cfgs = append(g.s.Cfgs, g.mutate(g.s.Cfgs[0]))
			if g.p1(60) {
				at += int64(g.n(int(min(total, 60000)) + 1))
			} else {
				at += int64(g.n(int(total) + 1))
			}
			p.Ops = append(p.Ops, Op{K: "reconf", At: at, A: int64(len(g.s.Cfgs) - 1)})
		}
	}
	if prop == "p10" && g.p1(25) || prop == "p11" && g.p1(8) {
		for n := g.between(1, 2); n > 0; n-- {
			d := int64(g.pick(-86400, -3600, -60, -3, 30, 600, 3600, 71000, 86400, 30*86400)) * 1000
			p.Ops = append(p.Ops, Op{K: "jump", At: int64(g.n(int(total) + 1)), A: d})
		}
	}
	if g.p1(map[string]int{"p10": 8, "p11": 25, "p12": 8}[prop]) {
		x := fmt.Sprintf("10.0.0.1|10.2.0.%d", g.between(1, len(g.s.Provs)))
		if g.p1(30) {
			x = fmt.Sprintf("10.0.0.1|192.0.2.%d", g.between(1, g.s.NB))
		}
		p.Faults = append(p.Faults, Fault{K: "part", A: int64(g.n(int(min(total, 300000)) + 1)), B: int64(g.pick(500, 20000, 120000, 1200000)), S: x})
	}
	return p
}
