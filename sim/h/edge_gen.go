package main

import (
	"fmt"
	"slices"
	"time"
)

func init() {
	for _, p := range []string{"p01", "p02", "p03", "p04", "p05", "p06", "p07", "p08", "p09"} {
		p := p
		register(&Scenario{Name: "edge-" + p, Gen: func(r rng, tier string) *Plan { return genEdge(r, p, tier) }, Run: runEdge, Horizon: 48 * time.Hour})
	}
}

type edgeGen struct {
	rng
	prop string
	p    *Plan
	free []int // servers not used yet
	nsrv int
	big  int // size factor
}

var cidrPool = []string{"192.0.2.0/24", "192.0.2.1/32", "192.0.2.0/25", "198.51.100.0/24", "203.0.113.9/32", "0.0.0.0/0", "203.0.113.0/24", "10.5.0.0/16"}
var srcPool = []string{"203.0.113.9", "192.0.2.1", "192.0.2.77", "198.51.100.5", "10.5.0.1", "192.0.2.129"}
var names = []string{"a.example.com", "b.example.com", "c.example.com", "d.example.com", "e.example.com"}

func (g *edgeGen) cidrs(n int) *[]string {
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, g.picks(cidrPool...))
	}
	return &out
}

func (g *edgeGen) servers(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		if len(g.free) > 0 {
			out = append(out, g.free[0])
			g.free = g.free[1:]
		} else {
			g.free = nil
			out = append(out, g.nsrv)
			g.nsrv++
		}
	}
	return out
}

func (g *edgeGen) ipRules(b *BeSpec) {
	b.Allow, b.Deny = nil, nil
	switch g.n(5) {
	case 0, 1:
		b.Deny = g.cidrs(1 + g.n(2))
	case 2:
		b.Allow = g.cidrs(1 + g.n(3))
	case 3:
		b.Deny = g.cidrs(1)
		b.Allow = g.cidrs(1 + g.n(2))
	case 4:
		if g.p1(30) {
			b.Allow = &[]string{}
		}
	}
}

func (r rng) p1(pct int) bool { return r.n(100) < pct }

var aclPool = []string{"CN=alice", "SUBJECT:CN=alice", "DNS:alice.example", "EMAIL:alice@example.com", "CN=bob", "EMAIL:bob@example.com", "URI:spiffe://example/bob", "EMAIL:carol@example.com", "DNS:dave.example", "DNS:nobody.example", "DNS:alice", "EMAIL:alice", "alice.example", "alice@example.com", "DNS:alice@example.com", "URI:alice.example"}

func (g *edgeGen) certRules(b *BeSpec) {
	b.CAs, b.ACL, b.XFCC = nil, nil, nil
	if g.p1(25) {
		return
	}
	b.CAs = [][]int{{0}, {0}, {1}, {0, 1}}[g.n(4)]
	switch g.n(4) {
	case 0:
	case 1, 2:
		l := []string{}
		for i := g.between(1, 3); i > 0; i-- {
			l = append(l, g.picks(aclPool...))
		}
		b.ACL = &l
	case 3:
		if g.p1(40) {
			b.ACL = &[]string{}
		}
	}
	if b.Mode == "HTTP" || b.Mode == "HTTPS" {
		if g.p1(60) {
			b.XFCC = []string{"subject"}
		}
	}
}

var alpnSets = [][]string{nil, {}, {"h2", "http/1.1"}, {"http/1.1"}, {"imap"}, {"smtp", "imap"}, {"xmpp"}}

func (g *edgeGen) streamBe(name string) BeSpec {
	b := BeSpec{Names: []string{name}, Mode: g.picks("TCP", "TCP", "TLS", "TLSPASSTHROUGH")}
	b.Addrs = g.servers(1)
	return b
}

func (g *edgeGen) httpBe(name string) BeSpec {
	b := BeSpec{Names: []string{name}, Mode: g.picks("HTTP", "HTTP", "HTTPS")}
	b.Addrs = g.servers(1)
	switch g.n(4) {
	case 0:
		b.Proto = ptr("h2")
	case 1:
		b.Proto = ptr("")
	case 2:
		b.Proto = ptr("http/1.1")
	}
	return b
}

func isHTTP(b *BeSpec) bool { return b.Mode == "HTTP" || b.Mode == "HTTPS" }

func cloneCfg(c CfgSpec) CfgSpec {
	n := c
	n.Be = nil
	for _, b := range c.Be {
		b.Names = slices.Clone(b.Names)
		b.Addrs = slices.Clone(b.Addrs)
		n.Be = append(n.Be, b)
	}
	n.BW = slices.Clone(c.BW)
	n.Trust = slices.Clone(c.Trust)
	return n
}

// baseCfg makes the first configuration.
func (g *edgeGen) baseCfg() CfgSpec {
	c := CfgSpec{}
	nb := 1 + g.n(3)
	httpPct := map[string]int{"p01": 20, "p02": 25, "p03": 40, "p04": 0, "p05": 25, "p06": 100, "p07": 60, "p08": 30, "p09": 25}[g.prop]
	for i := 0; i < nb; i++ {
		var b BeSpec
		if g.p1(httpPct) {
			b = g.httpBe(names[i])
		} else {
			b = g.streamBe(names[i])
		}
		c.Be = append(c.Be, b)
	}
	switch g.prop {
	case "p01":
		if g.p1(30) {
			g.split(&c)
		}
		for i := range c.Be {
			if g.p1(75) {
				g.ipRules(&c.Be[i])
			}
		}
		if g.p1(50) {
			c.Trust = *g.cidrs(1 + g.n(2))
		}
	case "p02":
		if g.p1(25) {
			g.split(&c)
		}
		for i := range c.Be {
			if c.Be[i].Mode == "TLSPASSTHROUGH" {
				c.Be[i].Mode = "TCP"
			}
			g.certRules(&c.Be[i])
		}
		if g.p1(40) {
			c.Def = names[0]
		}
	case "p03":
		for i := range c.Be {
			b := &c.Be[i]
			if g.p1(50) {
				s := alpnSets[g.n(len(alpnSets))]
				if s != nil {
					if isHTTP(b) {
						s = [][]string{{"h2", "http/1.1"}, {"http/1.1"}, {"h2"}}[g.n(3)]
					}
					b.ALPN = &s
				}
			}
		}
		// Another backend for the same name, told apart by ALPN.
		if g.p1(75) {
			g.split(&c)
			if g.p1(30) {
				g.split(&c)
			}
		}
		if g.p1(40) {
			c.Be[0].Names = append(c.Be[0].Names, "alt.example.com")
		}
		if g.p1(60) {
			c.Def = g.picks(c.Be[0].Names[0], c.Be[len(c.Be)-1].Names[0], "nosuch.example.com")
		}
	case "p04":
		for i := range c.Be {
			g.streamOpts(&c.Be[i])
		}
	case "p05":
		for i := range c.Be {
			c.Be[i].Addrs = append(c.Be[i].Addrs, g.servers(g.between(1, 3))...)
			if g.p1(50) {
				c.Be[i].TimeoutS = g.pick(1, 5, 10)
			}
			if isHTTP(&c.Be[i]) && g.p1(50) {
				c.Be[i].Over = []OverSpec{{Paths: []string{"/api/"}, Addrs: g.servers(g.between(2, 4))}}
			}
		}
	case "p06":
		for i := range c.Be {
			b := &c.Be[i]
			if g.p1(50) {
				b.PP = g.picks("v1", "v2")
			}
			if g.p1(30) {
				b.Addrs = append(b.Addrs, g.servers(1)...)
			}
			if g.p1(40) {
				o := OverSpec{Paths: []string{g.picks("/api/", "/x/", "/api/v1/")}, Addrs: g.servers(1)}
				if g.p1(40) {
					o.PP = g.picks("v1", "v2")
				}
				if g.p1(40) {
					o.Proto = ptr(g.picks("h2", "http/1.1", ""))
				}
				b.Over = append(b.Over, o)
			}
			if g.p1(30) {
				b.Names = append(b.Names, "alt"+b.Names[0])
			}
			if g.p1(25) {
				g.certRules(b)
			}
		}
		if g.p1(30) {
			c.Trust = []string{"10.5.0.0/16"}
		}
	case "p07":
		for i := range c.Be {
			b := &c.Be[i]
			if isHTTP(b) && g.p1(40) {
				b.PP = g.picks("v1", "v2")
			} else if !isHTTP(b) {
				g.streamOpts(b)
			}
		}
	case "p08":
		for i := range c.Be {
			b := &c.Be[i]
			if g.p1(50) {
				b.Rate = g.pick(1, 2, 5, 10)
			}
		}
		if g.p1(60) {
			c.BW = append(c.BW, BWSpec{Name: g.picks("grp", "Grp", "MixedCase"), In: float64(g.pick(20000, 100000, 300000, 1000000)), Out: float64(g.pick(20000, 100000, 300000, 1000000))})
			for i := range c.Be {
				if g.p1(75) {
					c.Be[i].BW = c.BW[0].Name
				}
			}
		}
		if g.p1(35) {
			c.MaxOpen = g.between(3, 6)
		}
	case "p09":
		for i := range c.Be {
			b := &c.Be[i]
			if g.p1(20) {
				b.Deny = &[]string{"198.51.100.0/24"}
			}
			if g.p1(20) && b.Mode != "TLSPASSTHROUGH" {
				g.certRules(b)
			}
		}
		if g.p1(30) {
			c.Trust = []string{"10.5.0.0/16"}
		}
		if g.p1(25) {
			c.MaxOpen = g.between(3, 8)
		}
		if g.p1(30) {
			c.Def = names[0]
		}
	}
	return c
}

func (g *edgeGen) streamOpts(b *BeSpec) {
	if g.p1(40) {
		b.PP = g.picks("v1", "v2")
	}
	if g.p1(40) {
		b.SClose = ptr(g.p1(50))
	}
	if g.p1(30) {
		b.CClose = ptr(g.p1(50))
	}
	if g.p1(40) {
		b.HalfMs = int64(g.pick(500, 5000, 20000, 180000))
	}
}

// mutate makes the next configuration.
func (g *edgeGen) mutate(c CfgSpec) CfgSpec {
	n := cloneCfg(c)
	n.Bad = ""
	for k := g.between(1, 2); k > 0; k-- {
		b := &n.Be[g.n(len(n.Be))]
		switch g.prop {
		case "p01":
			if g.p1(80) {
				g.ipRules(b)
			} else {
				n.Trust = *g.cidrs(g.n(3))
			}
		case "p02":
			g.certRules(b)
		default:
			k := g.n(9)
			if g.prop == "p08" && g.p1(50) {
				k = 8
			}
			switch k {
			case 0, 1:
				b.Addrs = g.servers(1 + g.n(2))
			case 2:
				if len(n.Be) > 1 && g.prop != "p08" {
					n.Be = n.Be[:len(n.Be)-1]
				}
			case 3:
				if !isHTTP(b) && len(b.CAs) == 0 {
					b.Mode = g.picks("TCP", "TLS", "TLSPASSTHROUGH")
				}
			case 4:
				if len(n.Be) < 5 && g.prop != "p08" {
					nb := g.streamBe(names[len(n.Be)%5])
					dup := false
					for _, o := range n.Be {
						if slices.Contains(o.Names, nb.Names[0]) {
							dup = true
						}
					}
					if !dup {
						n.Be = append(n.Be, nb)
					}
				}
			case 5:
				n.Def = n.Be[g.n(len(n.Be))].Names[0]
			case 6:
				if g.prop != "p08" {
					g.ipRules(b)
				}
			case 7:
				if g.prop == "p03" && b.Mode != "TLSPASSTHROUGH" {
					g.certRules(b)
				}
			case 8:
				if g.prop == "p08" || g.prop == "p03" {
					if len(n.BW) > 0 {
						n.BW[0].In = float64(g.pick(20000, 80000, 300000, 1000000))
						n.BW[0].Out = float64(g.pick(20000, 80000, 300000, 1000000))
					}
					if b.Rate > 0 {
						b.Rate = g.pick(1, 2, 5)
					}
				}
			}
		}
	}
	return n
}

func (g *edgeGen) badCfg(c CfgSpec) CfgSpec {
	n := g.mutate(c)
	n.Bad = g.picks("mode", "dup", "sso", "cidr", "oidc", "sshca", "sshca", "ca", "fwdca")
	for i := range n.BW {
		n.BW[i].In *= 20
		n.BW[i].Out *= 20
	}
	return n
}

func (g *edgeGen) protoList() []string {
	var l []string
	for n := g.between(2, 4); n > 0; n-- {
		if p := g.picks("h2", "imap", "smtp", "xmpp", "foo", "http/1.1"); !slices.Contains(l, p) {
			l = append(l, p)
		}
	}
	return l
}

// split adds another backend for a name, told apart by ALPN.
func (g *edgeGen) split(c *CfgSpec) {
	i := g.n(len(c.Be))
	var used, s []string
	for j := range c.Be {
		if c.Be[j].Names[0] == c.Be[i].Names[0] {
			used = append(used, alpnOf(&c.Be[j])...)
		}
	}
	for _, p := range []string{"imap", "smtp", "xmpp", "foo", "h2"} {
		if !slices.Contains(used, p) && g.p1(50) {
			s = append(s, p)
		}
	}
	if len(s) > 0 && len(used) > 0 {
		b := g.streamBe(c.Be[i].Names[0])
		b.ALPN = &s
		c.Be = append(c.Be, b)
	}
}

func (g *edgeGen) alpn(b *BeSpec) []string {
	if isHTTP(b) {
		return [][]string{{"h2"}, {"h2"}, {"http/1.1"}, {"h2", "http/1.1"}, nil}[g.n(5)]
	}
	if g.prop == "p03" {
		switch g.n(5) {
		case 0:
			return nil
		case 1:
			return []string{g.picks("h2", "imap", "smtp", "xmpp", "foo", "http/1.1")}
		case 2, 3:
			return g.protoList()
		}
	}
	if (g.prop == "p01" || g.prop == "p02") && g.p1(15) {
		return g.protoList()
	}
	a := alpnOf(b)
	if len(a) == 0 || g.p1(20) {
		return nil
	}
	return []string{a[g.n(len(a))]}
}

func (g *edgeGen) src(c *CfgSpec) (src, via, viaSrc string) {
	src = g.picks(srcPool...)
	if len(c.Trust) > 0 && g.p1(60) || g.prop == "p01" && g.p1(10) {
		via = g.picks("v1", "v2")
		viaSrc = g.picks(srcPool...)
	}
	return
}

func (g *edgeGen) conn(b *BeSpec, c *CfgSpec) *ConnSpec {
	s := &ConnSpec{SNI: b.Names[g.n(len(b.Names))], ALPN: g.alpn(b)}
	s.Src, s.Via, s.ViaSrc = g.src(c)
	if b.PP != "" && s.Via == "" {
		s.Src = g.picks(srcPool...)
	}
	s.Up = g.pick(0, 1, 100, 5000, 70000)
	s.Down = g.pick(0, 1, 100, 5000, 70000)
	if g.p1(10) {
		s.Up = 300000
	}
	if g.p1(10) {
		s.Down = 300000
	}
	s.Chunk = g.pick(0, 100, 3000, 16384)
	if s.Chunk == 100 && s.Up > 5000 {
		s.Chunk = 1000
	}
	if g.p1(25) {
		s.GapMs = int64(g.pick(1, 50, 500))
	}
	if g.p1(15) {
		s.RdGap = int64(g.pick(1, 50, 500))
	}
	type e struct{ c, s string }
	x := []e{{"fin", "eof"}, {"fin", "eof"}, {"wait", "close"}, {"wait", "fin"}, {"close", "eof"}, {"fin", "late"}, {"fin", "fin"}, {"fin", "hold"}, {"quit", "eof"}, {"abort", "eof"}, {"wait", "abort"}, {"wait", "closeearly"}, {"fin", "closeearly"}, {"close", "hold"}, {"fin", "close"}, {"hold", "eof"}}
	k := x[g.n(len(x))]
	s.End, s.SrvEnd = k.c, k.s
	if s.SrvEnd == "late" {
		s.SrvMs = int64(g.pick(0, 100, 3000, 15000, 40000, 100000))
	}
	if s.End == "hold" {
		s.HoldMs = int64(g.pick(1000, 30000, 120000))
	}
	if b.CClose != nil && *b.CClose && s.End == "fin" && s.SrvEnd == "late" {
		s.SrvEnd = "eof"
	}
	return s
}

func (g *edgeGen) certPick(b *BeSpec, s *int, res *int, max12 *bool) {
	if len(b.CAs) == 0 && g.prop != "p02" {
		return
	}
	if g.p1(85) {
		*s = 1 + g.n(numCerts)
		if g.p1(50) {
			*s = 1 + g.n(4)
		}
	}
	if g.p1(50) {
		// A client with a session cache sticks to one certificate.
		*res = *s + 1
	}
	if max12 != nil {
		*max12 = g.p1(20)
	}
}

func (g *edgeGen) hconn(b *BeSpec, c *CfgSpec) *HConnSpec {
	s := &HConnSpec{SNI: b.Names[g.n(len(b.Names))], ALPN: g.alpn(b)}
	s.Src, s.Via, s.ViaSrc = g.src(c)
	g.certPick(b, &s.Cert, &s.Resume, nil)
	s.Par = g.p1(50)
	for n := g.between(1, 4); n > 0; n-- {
		q := ReqSpec{Method: g.picks("GET", "GET", "POST", "POST", "PUT", "HEAD", "DELETE")}
		if g.p1(25) {
			q.Host = g.picks(append([]string{"other.example.com", names[0], names[1]}, b.Names...)...)
			if g.p1(20) {
				q.Host += ":443"
			}
		}
		q.Path = g.picks("/", "/a/b", "/a/b/?q=1&r=2", "/api/x", "/api/v1/y?z", "/x/./y", "/x/../api/q", "/a%20b", "/api/../a")
		if q.Method == "POST" || q.Method == "PUT" {
			q.Up = g.pick(0, 10, 3000, 50000)
			if g.p1(30) && q.Up > 0 {
				q.UpGap = int64(g.pick(1, 100, 1000))
			}
		}
		q.Down = g.pick(0, 10, 3000, 50000)
		q.NoLen = g.p1(25)
		q.Tr = q.NoLen && g.p1(50)
		if g.p1(40) {
			q.Enc = g.picks("none", "none", "gzip, br", "br")
		}
		if g.p1(40) {
			q.SrvMs = int64(g.pick(1, 50, 1000, 8000))
		}
		if g.p1(20) {
			q.DnGap = int64(g.pick(1, 100, 1500))
		}
		if g.p1(15) {
			q.Status = g.pick(201, 204, 304, 404, 500, 302)
		}
		if g.p1(40) {
			q.GapMs = int64(g.pick(1, 20, 500, 5000, 12000))
		}
		q.Spoof = g.n(32)
		s.Reqs = append(s.Reqs, q)
	}
	if s.Par && !slices.Contains(s.ALPN, "h2") {
		for i := range s.Reqs {
			s.Reqs[i].Host = ""
		}
	}
	return s
}

func genEdge(r rng, prop, tier string) *Plan {
	g := &edgeGen{rng: r, prop: prop}
	p := &Plan{Sched: r.randSched(), Net: r.randNet(), P: map[string]int64{}}
	g.p = p
	c := g.baseCfg()
	cfgs := []CfgSpec{c}
	span := g.pick(500, 3000, 20000) // ms over which things start
	nconn := g.between(3, 10)
	if tier == "thorough" {
		nconn = g.between(3, 16)
	}
	recPct := map[string]int{"p01": 80, "p02": 80, "p03": 85, "p04": 15, "p05": 10, "p06": 15, "p07": 35, "p08": 50, "p09": 25}[prop]
	type rc struct {
		at int64
		k  int
	}
	var recs []rc
	if g.p1(recPct) {
		for n := g.between(1, 3); n > 0; n-- {
			cur := cfgs[0]
			for _, x := range recs {
				if cfgs[x.k].Bad == "" {
					cur = cfgs[x.k]
				}
			}
			var nc CfgSpec
			if (prop == "p03" || prop == "p08") && g.p1(30) {
				nc = g.badCfg(cur)
			} else if prop == "p01" && len(recs) > 0 && g.p1(25) {
				nc = cloneCfg(cfgs[0])
			} else {
				nc = g.mutate(cur)
			}
			cfgs = append(cfgs, nc)
			at := int64(g.n(span + 1))
			if g.p1(40) {
				at = int64(span) + int64(g.pick(100, 2000, 10000))
			}
			if len(recs) > 0 {
				at = recs[len(recs)-1].at + int64(g.pick(0, 100, 3000, 60000, 120000))
			}
			recs = append(recs, rc{at, len(cfgs) - 1})
		}
	}
	for _, x := range recs {
		p.Ops = append(p.Ops, Op{K: "reconf", At: x.at, A: int64(x.k)})
	}
	cfgAt := func(at int64) *CfgSpec {
		cur := &cfgs[0]
		for _, x := range recs {
			if x.at <= at && cfgs[x.k].Bad == "" {
				cur = &cfgs[x.k]
			}
		}
		return cur
	}
	nHTTP := 0
	for i := 0; i < nconn; i++ {
		at := int64(g.n(span + 1))
		if g.p1(30) {
			at = int64(g.pick(0, span/2)) // together
		}
		if len(recs) > 0 && g.p1(40) {
			at = max(0, recs[g.n(len(recs))].at+int64(g.pick(-300, -50, -5, 0, 1, 5, 50, 500)))
		}
		cc := cfgAt(at)
		if g.p1(30) {
			cc = &cfgs[g.n(len(cfgs))]
		}
		b := &cc.Be[g.n(len(cc.Be))]
		if isHTTP(b) {
			h := g.hconn(b, cc)
			g.tweakHTTP(h, len(recs) > 0)
			if prop == "p03" && g.p1(10) && cc.Def != "" {
				if d := selectBe(cc, "", h.ALPN); d == nil || isHTTP(d) {
					h.SNI = ""
					for j := range h.Reqs {
						h.Reqs[j].Host = cc.Def
					}
				}
			}
			nHTTP++
			p.Ops = append(p.Ops, Op{K: "http", At: at, HC: h})
			continue
		}
		s := g.conn(b, cc)
		g.certPick(b, &s.Cert, &s.Resume, &s.Max12)
		if s.SNI != "" && g.p1(8) && (prop == "p01" || prop == "p03") {
			s.SNI = "unknown.example.com"
		}
		if (prop == "p03" || prop == "p02" || prop == "p09") && g.p1(20) {
			// No SNI: only if the default is a stream backend under all the configurations.
			ok := true
			for j := range cfgs {
				if d := selectBe(&cfgs[j], "", s.ALPN); d != nil && isHTTP(d) {
					ok = false
				}
			}
			if ok {
				s.SNI = ""
			}
		}
		// A stream client must not meet an HTTP backend.
		for j := range cfgs {
			if d := selectBe(&cfgs[j], s.SNI, s.ALPN); d != nil && isHTTP(d) {
				s = nil
				break
			}
		}
		if s == nil {
			continue
		}
		if len(recs) > 0 && (prop == "p01" || prop == "p02" || prop == "p07") && g.p1(60) {
			s.End, s.SrvEnd, s.HoldMs = "hold", "eof", int64(g.pick(20000, 90000, 200000))+at/10
			s.Up, s.Down = g.pick(0, 100, 5000), g.pick(0, 100, 5000)
		}
		if prop == "p09" && g.p1(50) {
			s.Hello = g.picks("none", "partial", "dribble", "nohs", "corrupt", "garbage", "http", "reset")
			s.HelloN = g.n(400)
			if s.Hello == "nohs" && g.p1(40) {
				s.ALPN = []string{"acme-tls/1"}
			}
			s.GapMs = int64(g.pick(10, 300, 3000))
		}
		if prop == "p08" {
			s.Chunk = 16384
			s.GapMs, s.RdGap = 0, 0
			if g.p1(60) {
				s.Up = g.pick(100, 200000, 600000)
				s.Down = g.pick(100, 200000, 600000)
			}
			s.End, s.SrvEnd = "fin", "eof"
			if g.p1(30) {
				s.End, s.HoldMs = "hold", int64(g.pick(1000, 30000))
			}
		}
		if prop == "p05" {
			s.Up, s.Down, s.GapMs, s.RdGap, s.End, s.SrvEnd = 100, 100, 0, 0, "close", "eof"
		}
		p.Ops = append(p.Ops, Op{K: "conn", At: at, Conn: s})
	}
	if prop == "p08" {
		// Bursts of short connections and requests.
		for i := range c.Be {
			b := &c.Be[i]
			if b.Rate == 0 {
				continue
			}
			for n := g.between(1, b.Rate+6); n > 0; n-- {
				at := int64(g.n(2000))
				if isHTTP(b) {
					h := &HConnSpec{Src: g.picks(srcPool...), SNI: b.Names[0], ALPN: g.alpn(b), Par: g.p1(60)}
					for k := g.between(1, 4); k > 0; k-- {
						h.Reqs = append(h.Reqs, ReqSpec{Down: 10})
					}
					p.Ops = append(p.Ops, Op{K: "http", At: at, HC: h})
				} else {
					p.Ops = append(p.Ops, Op{K: "conn", At: at, Conn: &ConnSpec{Src: g.picks(srcPool...), SNI: b.Names[0], ALPN: alpnOf(b)[:1], Up: 10, Down: 10, End: "close", SrvEnd: "eof"}})
				}
			}
		}
		p.Net.Chunk = 0
		if p.Net.Buf < 16384 {
			p.Net.Buf = 16384
		}
	}
	if prop == "p07" && g.p1(65) {
		p.Ops = append(p.Ops, Op{K: "shutdown", At: int64(g.n(span + 5000)), A: int64(g.pick(1, 500, 5000, 60000, 300000))})
	}
	g.faults(span, c, cfgs)
	p.Cfgs = cfgs
	p.P["servers"] = int64(g.nsrv)
	return p
}

func (g *edgeGen) tweakHTTP(h *HConnSpec, rec bool) {
	switch g.prop {
	case "p05":
		h.Reqs = h.Reqs[:1]
		h.Reqs[0] = ReqSpec{Method: "GET", Path: g.picks("/", "/api/x"), Down: 100}
	case "p06":
		if g.p1(12) {
			h.Reqs[g.n(len(h.Reqs))].Beh = g.picks("close", "reset", "trunc")
		}
		if g.p1(8) {
			h.Reqs[g.n(len(h.Reqs))].Cancel = int64(g.pick(1, 10, 100, 1000))
		}
	case "p07":
		if g.p1(20) {
			h.End, h.HoldMs = "hold", int64(g.pick(5000, 60000))
		} else if g.p1(20) {
			h.End = "abort"
		}
		if g.p1(8) {
			h.Reqs[0].Cancel = int64(g.pick(1, 100, 1000))
		}
	case "p01", "p02":
		h.End, h.HoldMs = "hold", 20000
		if g.p1(40) {
			// Keeps asking for a while.
			h.Par = false
			for k := 0; k < 8; k++ {
				h.Reqs = append(h.Reqs, ReqSpec{Method: "GET", Down: 10, GapMs: 15000})
			}
		}
	}
	if rec {
		for i := range h.Reqs {
			if g.p1(40) {
				h.Reqs[i].SrvMs = int64(g.pick(500, 3000, 20000))
			}
		}
	}
}

func (g *edgeGen) faults(span int, c CfgSpec, cfgs []CfgSpec) {
	p := g.p
	n := len(p.Ops)
	add := func(f Fault) { p.Faults = append(p.Faults, f) }
	connFaults := func(pct int) {
		if !g.p1(pct) {
			return
		}
		for k := g.between(1, 3); k > 0; k-- {
			f := Fault{K: g.picks("bconn", "cconn"), N: int64(g.n(n + 1)), A: int64(g.pick(0, 1, 50, 500, 5000, 60000)), S: g.picks("reset", "stall") + "-" + g.picks("up", "down")}
			f.B = int64(g.pick(10, 1000, 40000))
			add(f)
		}
	}
	switch g.prop {
	case "p04":
		connFaults(40)
	case "p05":
		for k := g.between(0, 3); k > 0; k-- {
			if g.p1(60) {
				f := Fault{K: "down", N: int64(g.n(g.nsrv)), S: g.picks("refuse", "refuse", "hang")}
				if g.p1(60) {
					f.B = int64(span) + 600000
				} else {
					f.A = int64(g.n(span))
					f.B = int64(g.pick(10, 1000, 10000))
				}
				add(f)
			} else {
				add(Fault{K: "dial", N: int64(g.n(n + 3)), S: g.picks("refuse", "hang", "lat"), A: int64(g.pick(100, 2000))})
			}
		}
	case "p06":
		connFaults(20)
	case "p07":
		connFaults(45)
		if g.p1(15) {
			add(Fault{K: "down", N: int64(g.n(g.nsrv)), S: "hang", A: 0, B: int64(span)})
		}
	case "p08":
		connFaults(10)
	case "p09":
		connFaults(50)
		if g.p1(40) {
			add(Fault{K: "accept", A: int64(g.n(span)), N: int64(g.between(1, 5))})
		}
		if g.p1(40) {
			add(Fault{K: "part", S: g.picks("10.0.0.1|", fmt.Sprintf("10.1.0.%d|", 1+g.n(g.nsrv)), g.picks(srcPool...)+"|10.0.0.1"), A: int64(g.n(span)), B: int64(g.pick(100, 5000, 60000, 200000))})
		}
		if g.p1(25) {
			add(Fault{K: "srvreset", N: int64(g.n(g.nsrv)), A: int64(g.n(span + 1000))})
		}
	case "p03":
		if g.p1(15) {
			add(Fault{K: "dial", N: int64(g.n(n + 3)), S: "lat", A: int64(g.pick(100, 2000))})
		}
	}
}
