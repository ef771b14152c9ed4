package main

import (
	"fmt"
	"time"
)

func init() {
	for _, p := range []string{"p16", "p17", "p18"} {
		p := p
		register(&Scenario{Name: "st-" + p, Gen: func(r rng, tier string) *Plan { return genPKI(r, p, tier) }, Run: runPKI, Horizon: 60 * 24 * time.Hour})
	}
}

// storeBase is the configuration that all store scenarios share.
func storeBase(r rng, nb int) (*AuthSpec, *StoreSpec) {
	a := &AuthSpec{NB: nb, Provs: []ProvSpec{{Name: "idp", Domain: "example.com", Redirect: "https://login.example.com/oauth2/redirect", PKCE: r.p(50), UserInfo: r.p(30)}}}
	acl := &[]string{"alice@example.com", "bob@example.com", "@other.org"}
	a.Cfgs = []AuthCfg{{Be: []AuthBe{
		{Hosts: []string{"login.example.com"}, Mode: "LOCAL"},
		{Hosts: []string{"ca.example.com"}, Mode: "LOCAL", SSO: 1, ACL: acl},
		{Hosts: []string{"mtls.example.com"}, Mode: "HTTP", Srv: 1},
		{Hosts: []string{"fwd.example.com"}, Mode: "HTTPS", Srv: 2},
	}}}
	s := &StoreSpec{}
	for i := 0; i < nb; i++ {
		s.Users = append(s.Users, r.pick(0, 0, 1, 1, 2, 3))
	}
	s.Users[0] = r.pick(0, 1)
	for i := 0; i < 3; i++ {
		s.DownMs = append(s.DownMs, int64(r.pick(10, 200, 3000, 20000)))
	}
	s.EndCrash = int64(r.pick(0, 1, 2, 2))
	return a, s
}

// fsFaults draws disk faults and crashes. span is in milliseconds.
func (r rng) fsFaults(span int64, files ...string) []Fault {
	var out []Fault
	n := r.pick(0, 0, 1, 1, 2, 3, 4)
	for i := 0; i < n; i++ {
		f := Fault{K: "fs", A: int64(r.n(int(span))), N: int64(r.pick(1, 1, 1, 2, 3, 5))}
		match := ""
		switch r.n(6) {
		case 0:
		case 1:
			match = r.picks("create ", "write ", "rename ", "remove ")
		default:
			match = files[r.n(len(files))]
			if r.p(50) {
				op := r.picks("create", "write", "rename", "rename")
				if op == "rename" {
					match = "rename /simdisk/auth/test/" + match
				} else {
					match = op + " /simdisk/auth/test/" + match
				}
			}
		}
		mode := r.picks("err", "err", "err", "part", "part", "after", "crash0", "crash0", "crash1", "crash1", "torn", "torn", "delay", "rerr")
		if mode == "delay" {
			f.B = int64(r.pick(50, 1000, 5000))
		} else {
			f.B = int64(r.n(5000))
		}
		f.S = mode + "|" + match
		out = append(out, f)
	}
	if r.p(12) {
		out = append(out, Fault{K: "fsfull", A: int64(r.n(int(span))), B: int64(r.pick(500, 5000, 60000))})
	}
	return out
}

// globals draws crashes, restarts, reconfigurations and clock jumps.
func (r rng) globals(span int64, jumps bool) []Op {
	var out []Op
	at := func() int64 { return int64(r.n(int(span))) }
	for i, n := 0, r.pick(0, 0, 1, 1, 2); i < n; i++ {
		out = append(out, Op{K: "crash", At: at()})
	}
	for i, n := 0, r.pick(0, 0, 0, 1); i < n; i++ {
		out = append(out, Op{K: "restart", At: at()})
	}
	for i, n := 0, r.pick(0, 0, 1, 2, 4); i < n; i++ {
		out = append(out, Op{K: "reconf", At: at()})
	}
	if jumps {
		for i, n := 0, r.pick(0, 0, 1, 1, 2, 3); i < n; i++ {
			d := int64(r.pick(1, 10, 29*60, 31*60, 45*60, 61*60, 89*60, 91*60, 5*3600, 24*3600, 4*24*3600, 5*24*3600+100, 6*24*3600, 11*24*3600, 30*24*3600)) * 1000
			if r.p(12) {
				d = -int64(r.pick(1, 10, 1800, 5*3600)) * 1000
			}
			out = append(out, Op{K: "jump", At: at(), A: d})
		}
	}
	return out
}

func genPKI(r rng, prop, tier string) *Plan {
	p := &Plan{Sched: r.randSched(), Net: r.randNet()}
	nb := r.between(2, 5)
	p.Auth, p.Store = storeBase(r, nb)
	s := p.Store
	n := 1
	if r.p(20) {
		n = 2
	}
	for i := 0; i < n; i++ {
		pk := PKISpec{Name: r.picks("my ca", "CA-1", "root/ca", "ca") + fmt.Sprint(i), KeyType: r.picks("", "ecdsa-p256", "ecdsa-p256", "ecdsa-p384", "ed25519", "rsa-2048"), Admins: []string{r.picks("bob@example.com", "alice@example.com")}}
		if r.p(30) {
			pk.KeyTypes = []string{r.picks("", "ecdsa-p256", "ecdsa-p384", "ed25519", "rsa-2048"), r.picks("ecdsa-p256", "ed25519", "rsa-2048")}
		}
		s.PKI = append(s.PKI, pk)
	}
	if prop == "p18" || r.p(20) {
		s.SSH = r.picks("ecdsa-p256", "ed25519", "ecdsa-p384", "rsa-2048")
		if r.p(30) {
			s.SSHs = []string{r.picks("", "ecdsa-p256", "ed25519"), r.picks("ecdsa-p384", "rsa-2048")}
		}
	}
	nops := r.between(6, 22)
	if tier == "thorough" {
		nops = r.between(6, 40)
	}
	gaps := []int{0, 0, 5, 50, 300, 1000, 5000, 30000}
	if r.p(30) {
		gaps = []int{0, 0, 0, 1, 5, 20}
	}
	add := func(w int, k string, f func(o *Op)) {
		o := Op{K: k, W: w, At: int64(gaps[r.n(len(gaps))]), A: int64(r.n(n))}
		if f != nil {
			f(&o)
		}
		p.Ops = append(p.Ops, o)
	}
	mix := map[string][]string{
		"p16": {"issue", "issue", "issue", "issue", "issue", "revoke", "revchk", "list", "list", "ca", "dl", "crl", "ocsp", "hs", "fwdset", "slowlist"},
		"p17": {"issue", "issue", "issue", "revoke", "revchk", "revchk", "revchk", "crl", "crl", "ocsp", "ocsp", "hs", "hs", "hsrevhs", "fwdset", "fwdrev", "fwd", "list"},
		"p18": {"sshcert", "sshcert", "sshcert", "sshcert", "sshcert", "sshpub", "sshpub", "issue"},
	}[prop]
	if prop == "p16" || prop == "p17" {
		// Certificates to work with.
		for w := 0; w < nb; w++ {
			add(w, "issue", func(o *Op) {
				o.C = int64(r.pick(0, 0, 0, 1))
				o.B = int64(r.n(4))
				if r.p(25) {
					o.B = int64(100 + r.n(2))
				}
			})
		}
		if r.p(40) {
			add(r.n(nb), "fwdset", nil)
		}
	}
	for i := 0; i < nops; i++ {
		w := r.n(nb)
		k := mix[r.n(len(mix))]
		add(w, k, func(o *Op) {
			switch k {
			case "issue":
				o.B = int64(r.n(4))
				o.C = int64(r.pick(0, 0, 0, 1, 3, 4, 5))
				if r.p(12) {
					o.S = r.picks("badsig", "garbage", "nocsrf", "badct", "get")
				}
				if r.p(20) {
					o.B = int64(100 + r.n(3))
				}
				if r.p(6) {
					o.D = int64(r.pick(100, 5000, 60000))
				}
			case "revoke", "revchk":
				o.B = int64(r.n(20))
				o.C = int64(r.n(128)) &^ 1
				if r.p(40) {
					o.C |= 1
				}
				o.D = int64(r.pick(3, 3, 4, 0))
			case "crl":
				o.B = int64(r.n(2))
			case "ocsp":
				o.B = int64(r.n(20))
				o.C = int64(r.n(4))
				if r.p(12) {
					o.C |= int64(r.pick(4, 8))
				}
			case "hs", "hsrevhs":
				o.B = int64(r.n(20))
				o.C = int64(r.n(4))
				o.D = int64(r.pick(2, 2, 2, 0))
			case "dl":
				o.B = int64(r.n(20))
			case "slowlist":
				o.C = int64(r.pick(1000, 40000, 90000))
			case "sshcert":
				o.A = int64(r.n(4))
				if r.p(50) {
					o.A = int64(100 + r.n(2))
				}
				if r.p(25) {
					o.C = int64(r.pick(50, 2000, 45000, 100000))
				}
				if r.p(25) {
					o.S = r.picks("garbage", "nocsrf", "badct", "get", "anon", "opts", "two")
				}
			}
		})
	}
	span := int64(0)
	tot := map[int]int64{}
	for _, o := range p.Ops {
		tot[o.W] += o.At + 100
		span = max(span, tot[o.W])
	}
	span = span*5/4 + 200
	p.Ops = append(p.Ops, r.globals(span, true)...)
	p.Faults = r.fsFaults(span, "pki-", "pki-", "sshca-", ".lock", "pki-", "ocsp-cache", "token-keys")
	return p
}
