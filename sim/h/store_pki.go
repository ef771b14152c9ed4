package main

// Certificate authorities: operations and checks (P16, P17, P18).

import (
	"bufio"
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"regexp"
	"slices"
	"strings"
	"time"

	"golang.org/x/crypto/ocsp"
	"golang.org/x/crypto/ssh"
)

type pcert struct {
	sn    string
	pki   int
	cert  *x509.Certificate
	key   crypto.Signer
	owner string
	ack   time.Duration
	rev   []*revRec
}

type issueRec struct {
	r    *aReq
	pki  int
	tag  string
	csr  *x509.CertificateRequest
	key  crypto.Signer
	bad  string
	out  int
	cert *x509.Certificate
	own  time.Duration
}

type revRec struct {
	r     *aReq
	c     *pcert
	admin bool
	out   int
	res   string
}

type crlRec struct {
	r      *aReq
	pki    int
	raw    []byte
	rl     *x509.RevocationList
	signer *x509.Certificate
}

type ocspRec struct {
	r    *aReq
	pki  int
	c    *pcert
	raw  []byte
	want string // "" or unknown, issuer
	sn   *big.Int
}

type hsRec struct {
	what string // mtls, fwd
	r    *aReq
	c    *pcert
	ok   bool
}

type listEnt struct{ status, sn, subject string }

type listRec struct {
	r   *aReq
	pki int
	l   []listEnt
}

type caRec struct {
	r   *aReq
	pki int
	l   []*x509.Certificate
}

type pkiModel struct {
	certs  []*pcert
	issues []*issueRec
	revs   []*revRec
	crls   []*crlRec
	ocsps  []*ocspRec
	hss    []*hsRec
	lists  []*listRec
	cas    []*caRec
	dls    []*ocspRec
	ntag   int
	sess   map[string]tls.ClientSessionCache

	fwd     *pcert
	fwdFrom time.Duration
	fwdSeen map[string]*pcert
}

func hexColon(b []byte) string {
	var l []string
	for _, x := range b {
		l = append(l, fmt.Sprintf("%02x", x))
	}
	return strings.Join(l, ":")
}

func (s *store) initPKI() {
	s.pk = &pkiModel{sess: map[string]tls.ClientSessionCache{}, fwdSeen: map[string]*pcert{}}
	n := s.w.newNode("10.1.1.1")
	s.w.in(n, func() {
		l, err := s.w.net.listen(n, "tcp", "10.1.1.1:8443")
		if err != nil {
			panic(err)
		}
		type ctxKey struct{}
		srv := &http.Server{
			TLSConfig: &tls.Config{GetConfigForClient: func(h *tls.ClientHelloInfo) (*tls.Config, error) {
				s.mu.Lock()
				c := s.pk.fwd
				s.mu.Unlock()
				if c == nil {
					return nil, fmt.Errorf("no certificate yet")
				}
				if f, ok := h.Context().Value(ctxKey{}).(*[1]*pcert); ok {
					f[0] = c
				}
				return &tls.Config{SessionTicketsDisabled: true, Certificates: []tls.Certificate{{Certificate: [][]byte{c.cert.Raw}, PrivateKey: c.key}}}, nil
			}},
			ConnContext: func(ctx context.Context, c net.Conn) context.Context {
				return context.WithValue(ctx, ctxKey{}, &[1]*pcert{})
			},
			Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				id := req.Header.Get("X-Req-Id")
				f := req.Context().Value(ctxKey{}).(*[1]*pcert)
				s.mu.Lock()
				s.pk.fwdSeen[id] = f[0]
				if r := s.byID[id]; r != nil {
					r.seen = append(r.seen, &aSeen{srv: 2, at: s.w.since(), hdr: req.Header.Clone(), host: req.Host, path: req.URL.Path, ck: req.Cookies()})
				}
				s.mu.Unlock()
				io.WriteString(w, "fwd")
			}),
		}
		srv.SetKeepAlivesEnabled(false)
		go srv.ServeTLS(l, "", "")
	})
}

func genKey(k int64) crypto.Signer {
	if k%4 == 3 {
		_, p, _ := ed25519.GenerateKey(rand.Reader)
		return p
	}
	p, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	return p
}

// poolKey returns a new key, or for 100 and more one that others use too.
func (s *store) poolKey(k int64) crypto.Signer {
	if k < 100 {
		return genKey(k)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.keys == nil {
		s.keys = make(map[int64]crypto.Signer)
	}
	if s.keys[k] == nil {
		s.keys[k] = genKey(k)
	} else {
		s.w.probe("shared-key")
	}
	return s.keys[k]
}

func (s *store) endpoint(pki int64) string {
	return fmt.Sprintf("https://ca.example.com/p%d/certs", int(pki)%len(s.ss.PKI))
}

// outcome of a request that changes something.
func (s *store) outcome(r *aReq, ok bool) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	switch {
	case r.err == nil && ok:
		return outAck
	case r.err != nil || s.ambiguous(r.sent, r.done):
		return outUnknown
	}
	return outNone
}

// issue requests a certificate. flags: 1 server certificate, 2 no common
// name, 4 extra names that must be ignored.
func (s *store) issue(b *browser, op *Op, dns ...string) *pcert {
	p := int(op.A) % len(s.ss.PKI)
	s.mu.Lock()
	s.pk.ntag++
	tag := fmt.Sprintf("tag%03d", s.pk.ntag)
	s.mu.Unlock()
	is := &issueRec{pki: p, tag: tag, key: s.poolKey(op.B), bad: op.S}
	t := &x509.CertificateRequest{Subject: pkix.Name{CommonName: tag}}
	if op.C&1 != 0 {
		t.DNSNames = []string{tag + ".example.net"}
		if op.C&2 != 0 {
			t.Subject = pkix.Name{}
		}
	}
	t.DNSNames = append(t.DNSNames, dns...)
	if op.C&4 != 0 {
		t.EmailAddresses = []string{"alice@example.com", "root@example.com"}
		t.IPAddresses = []net.IP{net.IPv4(10, 0, 0, 1)}
		u, _ := url.Parse("spiffe://example.com/root")
		t.URIs = []*url.URL{u}
	}
	raw, err := x509.CreateCertificateRequest(rand.Reader, t, is.key)
	if err != nil {
		panic(err)
	}
	is.csr, _ = x509.ParseCertificateRequest(raw)
	body := string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: raw}))
	h := http.Header{"X-Csrf-Check": {"1"}, "Content-Type": {"application/x-pem-file"}}
	method := "POST"
	switch op.S {
	case "badsig":
		raw[len(raw)-3] ^= 0x40
		body = string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: raw}))
	case "garbage":
		body = "-----BEGIN CERTIFICATE REQUEST-----\nAAAA\n-----END CERTIFICATE REQUEST-----\n"
	case "nocsrf":
		h.Del("X-Csrf-Check")
	case "badct":
		h.Set("Content-Type", "text/plain")
	case "get":
		method, body = "GET", ""
	}
	s.mu.Lock()
	s.pk.issues = append(s.pk.issues, is)
	s.mu.Unlock()
	o := reqOpt{method: method, hdr: h, body: body}
	if op.D > 0 {
		o.stall = time.Duration(op.D) * time.Millisecond
		is.own = o.stall
	}
	u := s.endpoint(op.A) + "?get=requestCert"
	r := s.req(b, u, o)
	is.r = r
	var out struct{ Result, Cert string }
	if r.err == nil && r.status == 200 {
		json.Unmarshal([]byte(r.body), &out)
	}
	is.out = s.outcome(r, out.Result == "ok")
	s.w.ev("issue %s: %d", tag, is.out)
	if is.out != outAck {
		return nil
	}
	s.w.probe("issued")
	blk, _ := pem.Decode([]byte(out.Cert))
	if blk == nil {
		s.w.violate("P16", "no-cert", "request %s: the reply has no certificate", r.id)
		return nil
	}
	c, err := x509.ParseCertificate(blk.Bytes)
	if err != nil {
		s.w.violate("P16", "bad-cert", "request %s: %v", r.id, err)
		return nil
	}
	is.cert = c
	pc := &pcert{sn: hexColon(c.SerialNumber.Bytes()), pki: p, cert: c, key: is.key, ack: r.done}
	if len(c.EmailAddresses) > 0 {
		pc.owner = c.EmailAddresses[0]
	}
	s.mu.Lock()
	s.pk.certs = append(s.pk.certs, pc)
	s.mu.Unlock()
	return pc
}

// pickCert picks a certificate. mode: 0 any, 1 server certificates, 2 client
// certificates, 3 the user's own, 4 not known to be revoked.
func (s *store) pickCert(n int64, pki, mode int, owner string) *pcert {
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []*pcert
	for _, c := range s.pk.certs {
		if pki >= 0 && c.pki != pki {
			continue
		}
		srv := len(c.cert.DNSNames) > 0
		switch mode {
		case 1:
			if !srv {
				continue
			}
		case 2:
			if srv {
				continue
			}
		case 3:
			if c.owner != owner {
				continue
			}
		case 4:
			if len(c.rev) > 0 {
				continue
			}
		}
		l = append(l, c)
	}
	if len(l) == 0 {
		return nil
	}
	return l[int(n)%len(l)]
}

func (s *store) revoke(b *browser, c *pcert, admin bool) *revRec {
	rv := &revRec{c: c, admin: admin}
	q := url.Values{"get": {"revokeCert"}, "sn": {c.sn}}
	if admin {
		q.Set("admin", "1")
	}
	// Registered before it is sent: it may take effect at any time from now.
	s.mu.Lock()
	rv.r = &aReq{sent: s.w.since(), done: 1 << 62}
	rv.out = outUnknown
	c.rev = append(c.rev, rv)
	s.pk.revs = append(s.pk.revs, rv)
	s.mu.Unlock()
	first := rv.r.sent
	r := s.req(b, s.endpoint(int64(c.pki))+"?"+q.Encode(), reqOpt{method: "POST", hdr: http.Header{"X-Csrf-Check": {"1"}}})
	var out struct{ Result string }
	if r.err == nil && r.status == 200 {
		json.Unmarshal([]byte(r.body), &out)
	}
	_ = first
	rv.res = out.Result
	rv.out = s.outcome(r, out.Result == "ok")
	rv.r = r
	s.w.ev("revoke %.8s: %d", c.sn, rv.out)
	if rv.out == outAck {
		s.w.probe("revoked")
	}
	return rv
}

func (s *store) fetchCRL(b *browser, pki int64, pemFmt bool) {
	p := int(pki) % len(s.ss.PKI)
	ext := "der"
	if pemFmt {
		ext = "pem"
	}
	r := s.do(b, fmt.Sprintf("https://ca.example.com/p%d/crl.%s", p, ext), reqOpt{kind: "st", noJar: true})
	c := &crlRec{r: r, pki: p}
	if r.err == nil && r.status == 200 {
		c.raw = []byte(r.body)
		if pemFmt {
			c.raw = nil
			rest := []byte(r.body)
			for {
				var blk *pem.Block
				if blk, rest = pem.Decode(rest); blk == nil {
					break
				}
				switch blk.Type {
				case "CERTIFICATE":
					c.signer, _ = x509.ParseCertificate(blk.Bytes)
				case "X509 CRL":
					c.raw = blk.Bytes
				}
			}
		}
		rl, err := x509.ParseRevocationList(c.raw)
		if err != nil {
			s.w.violate("P17", "bad-crl", "request %s: %v", r.id, err)
		}
		c.rl = rl
		s.w.probe("crl")
	}
	s.mu.Lock()
	s.pk.crls = append(s.pk.crls, c)
	s.mu.Unlock()
}

func (s *store) fetchCA(b *browser, pki int64) *caRec {
	p := int(pki) % len(s.ss.PKI)
	r := s.do(b, fmt.Sprintf("https://ca.example.com/p%d/ca.pem", p), reqOpt{kind: "st", noJar: true})
	c := &caRec{r: r, pki: p}
	if r.err == nil && r.status == 200 {
		rest := []byte(r.body)
		for {
			var blk *pem.Block
			if blk, rest = pem.Decode(rest); blk == nil {
				break
			}
			x, err := x509.ParseCertificate(blk.Bytes)
			if err != nil {
				s.w.violate("P16", "bad-ca-cert", "request %s: %v", r.id, err)
				continue
			}
			c.l = append(c.l, x)
		}
		s.w.probe("ca")
	}
	s.mu.Lock()
	s.pk.cas = append(s.pk.cas, c)
	s.mu.Unlock()
	return c
}

func (s *store) caCert(p int) *x509.Certificate {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.pk.cas {
		if c.pki == p && len(c.l) > 0 {
			return c.l[0]
		}
	}
	return nil
}

// fetchOCSP asks about a certificate. flags: 1 POST, 2 SHA-256, 4 an unknown
// serial number, 8 another issuer.
func (s *store) fetchOCSP(b *browser, c *pcert, flags int64) {
	ca := s.caCert(c.pki)
	if ca == nil {
		return
	}
	h := crypto.SHA1
	if flags&2 != 0 {
		h = crypto.SHA256
	}
	rec := &ocspRec{pki: c.pki, c: c, sn: c.cert.SerialNumber}
	cert, issuer := *c.cert, *ca
	if flags&4 != 0 {
		rec.want = "unknown"
		cert.SerialNumber = new(big.Int).Add(cert.SerialNumber, big.NewInt(1))
		rec.sn = cert.SerialNumber
	} else if flags&8 != 0 {
		rec.want = "issuer"
		issuer.RawSubject = append([]byte(nil), issuer.RawSubject...)
		issuer.RawSubject[len(issuer.RawSubject)-1] ^= 1
	}
	req, err := ocsp.CreateRequest(&cert, &issuer, &ocsp.RequestOptions{Hash: h})
	if err != nil {
		panic(err)
	}
	u := fmt.Sprintf("https://ca.example.com/p%d/ocsp", c.pki)
	o := reqOpt{kind: "st", noJar: true}
	if flags&1 != 0 {
		o.method = "POST"
		o.body = string(req)
		o.hdr = http.Header{"Content-Type": {"application/ocsp-request"}}
	} else {
		u += "/" + url.PathEscape(base64.StdEncoding.EncodeToString(req))
	}
	r := s.do(b, u, o)
	rec.r = r
	if r.err == nil && r.status == 200 {
		rec.raw = []byte(r.body)
		s.w.probe("ocsp")
	}
	s.mu.Lock()
	s.pk.ocsps = append(s.pk.ocsps, rec)
	s.mu.Unlock()
}

// newReq registers a request that is not sent with do.
func (s *store) newReq(b *browser, host, path string) *aReq {
	r := &aReq{br: b.idx, kind: "st", sni: host, host: host, path: path, method: "GET", hdr: http.Header{}, set: map[string]*http.Cookie{}}
	s.mu.Lock()
	s.nreq++
	r.id = fmt.Sprintf("r%d", s.nreq)
	s.byID[r.id] = r
	s.reqs = append(s.reqs, r)
	s.mu.Unlock()
	r.sent = s.w.since()
	return r
}

// handshake connects with a client certificate. flags: 1 TLS 1.2, 2 resume.
func (s *store) handshake(b *browser, c *pcert, flags int64) *hsRec {
	r := s.newReq(b, "mtls.example.com", "/")
	h := &hsRec{what: "mtls", r: r, c: c}
	s.mu.Lock()
	s.pk.hss = append(s.pk.hss, h)
	s.mu.Unlock()
	s.w.ev("b%d %s handshake with %.8s", b.idx, r.id, c.sn)
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Hour)
	defer cancel()
	defer func() {
		r.done = s.w.since()
		r.finished = true
		s.w.ev("b%d %s handshake ok=%v", b.idx, r.id, h.ok)
	}()
	nc, err := s.w.net.dial(ctx, 0, b.ip, "tcp", s.addr)
	if err != nil {
		r.err = err
		return h
	}
	defer nc.Close()
	cfg := &tls.Config{ServerName: "mtls.example.com", InsecureSkipVerify: true, Certificates: []tls.Certificate{{Certificate: [][]byte{c.cert.Raw}, PrivateKey: c.key}}}
	if flags&1 != 0 {
		cfg.MaxVersion = tls.VersionTLS12
	}
	if flags&2 != 0 {
		k := fmt.Sprintf("%d %s %d", b.idx, c.sn, flags&1)
		s.mu.Lock()
		if s.pk.sess[k] == nil {
			s.pk.sess[k] = tls.NewLRUClientSessionCache(4)
		}
		cfg.ClientSessionCache = s.pk.sess[k]
		s.mu.Unlock()
	}
	tc := tls.Client(nc, cfg)
	nc.SetDeadline(time.Now().Add(2 * time.Hour))
	if err := tc.HandshakeContext(ctx); err != nil {
		r.err = err
		return h
	}
	if tc.ConnectionState().DidResume {
		s.w.probe("resumed")
	}
	fmt.Fprintf(tc, "GET / HTTP/1.1\r\nHost: mtls.example.com\r\nX-Req-Id: %s\r\nConnection: close\r\n\r\n", r.id)
	resp, err := http.ReadResponse(bufio.NewReader(tc), nil)
	if err != nil {
		r.err = err
		return h
	}
	io.Copy(io.Discard, resp.Body)
	r.status = resp.StatusCode
	h.ok = resp.StatusCode == 200
	return h
}

func (s *store) fwd(b *browser) {
	s.mu.Lock()
	c, from := s.pk.fwd, s.pk.fwdFrom
	s.mu.Unlock()
	if c == nil {
		return
	}
	r := s.do(b, "https://fwd.example.com/", reqOpt{kind: "st", noJar: true})
	h := &hsRec{what: "fwd", r: r, c: c, ok: r.err == nil && r.status == 200}
	s.mu.Lock()
	defer s.mu.Unlock()
	if x := s.pk.fwdSeen[r.id]; x != nil {
		h.c = x
		h.ok = true
	} else if s.pk.fwdFrom != from {
		return
	}
	s.pk.hss = append(s.pk.hss, h)
}

var listRE = regexp.MustCompile(`(?s)<div class="status">([A-Za-z]+)</div>\s*<div class="onecert">\s*<div>SerialNumber:</div><div>([0-9a-f:]*)</div>(.*?)<div>NotBefore`)
var subjRE = regexp.MustCompile(`<div>Subject:</div><div>([^<]*)</div>`)

func (s *store) list(b *browser, pki int64) {
	p := int(pki) % len(s.ss.PKI)
	r := s.req(b, s.endpoint(int64(p))+"?owner=all&status=all", reqOpt{})
	l := &listRec{r: r, pki: p}
	if r.err == nil && r.status == 200 && strings.Contains(r.body, "</html>") {
		for _, m := range listRE.FindAllStringSubmatch(r.body, -1) {
			e := listEnt{status: m[1], sn: m[2]}
			if x := subjRE.FindStringSubmatch(m[3]); x != nil {
				e.subject = x[1]
			}
			l.l = append(l.l, e)
		}
		s.w.probe("list")
	} else {
		l.pki = -1
	}
	s.mu.Lock()
	s.pk.lists = append(s.pk.lists, l)
	s.mu.Unlock()
}

// slowList asks for the list and does not read the answer.
func (s *store) slowList(b *browser, op *Op) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
	defer cancel()
	nc, err := s.w.net.dial(ctx, 0, b.ip, "tcp", s.addr)
	if err != nil {
		return
	}
	defer nc.Close()
	tc := tls.Client(nc, &tls.Config{ServerName: "ca.example.com", InsecureSkipVerify: true})
	if tc.HandshakeContext(ctx) != nil {
		return
	}
	var ck []string
	for _, c := range b.cookies("ca.example.com") {
		ck = append(ck, c.Name+"="+c.Value)
	}
	fmt.Fprintf(tc, "GET /p%d/certs?owner=all&status=all HTTP/1.1\r\nHost: ca.example.com\r\nCookie: %s\r\n\r\n", int(op.A)%len(s.ss.PKI), strings.Join(ck, "; "))
	s.w.fault("slow-reader")
	time.Sleep(time.Duration(op.C) * time.Millisecond)
}

func (s *store) download(b *browser, c *pcert) {
	r := s.req(b, s.endpoint(int64(c.pki))+"?"+url.Values{"get": {"downloadCert"}, "sn": {c.sn}}.Encode(), reqOpt{})
	s.mu.Lock()
	s.pk.dls = append(s.pk.dls, &ocspRec{r: r, pki: c.pki, c: c})
	s.mu.Unlock()
}

// SSH.

type sshRec struct {
	r    *aReq
	pub  ssh.PublicKey
	bad  string
	cert *ssh.Certificate
	own  time.Duration
}

type sshModel struct {
	certs []*sshRec
	pubs  []*sshRec
}

func (s *store) sshPub(b *browser) {
	r := s.do(b, "https://ca.example.com/ssh/pub", reqOpt{kind: "st", noJar: true})
	x := &sshRec{r: r}
	if r.err == nil && r.status == 200 {
		k, _, _, _, err := ssh.ParseAuthorizedKey([]byte(r.body))
		if err != nil {
			s.w.violate("P18", "bad-public-key", "request %s: %v", r.id, err)
		}
		x.pub = k
		s.w.probe("ssh-pub")
	}
	s.mu.Lock()
	s.sm.pubs = append(s.sm.pubs, x)
	s.mu.Unlock()
}

func (s *store) sshCert(b *browser, op *Op) {
	k := s.poolKey(op.A)
	pub, err := ssh.NewPublicKey(k.Public())
	if err != nil {
		panic(err)
	}
	body := string(ssh.MarshalAuthorizedKey(pub))
	x := &sshRec{pub: pub, bad: op.S, own: time.Duration(op.C) * time.Millisecond}
	h := http.Header{"X-Csrf-Check": {"1"}, "Content-Type": {"text/plain"}}
	o := reqOpt{method: "POST", hdr: h, stall: x.own}
	switch op.S {
	case "garbage":
		body = "ssh-ed25519 AAAA nobody"
	case "nocsrf":
		h.Del("X-Csrf-Check")
	case "badct":
		h.Set("Content-Type", "application/x-pem-file")
	case "get":
		o.method, body, o.stall = "GET", "", 0
	case "anon":
		o.noJar = true
	case "opts":
		body = "command=\"/bin/sh\" " + body
	case "two":
		p2, _ := ssh.NewPublicKey(genKey(0).Public())
		body += string(ssh.MarshalAuthorizedKey(p2))
	}
	o.body = body
	if o.stall > 0 {
		s.w.fault("slow-request")
	}
	r := s.req(b, "https://ca.example.com/ssh/cert", o)
	x.r = r
	if r.err == nil && r.status == 200 {
		k, _, _, _, err := ssh.ParseAuthorizedKey([]byte(r.body))
		c, ok := k.(*ssh.Certificate)
		if err != nil || !ok {
			s.w.violate("P18", "bad-certificate", "request %s: %v", r.id, err)
		}
		x.cert = c
		s.w.probe("ssh-cert")
	}
	s.mu.Lock()
	s.sm.certs = append(s.sm.certs, x)
	s.mu.Unlock()
}

func (s *store) doPKI(b *browser, op *Op) {
	email := auUsers[s.user(b)].email
	p := -1
	if len(s.ss.PKI) > 0 {
		p = int(op.A) % len(s.ss.PKI)
	}
	switch op.K {
	case "issue":
		s.issue(b, op)
	case "revoke", "revchk":
		c := s.pickCert(op.B, p, int(op.D), email)
		if c == nil {
			return
		}
		s.ensureCA(b, p)
		rv := s.revoke(b, c, op.C&1 != 0)
		if op.K == "revchk" && rv.out == outAck {
			fs := []func(){
				func() { s.fetchCRL(b, op.A, op.C&2 != 0) },
				func() { s.fetchOCSP(b, c, op.C>>2&3) },
				func() { s.handshake(b, c, op.C>>4&3) },
			}
			s.parallel(fs...)
		}
	case "crl":
		s.fetchCRL(b, op.A, op.B != 0)
	case "ca":
		s.fetchCA(b, op.A)
	case "ocsp":
		if c := s.pickCert(op.B, p, int(op.D), email); c != nil {
			s.ensureCA(b, p)
			s.fetchOCSP(b, c, op.C)
		}
	case "hs":
		if c := s.pickCert(op.B, p, int(op.D), email); c != nil {
			s.handshake(b, c, op.C)
		}
	case "hsrevhs": // a session that outlives its certificate
		c := s.pickCert(op.B, p, 3, email)
		if c == nil {
			return
		}
		s.handshake(b, c, op.C|2)
		s.revoke(b, c, false)
		s.handshake(b, c, op.C|2)
	case "fwdset":
		c := s.issue(b, &Op{A: op.A, B: 0, C: 0}, "srv.internal")
		if c != nil {
			s.mu.Lock()
			s.pk.fwd = c
			s.pk.fwdFrom = s.w.since()
			s.mu.Unlock()
			s.fwd(b)
		}
	case "fwd":
		s.fwd(b)
	case "fwdrev":
		s.mu.Lock()
		c := s.pk.fwd
		s.mu.Unlock()
		if c != nil && c.owner == email {
			s.fwd(b)
			s.revoke(b, c, false)
			s.fwd(b)
		}
	case "list":
		s.list(b, op.A)
	case "slowlist":
		s.slowList(b, op)
	case "dl":
		if c := s.pickCert(op.B, p, 0, email); c != nil {
			s.download(b, c)
		}
	case "sshpub":
		s.sshPub(b)
	case "sshcert":
		s.sshCert(b, op)
	}
}

func (s *store) ensureCA(b *browser, p int) {
	if s.caCert(p) == nil {
		s.fetchCA(b, int64(p))
	}
}

func (s *store) parallel(fs ...func()) {
	ch := make(chan bool)
	for _, f := range fs {
		go func() { f(); ch <- true }()
	}
	for range fs {
		<-ch
	}
}

// finalPKI asks about everything once more.
func (s *store) finalPKI() {
	b := s.brs[0]
	for i := range s.ss.PKI {
		s.fetchCA(b, int64(i))
		s.list(b, int64(i))
		s.fetchCRL(b, int64(i), true)
		s.fetchCRL(b, int64(i), false)
	}
	s.mu.Lock()
	certs := append([]*pcert(nil), s.pk.certs...)
	s.mu.Unlock()
	for i, c := range certs {
		s.fetchOCSP(b, c, int64(i)&3)
		if i < 8 {
			s.handshake(b, c, int64(i)&1)
			s.download(b, c)
		}
	}
	s.fwd(b)
	if s.ss.SSH != "" {
		s.sshPub(b)
		s.sshCert(b, &Op{})
	}
}

// mayRevoked reports whether a certificate may be revoked by a time.
func (c *pcert) mayRevoked(t time.Duration) bool {
	for _, r := range c.rev {
		if r.out != outNone && r.r.sent <= t {
			return true
		}
	}
	return false
}

// mustRevoked reports whether its revocation was acknowledged by a time.
func (c *pcert) mustRevoked(t time.Duration) bool {
	for _, r := range c.rev {
		if r.out == outAck && r.r.done <= t {
			return true
		}
	}
	return false
}

func (s *store) judgePKI() {
	w := s.w
	m := s.pk
	now := func(r *aReq) (time.Time, time.Time) {
		lo, hi := s.wall(r.sent, r.done)
		return time.Unix(0, int64(lo*1e9)), time.Unix(0, int64(hi*1e9))
	}
	name := func(c *pcert) string { return fmt.Sprintf("certificate %.11s of %s", c.sn, c.owner) }
	cas := make([]*x509.Certificate, len(s.ss.PKI))
	// A certificate is not valid before it was made, nor before its CA's was.
	expired := func(c *pcert, r *aReq) (may, must bool) {
		lo, hi := now(r)
		from := c.cert.NotBefore
		if ca := cas[c.pki]; ca != nil && ca.NotBefore.After(from) {
			from = ca.NotBefore
		}
		if hi.Before(c.cert.NotBefore) || lo.After(c.cert.NotAfter) {
			return true, true
		}
		if lo.Before(from.Add(2*time.Second)) && s.back || hi.After(c.cert.NotAfter.Add(-2*time.Second)) {
			return true, false
		}
		return false, false
	}
	bySN := map[string]*pcert{}
	for _, c := range m.certs {
		k := fmt.Sprintf("%d %s", c.pki, c.sn)
		if bySN[k] != nil {
			w.violate("P16", "serial-reused", "two certificates have serial number %s", c.sn)
		}
		bySN[k] = c
	}
	// The CA's identity.
	dels := make([][]*x509.Certificate, len(s.ss.PKI))
	for _, c := range m.cas {
		if len(c.l) == 0 {
			if c.r.err == nil && s.quiet(c.r.sent, c.r.done) {
				w.violate("P16", "no-ca", "request %s for the CA certificate: status %d", c.r.id, c.r.status)
			}
			continue
		}
		w.check()
		if cas[c.pki] == nil {
			cas[c.pki] = c.l[0]
			if err := c.l[0].CheckSignatureFrom(c.l[0]); err != nil || !c.l[0].IsCA {
				w.violate("P16", "bad-ca-cert", "the CA certificate is not a self-signed CA certificate: %v", err)
			}
		}
		if !bytes.Equal(cas[c.pki].Raw, c.l[0].Raw) {
			w.violate("P16", "ca-changed", "request %s: the CA certificate of %s has changed", c.r.id, s.ss.PKI[c.pki].Name)
		}
		for _, d := range c.l[1:] {
			if err := d.CheckSignatureFrom(cas[c.pki]); err != nil {
				w.violate("P17", "bad-delegate", "request %s: the delegate certificate does not verify: %v", c.r.id, err)
			}
			dels[c.pki] = append(dels[c.pki], d)
		}
	}
	// Issued certificates.
	byTag := map[string]*issueRec{}
	for _, is := range m.issues {
		if is.csr.Subject.CommonName != "" {
			byTag[fmt.Sprintf("%d %s", is.pki, is.tag)] = is
		}
		r := is.r
		if r == nil {
			continue
		}
		may, must, users := s.admitted(r)
		w.check()
		if is.out == outAck && !may {
			w.violate("P16", "unauthorized", "request %s (browser %d) got a certificate without a sufficient credential (%s)", r.id, r.br, s.explain(r))
		}
		if is.out == outAck && is.bad != "" {
			w.violate("P16", "bad-request", "request %s (%s) got a certificate", r.id, is.bad)
		}
		if is.out != outAck && r.err == nil && must && is.bad == "" && s.quiet(r.sent, r.done) {
			w.violate("P16", "not-issued", "request %s for a certificate failed with status %d although nothing was wrong", r.id, r.status)
		}
		s.slow(r, "P16", is.own)
		c := is.cert
		if c == nil {
			continue
		}
		user := -1
		for u := range users {
			if len(c.EmailAddresses) == 1 && c.EmailAddresses[0] == auUsers[u].email {
				user = u
			}
		}
		cn := ""
		if user >= 0 {
			cn = auUsers[user].email
			if is.csr.Subject.CommonName != "" {
				cn += "::" + is.csr.Subject.CommonName
			}
		}
		if user < 0 || c.Subject.String() != (pkix.Name{CommonName: cn}).String() || len(c.IPAddresses) > 0 || len(c.URIs) > 0 || !slices.Equal(c.DNSNames, is.csr.DNSNames) {
			w.violate("P16", "names", "request %s of %v got a certificate for %q, emails %v, DNS %v, IP %v, URIs %v", r.id, users, c.Subject.String(), c.EmailAddresses, c.DNSNames, c.IPAddresses, c.URIs)
		}
		type eq interface{ Equal(crypto.PublicKey) bool }
		if k, ok := is.key.Public().(eq); !ok || !k.Equal(c.PublicKey) {
			w.violate("P16", "key", "request %s got a certificate for another key", r.id)
		}
		if c.IsCA || c.KeyUsage&(x509.KeyUsageCertSign|x509.KeyUsageCRLSign) != 0 {
			w.violate("P16", "is-ca", "request %s got a CA certificate", r.id)
		}
		if cas[is.pki] != nil {
			if err := c.CheckSignatureFrom(cas[is.pki]); err != nil {
				w.violate("P16", "unverifiable", "the certificate issued to %s does not verify against the CA: %v", r.id, err)
			}
		}
		lo, hi := now(r)
		if c.NotBefore.After(hi.Add(time.Second)) || c.NotAfter.Before(lo.Add(time.Hour)) {
			w.violate("P16", "validity", "the certificate issued to %s at %v is valid from %v to %v", r.id, lo, c.NotBefore, c.NotAfter)
		}
	}
	// Revocations.
	for _, rv := range m.revs {
		r := rv.r
		if r.id == "" {
			continue
		}
		w.check()
		may, must, users := s.admitted(r)
		entitled := false
		allEntitled := len(users) > 0
		for u := range users {
			e := auUsers[u].email
			ok := e == rv.c.owner || rv.admin && slices.Contains(s.ss.PKI[rv.c.pki].Admins, e)
			entitled = entitled || ok
			allEntitled = allEntitled && ok
		}
		if rv.out == outAck && (!may || !entitled) {
			w.violate("P17", "unauthorized", "request %s (browser %d) revoked the %s without being entitled to (%s)", r.id, r.br, name(rv.c), s.explain(r))
		}
		other := false
		for _, o := range rv.c.rev {
			if o != rv && o.out != outNone && o.r.sent <= r.done {
				other = true
			}
		}
		ex, _ := expired(rv.c, r)
		if rv.out != outAck && r.err == nil && must && allEntitled && !other && !ex && s.quiet(r.sent, r.done) {
			w.violate("P17", "not-revoked", "request %s to revoke the %s failed with status %d %q although nothing was wrong", r.id, name(rv.c), r.status, rv.res)
		}
		s.slow(r, "P17", 0)
	}
	// CRLs.
	type obs struct {
		at   time.Duration
		what string
	}
	seenRev := map[*pcert]obs{} // earliest time it was seen revoked
	see := func(c *pcert, r *aReq, what string) {
		if o, ok := seenRev[c]; !ok || r.done < o.at {
			seenRev[c] = obs{r.done, what + " " + r.id}
		}
	}
	byNum := map[string]*crlRec{}
	var prev []*crlRec
	for _, c := range m.crls {
		if c.rl == nil {
			if c.r.err == nil && s.quiet(c.r.sent, c.r.done) {
				w.violate("P17", "no-crl", "request %s for a CRL failed with status %d although nothing was wrong", c.r.id, c.r.status)
			}
			continue
		}
		w.check()
		s.slow(c.r, "P17", 0)
		lo, hi := now(c.r)
		if c.rl.ThisUpdate.After(hi.Add(time.Second)) || c.rl.NextUpdate.Before(lo.Add(-time.Second)) {
			w.violate("P17", "crl-not-current", "the CRL served to %s at %v is for %v to %v", c.r.id, lo.UTC(), c.rl.ThisUpdate, c.rl.NextUpdate)
		}
		listed := map[string]bool{}
		for _, e := range c.rl.RevokedCertificateEntries {
			listed[hexColon(e.SerialNumber.Bytes())] = true
		}
		for _, x := range m.certs {
			if x.pki != c.pki {
				continue
			}
			if x.mustRevoked(c.r.sent) && !listed[x.sn] {
				if _, must := expired(x, c.r); !must {
					w.violate("P17", "crl-omits", "the CRL %s served to %s omits the %s, whose revocation was acknowledged before", c.rl.Number, c.r.id, name(x))
				}
			}
			if listed[x.sn] {
				if !x.mayRevoked(c.r.done) {
					w.violate("P17", "crl-false", "the CRL %s served to %s lists the %s, which was never revoked", c.rl.Number, c.r.id, name(x))
				}
				see(x, c.r, "CRL")
			}
		}
		for sn := range listed {
			if bySN[fmt.Sprintf("%d %s", c.pki, sn)] == nil {
				// Only what an unacknowledged request left behind could be
				// there, and nobody knows its serial number.
				w.violate("P17", "crl-false", "the CRL served to %s lists %s, which is not a certificate that was revoked", c.r.id, sn)
			}
		}
		if c.signer != nil {
			dels[c.pki] = append(dels[c.pki], c.signer)
			if cas[c.pki] != nil {
				if err := c.signer.CheckSignatureFrom(cas[c.pki]); err != nil {
					w.violate("P17", "bad-delegate", "request %s: the certificate of the CRL's signer does not verify: %v", c.r.id, err)
				}
			}
			if err := c.rl.CheckSignatureFrom(c.signer); err != nil {
				w.violate("P17", "crl-signature", "the CRL served to %s does not verify: %v", c.r.id, err)
			}
			if c.signer.NotAfter.Before(lo.Add(-time.Second)) && !s.back {
				w.violate("P17", "crl-signer-expired", "the CRL served to %s is signed by a certificate that expired %v ago", c.r.id, lo.Sub(c.signer.NotAfter))
			}
		}
		k := fmt.Sprintf("%d %v", c.pki, c.rl.Number)
		if o := byNum[k]; o != nil && !bytes.Equal(o.raw, c.raw) {
			w.violate("P17", "crl-number-reused", "two different CRLs have number %s (%s and %s)", c.rl.Number, o.r.id, c.r.id)
		}
		byNum[k] = c
		for _, o := range prev {
			if o.pki == c.pki && (o.r.done <= c.r.sent && o.rl.Number.Cmp(c.rl.Number) > 0 || c.r.done <= o.r.sent && c.rl.Number.Cmp(o.rl.Number) > 0) {
				w.violate("P17", "crl-number-back", "CRL number %s (%s) and %s (%s) are out of order", o.rl.Number, o.r.id, c.rl.Number, c.r.id)
			}
		}
		prev = append(prev, c)
	}
	for _, c := range m.crls {
		if c.rl == nil || c.signer != nil || len(dels[c.pki]) == 0 {
			continue
		}
		known, ok := false, false
		for _, d := range dels[c.pki] {
			if bytes.Equal(d.SubjectKeyId, c.rl.AuthorityKeyId) {
				known = true
				ok = ok || c.rl.CheckSignatureFrom(d) == nil
			}
		}
		if known && !ok {
			w.violate("P17", "crl-signature", "the CRL served to %s does not verify", c.r.id)
		}
	}
	// OCSP.
	for _, o := range m.ocsps {
		s.slow(o.r, "P17", 0)
		if o.raw == nil {
			if o.r.err == nil && s.quiet(o.r.sent, o.r.done) {
				w.violate("P17", "no-ocsp", "OCSP request %s failed with status %d although nothing was wrong", o.r.id, o.r.status)
			}
			continue
		}
		if cas[o.pki] == nil {
			continue
		}
		w.check()
		resp, err := ocsp.ParseResponse(o.raw, cas[o.pki])
		if err != nil {
			w.violate("P17", "ocsp-unverifiable", "the OCSP response to %s does not verify: %v", o.r.id, err)
			continue
		}
		lo, hi := now(o.r)
		if resp.ThisUpdate.After(hi.Add(time.Second)) || resp.NextUpdate.Before(lo.Add(-time.Second)) {
			w.violate("P17", "ocsp-not-current", "the OCSP response to %s at %v is for %v to %v", o.r.id, lo.UTC(), resp.ThisUpdate, resp.NextUpdate)
		}
		if resp.SerialNumber.Cmp(o.sn) != 0 {
			w.violate("P17", "ocsp-serial", "the OCSP response to %s is about another certificate", o.r.id)
			continue
		}
		d := resp.Certificate
		if d == nil || !slices.Contains(d.ExtKeyUsage, x509.ExtKeyUsageOCSPSigning) {
			w.violate("P17", "ocsp-delegate", "the OCSP response to %s is not signed by an OCSP delegate", o.r.id)
		} else if d.NotAfter.Before(lo.Add(-time.Second)) && !s.back {
			w.violate("P17", "ocsp-delegate", "the OCSP response to %s is signed by a certificate that expired %v ago", o.r.id, lo.Sub(d.NotAfter))
		}
		switch o.want {
		case "unknown":
			if resp.Status == ocsp.Good {
				w.violate("P17", "ocsp-false", "the OCSP response to %s says good for a serial number that was never issued", o.r.id)
			}
			continue
		case "issuer":
			if resp.Status == ocsp.Good {
				w.violate("P17", "ocsp-false", "the OCSP response to %s says good for another issuer", o.r.id)
			}
			continue
		}
		switch resp.Status {
		case ocsp.Revoked:
			if !o.c.mayRevoked(o.r.done) {
				w.violate("P17", "ocsp-false", "the OCSP response to %s says revoked (reason %d) for the %s, which was never revoked", o.r.id, resp.RevocationReason, name(o.c))
			}
			see(o.c, o.r, "OCSP")
		case ocsp.Good:
			if o.c.mustRevoked(o.r.sent) {
				w.violate("P17", "ocsp-good", "the OCSP response to %s says good for the %s, whose revocation was acknowledged before", o.r.id, name(o.c))
			}
		default:
			w.violate("P17", "ocsp-unknown", "the OCSP response to %s says unknown for the %s", o.r.id, name(o.c))
		}
	}
	// Handshakes.
	for _, h := range m.hss {
		if !h.r.finished {
			continue
		}
		w.check()
		srvCert := len(h.c.cert.DNSNames) > 0
		if h.ok {
			w.probe(h.what + "-accepted")
			if h.c.mustRevoked(h.r.sent) {
				w.violate("P17", h.what+"-accepts-revoked", "request %s was served with the %s, whose revocation was acknowledged before", h.r.id, name(h.c))
			}
			if _, must := expired(h.c, h.r); must {
				w.violate("P17", h.what+"-accepts-expired", "request %s was served with the %s, which is not valid at that time", h.r.id, name(h.c))
			}
			if srvCert != (h.what == "fwd") {
				w.violate("P02", "wrong-usage", "request %s was served with the %s, which is not meant for it", h.r.id, name(h.c))
			}
			continue
		}
		w.probe(h.what + "-refused")
		ex, _ := expired(h.c, h.r)
		if !h.c.mayRevoked(h.r.done) && !ex && srvCert == (h.what == "fwd") && s.quiet(h.r.sent, h.r.done) && !s.reconfed(h.r.sent, h.r.done) {
			w.violate("P17", h.what+"-refuses-valid", "request %s was refused (%v, status %d) with the %s, which is valid", h.r.id, h.r.err, h.r.status, name(h.c))
		}
	}
	// Lists.
	type entSeen struct {
		at time.Duration
		id string
	}
	firstSeen := map[string]entSeen{}
	for _, l := range m.lists {
		may, must, _ := s.admitted(l.r)
		if l.pki < 0 {
			if l.r.err == nil && must && s.quiet(l.r.sent, l.r.done) {
				w.violate("P16", "no-list", "request %s for the list of certificates failed with status %d although nothing was wrong", l.r.id, l.r.status)
			}
			continue
		}
		s.slow(l.r, "P16", 0)
		w.check()
		if !may {
			w.violate("P16", "unauthorized", "request %s (browser %d) got the list of certificates without a sufficient credential (%s)", l.r.id, l.r.br, s.explain(l.r))
		}
		in := map[string]string{}
		for _, e := range l.l {
			if _, ok := in[e.sn]; ok {
				w.violate("P16", "listed-twice", "%s is twice in the list given to %s", e.sn, l.r.id)
			}
			in[e.sn] = e.status
			k := fmt.Sprintf("%d %s", l.pki, e.sn)
			if f, ok := firstSeen[k]; !ok || l.r.done < f.at {
				firstSeen[k] = entSeen{l.r.done, l.r.id}
			}
			if bySN[k] == nil {
				if _, cn, ok := strings.Cut(e.subject, "::"); ok {
					if is := byTag[fmt.Sprintf("%d %s", l.pki, cn)]; is == nil || is.out == outNone {
						w.violate("P16", "failed-issue-listed", "the list given to %s has %s (%s), whose issue failed", l.r.id, e.sn, e.subject)
					}
				}
			}
		}
		for _, c := range m.certs {
			if c.pki != l.pki || c.ack > l.r.sent {
				continue
			}
			st, ok := in[c.sn]
			if !ok {
				w.violate("P16", "cert-lost", "the %s, issued before, is not in the list given to %s", name(c), l.r.id)
				continue
			}
			if st == "Revoked" {
				if !c.mayRevoked(l.r.done) {
					w.violate("P16", "list-false", "the list given to %s shows the %s, which was never revoked, as revoked", l.r.id, name(c))
				}
				see(c, l.r, "list")
			} else if c.mustRevoked(l.r.sent) {
				w.violate("P16", "list-omits", "the list given to %s shows the %s, whose revocation was acknowledged before, as %s", l.r.id, name(c), st)
			}
		}
	}
	for _, l := range m.lists {
		if l.pki < 0 {
			continue
		}
		for k, f := range firstSeen {
			var p int
			var sn string
			fmt.Sscanf(k, "%d %s", &p, &sn)
			if p != l.pki || f.at > l.r.sent {
				continue
			}
			if !slices.ContainsFunc(l.l, func(e listEnt) bool { return e.sn == sn }) {
				w.violate("P16", "cert-lost", "certificate %s, seen by %s, is not in the list given to %s", sn, f.id, l.r.id)
			}
		}
	}
	for _, d := range m.dls {
		_, must, _ := s.admitted(d.r)
		if d.r.err != nil || d.c.mayRevoked(d.r.done) || !must || !s.quiet(d.r.sent, d.r.done) {
			continue
		}
		w.check()
		blk, _ := pem.Decode([]byte(d.r.body))
		if blk == nil || !bytes.Equal(blk.Bytes, d.c.cert.Raw) {
			w.violate("P16", "download", "request %s did not get the %s back (status %d)", d.r.id, name(d.c), d.r.status)
		}
	}
	// What was seen revoked stays so.
	for c, o := range seenRev {
		for _, h := range m.hss {
			if h.c == c && h.ok && h.r.sent >= o.at {
				w.violate("P17", h.what+"-accepts-revoked", "request %s was served with the %s, which %s showed as revoked", h.r.id, name(c), o.what)
			}
		}
		for _, q := range m.crls {
			if q.rl != nil && q.pki == c.pki && q.r.sent >= o.at {
				if _, must := expired(c, q.r); must {
					continue
				}
				if !slices.ContainsFunc(q.rl.RevokedCertificateEntries, func(e x509.RevocationListEntry) bool { return e.SerialNumber.Cmp(c.cert.SerialNumber) == 0 }) {
					w.violate("P17", "crl-omits", "the CRL %s served to %s omits the %s, which %s showed as revoked", q.rl.Number, q.r.id, name(c), o.what)
				}
			}
		}
		for _, q := range m.ocsps {
			if q.c == c && q.want == "" && q.raw != nil && q.r.sent >= o.at && cas[c.pki] != nil {
				if resp, err := ocsp.ParseResponse(q.raw, cas[c.pki]); err == nil && resp.Status == ocsp.Good {
					w.violate("P17", "ocsp-good", "the OCSP response to %s says good for the %s, which %s showed as revoked", q.r.id, name(c), o.what)
				}
			}
		}
	}
}

// reconfed reports whether a reconfiguration was under way.
func (s *store) reconfed(from, to time.Duration) bool {
	for _, v := range s.vers[1:] {
		if v.from <= to && v.ret >= from {
			return true
		}
	}
	return false
}

func (s *store) judgeSSH() {
	w := s.w
	m := s.sm
	var ca ssh.PublicKey
	for _, x := range m.pubs {
		s.slow(x.r, "P18", 0)
		if x.pub == nil {
			if x.r.err == nil && s.quiet(x.r.sent, x.r.done) {
				w.violate("P18", "no-public-key", "request %s for the public key failed with status %d although nothing was wrong", x.r.id, x.r.status)
			}
			continue
		}
		w.check()
		if ca == nil {
			ca = x.pub
		}
		if !bytes.Equal(ca.Marshal(), x.pub.Marshal()) {
			w.violate("P18", "ca-changed", "request %s: the SSH CA's public key has changed", x.r.id)
		}
	}
	serials := map[uint64]string{}
	for _, x := range m.certs {
		r := x.r
		may, must, users := s.admitted(r)
		s.slow(r, "P18", x.own)
		c := x.cert
		if c == nil {
			if r.err == nil && must && (x.bad == "" || x.bad == "two" || x.bad == "opts") && s.quiet(r.sent, r.done) {
				w.violate("P18", "not-issued", "request %s for an SSH certificate failed with status %d although nothing was wrong", r.id, r.status)
			}
			continue
		}
		w.check()
		if !may || len(users) == 0 {
			w.violate("P18", "unauthorized", "request %s (browser %d) got an SSH certificate without a sufficient credential (%s)", r.id, r.br, s.explain(r))
			continue
		}
		if x.bad != "" && x.bad != "two" && x.bad != "opts" {
			w.violate("P18", "bad-request", "request %s (%s) got an SSH certificate", r.id, x.bad)
		}
		ok := false
		for u := range users {
			if len(c.ValidPrincipals) == 1 && c.ValidPrincipals[0] == auUsers[u].email && c.KeyId == auUsers[u].email {
				ok = true
			}
		}
		if !ok {
			w.violate("P18", "principals", "request %s of %v got an SSH certificate for %q, key id %q", r.id, users, c.ValidPrincipals, c.KeyId)
		}
		if !bytes.Equal(c.Key.Marshal(), x.pub.Marshal()) {
			w.violate("P18", "key", "request %s got an SSH certificate for another key", r.id)
		}
		if ca != nil && !bytes.Equal(c.SignatureKey.Marshal(), ca.Marshal()) {
			w.violate("P18", "signer", "request %s got an SSH certificate that is not signed with the published key", r.id)
		}
		lo, hi := s.wall(r.sent, r.done)
		chk := &ssh.CertChecker{Clock: func() time.Time { return time.Unix(int64(c.ValidAfter), 0) }}
		if err := chk.CheckCert(c.ValidPrincipals[0], c); err != nil {
			w.violate("P18", "unverifiable", "the SSH certificate of %s does not verify: %v", r.id, err)
		}
		if c.CertType != ssh.UserCert || len(c.CriticalOptions) > 0 {
			w.violate("P18", "type", "request %s got an SSH certificate of type %d, options %v", r.id, c.CertType, c.CriticalOptions)
		}
		if float64(c.ValidAfter) > hi+1 || float64(c.ValidAfter) < lo-310 || float64(c.ValidBefore) > hi+601 || float64(c.ValidBefore) < lo+590 {
			w.violate("P18", "validity", "the SSH certificate of %s, issued at %.0f, is valid from %d to %d", r.id, lo, c.ValidAfter, c.ValidBefore)
		}
		if o := serials[c.Serial]; o != "" {
			w.violate("P18", "serial-reused", "the SSH certificates of %s and %s have the same serial number", o, r.id)
		}
		serials[c.Serial] = r.id
	}
}

func runPKI(w *World) {
	s := newStore(w)
	s.sm = &sshModel{}
	s.initPKI()
	if !s.boot() {
		return
	}
	w.ev("started")
	w.perturb()
	s.start()
	if !s.run(s.doPKI) {
		return
	}
	s.finalPKI()
	s.end()
	s.judgeAll()
	s.judgePKI()
	if s.ss.SSH != "" {
		s.judgeSSH()
	}
}

var _ = hex.EncodeToString
