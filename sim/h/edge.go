package main

// The edge world: clients, the proxy, and backend servers, with stream
// protocols (this file) and HTTP (edge_http.go).

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/c2FmZQ/tlsproxy/proxy"
	"github.com/pires/go-proxyproto"
)

type BeSpec struct {
	Names    []string   `json:"names"`
	Mode     string     `json:"mode"`
	ALPN     *[]string  `json:"alpn,omitempty"`
	Addrs    []int      `json:"addrs,omitempty"`
	Allow    *[]string  `json:"allow,omitempty"`
	Deny     *[]string  `json:"deny,omitempty"`
	CAs      []int      `json:"cas,omitempty"` // client auth if not empty
	ACL      *[]string  `json:"acl,omitempty"`
	XFCC     []string   `json:"xfcc,omitempty"`
	PP       string     `json:"pp,omitempty"`
	Rate     int        `json:"rate,omitempty"`
	BW       string     `json:"bw,omitempty"`
	HalfMs   int64      `json:"half,omitempty"`
	SClose   *bool      `json:"sclose,omitempty"`
	CClose   *bool      `json:"cclose,omitempty"`
	TimeoutS int        `json:"timeout,omitempty"`
	Proto    *string    `json:"proto,omitempty"`
	Over     []OverSpec `json:"over,omitempty"`
}

type OverSpec struct {
	Paths []string `json:"paths"`
	Addrs []int    `json:"addrs"`
	PP    string   `json:"pp,omitempty"`
	Proto *string  `json:"proto,omitempty"`
}

type BWSpec struct {
	Name string  `json:"name"`
	In   float64 `json:"in"`
	Out  float64 `json:"out"`
}

type CfgSpec struct {
	Be      []BeSpec `json:"be"`
	Def     string   `json:"def,omitempty"`
	Trust   []string `json:"trust,omitempty"`
	MaxOpen int      `json:"maxopen,omitempty"`
	BW      []BWSpec `json:"bw,omitempty"`
	Bad     string   `json:"bad,omitempty"` // makes the configuration invalid
}

// ConnSpec is one stream connection.
type ConnSpec struct {
	Src    string   `json:"src"`
	Via    string   `json:"via,omitempty"` // PROXY header version: v1, v2
	ViaSrc string   `json:"viasrc,omitempty"`
	SNI    string   `json:"sni"`
	ALPN   []string `json:"alpn,omitempty"`
	Cert   int      `json:"cert,omitempty"` // index+1 in the certificate table
	Max12  bool     `json:"max12,omitempty"`
	Resume int      `json:"resume,omitempty"` // session cache number
	Up     int      `json:"up"`
	Down   int      `json:"down"`
	Chunk  int      `json:"chunk,omitempty"`
	GapMs  int64    `json:"gap,omitempty"`  // pause between client writes
	RdGap  int64    `json:"rgap,omitempty"` // pause between client reads
	End    string   `json:"end"`
	SrvEnd string   `json:"send"`
	SrvMs  int64    `json:"sms,omitempty"`
	HoldMs int64    `json:"hold,omitempty"`
	Hello  string   `json:"hello,omitempty"`
	HelloN int      `json:"hellon,omitempty"`
}

const (
	portRaw     = 7000
	portRawPP   = 7001
	portTLS     = 7443
	portTLSPP   = 7444
	portHTTP    = 8080
	portHTTPPP  = 8081
	portHTTPS   = 8443
	portHTTPSPP = 8444
)

type certInfo struct {
	ca    int
	cert  tls.Certificate
	leaf  *x509.Certificate
	valid bool // by time and usage
	ids   []string
}

// ConnRec is what happened to a connection.
type ConnRec struct {
	Op       int
	Key      uint32
	Spec     *ConnSpec
	sock     *simConn
	tStart   time.Duration
	tSettle  time.Duration // outcome known
	tEnd     time.Duration
	dialErr  error
	hsDone   bool
	proto    string
	greeted  int // server index, -1
	greetSeq uint32
	err      error
	alert    int
	sent     int
	sentAll  bool
	got      int
	corrupt  string
	eof      bool
	finAt    time.Duration
	done     bool
	closedOK bool
}

// SrvRec is what a backend server saw of a connection.
type SrvRec struct {
	Srv      int
	Seq      uint32
	Port     int
	Key      uint32
	sock     *simConn
	tAccept  time.Duration
	tHeader  time.Duration
	tEnd     time.Duration
	ppSrc    string
	ppDst    string
	ppErr    error
	proto    string
	sni      string
	got      int
	corrupt  string
	eof      bool
	err      error
	sent     int
	sentAll  bool
	closedAt time.Duration // when the server closed or half-closed its side
	clean    bool
	late     bool
}

type cfgVer struct {
	spec     *CfgSpec
	from     time.Duration // reconfigure called
	ret      time.Duration // reconfigure returned
	until    time.Duration // next version returned
	accepted bool
}

type edge struct {
	w           *World
	prop        string
	node        uint32
	addr        string
	p           *proxy.Proxy
	srvs        []*edgeServer
	cas         []*x509.Certificate
	caPEM       []string
	certs       []*certInfo
	srvCA       string
	mu          sync.Mutex
	conns       []*ConnRec
	srec        []*SrvRec
	vers        []*cfgVer
	cfgs        []CfgSpec
	caches      map[int]tls.ClientSessionCache
	hconns      []*HConnRec
	hreqs       []*ReqRec
	hsrv        []*HSrvRec
	shutAt      time.Duration // -1
	shutDl      time.Duration
	shutRet     time.Duration
	reconfigBad []string
	wg          sync.WaitGroup
	perFault    map[string]bool
	base        time.Duration
	dials       []dialRec
	parts       [][2]time.Duration
	partWho     [][2]string
	quiet       time.Duration
}

type edgeServer struct {
	e    *edge
	idx  int
	ip   string
	node uint32
	tc   *tls.Config
	seq  uint32
}

func caKeyPair(name string, rootName string) (*ecdsa.PrivateKey, *x509.Certificate) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{
		SerialNumber:          big.NewInt(1),
		Subject:               pkix.Name{CommonName: name},
		NotBefore:             time.Unix(0, baseTime).Add(-24 * 40 * time.Hour),
		NotAfter:              time.Unix(0, baseTime).Add(20 * 365 * 24 * time.Hour),
		KeyUsage:              x509.KeyUsageCertSign | x509.KeyUsageCRLSign,
		BasicConstraintsValid: true,
		IsCA:                  true,
	}
	b, err := x509.CreateCertificate(rand.Reader, t, t, k.Public(), k)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(b)
	return k, c
}

func issueCert(ca *x509.Certificate, cak *ecdsa.PrivateKey, t *x509.Certificate) tls.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	if t.SerialNumber == nil {
		t.SerialNumber, _ = rand.Int(rand.Reader, big.NewInt(1<<60))
	}
	if t.NotBefore.IsZero() {
		t.NotBefore = time.Unix(0, baseTime).Add(-time.Hour)
		t.NotAfter = time.Unix(0, baseTime).Add(10 * 365 * 24 * time.Hour)
	}
	if t.KeyUsage == 0 {
		t.KeyUsage = x509.KeyUsageDigitalSignature
	}
	b, err := x509.CreateCertificate(rand.Reader, t, ca, k.Public(), cak)
	if err != nil {
		panic(err)
	}
	leaf, _ := x509.ParseCertificate(b)
	return tls.Certificate{Certificate: [][]byte{b}, PrivateKey: k, Leaf: leaf}
}

func certPEM(c *x509.Certificate) string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.Raw}))
}

// The certificates clients have, in this order:
//
//	1 CA0 CN=alice DNS:alice.example EMAIL:alice@example.com
//	2 CA0 CN=bob   EMAIL:bob@example.com URI:spiffe://example/bob
//	3 CA1 CN=alice (same names as 1, other CA)
//	4 CA1 CN=carol EMAIL:carol@example.com
//	5 CA0 CN=alice, expired
//	6 CA0 CN=alice, server usage only
//	7 self-signed CN=alice
//	8 CA0 no subject, DNS:dave.example
const numCerts = 8

func (e *edge) makeCerts() {
	var keys []*ecdsa.PrivateKey
	for i := 0; i < 2; i++ {
		k, c := caKeyPair(fmt.Sprintf("client ca %d", i), "")
		keys = append(keys, k)
		e.cas = append(e.cas, c)
		e.caPEM = append(e.caPEM, certPEM(c))
	}
	selfK, selfC := caKeyPair("client ca 0", "")
	cu := []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	su := []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	bobURI, _ := url.Parse("spiffe://example/bob")
	add := func(ca int, valid bool, t *x509.Certificate, ids ...string) {
		cc, ck := selfC, selfK
		if ca >= 0 {
			cc, ck = e.cas[ca], keys[ca]
		}
		c := issueCert(cc, ck, t)
		e.certs = append(e.certs, &certInfo{ca: ca, cert: c, leaf: c.Leaf, valid: valid, ids: ids})
	}
	alice := func(u []x509.ExtKeyUsage) *x509.Certificate {
		return &x509.Certificate{Subject: pkix.Name{CommonName: "alice"}, DNSNames: []string{"alice.example"}, EmailAddresses: []string{"alice@example.com"}, ExtKeyUsage: u}
	}
	aliceIDs := []string{"CN=alice", "SUBJECT:CN=alice", "DNS:alice.example", "EMAIL:alice@example.com"}
	add(0, true, alice(cu), aliceIDs...)
	add(0, true, &x509.Certificate{Subject: pkix.Name{CommonName: "bob"}, EmailAddresses: []string{"bob@example.com"}, URIs: []*url.URL{bobURI}, ExtKeyUsage: cu},
		"CN=bob", "SUBJECT:CN=bob", "EMAIL:bob@example.com", "URI:spiffe://example/bob")
	add(1, true, alice(cu), aliceIDs...)
	add(1, true, &x509.Certificate{Subject: pkix.Name{CommonName: "carol"}, EmailAddresses: []string{"carol@example.com"}, ExtKeyUsage: cu},
		"CN=carol", "SUBJECT:CN=carol", "EMAIL:carol@example.com")
	t := alice(cu)
	t.NotBefore = time.Unix(0, baseTime).Add(-100 * time.Hour)
	t.NotAfter = time.Unix(0, baseTime).Add(-time.Hour)
	add(0, false, t, aliceIDs...)
	add(0, false, alice(su), aliceIDs...)
	add(-1, true, alice(cu), aliceIDs...)
	add(0, true, &x509.Certificate{DNSNames: []string{"dave.example"}, ExtKeyUsage: cu}, "DNS:dave.example")
}

func (e *edge) proxyConfig(s *CfgSpec) *proxy.Config {
	c := &proxy.Config{
		TLSAddr:               e.addr,
		EnableQUIC:            ptr(false),
		CacheDir:              "/simdisk/edge",
		MaxOpen:               s.MaxOpen,
		DefaultServerName:     s.Def,
		AcceptProxyHeaderFrom: s.Trust,
	}
	if c.MaxOpen == 0 {
		c.MaxOpen = 1000
	}
	for _, b := range s.BW {
		c.BWLimits = append(c.BWLimits, &proxy.BWLimit{Name: b.Name, Ingress: b.In, Egress: b.Out})
	}
	for i := range s.Be {
		b := &s.Be[i]
		be := &proxy.Backend{
			ServerNames:               append([]string(nil), b.Names...),
			Mode:                      b.Mode,
			ALPNProtos:                b.ALPN,
			AllowIPs:                  b.Allow,
			DenyIPs:                   b.Deny,
			ProxyProtocolVersion:      b.PP,
			ForwardRateLimit:          b.Rate,
			BWLimit:                   b.BW,
			InsecureSkipVerify:        true,
			ServerCloseEndsConnection: b.SClose,
			ClientCloseEndsConnection: b.CClose,
			ForwardTimeout:            time.Duration(b.TimeoutS) * time.Second,
			BackendProto:              b.Proto,
		}
		if be.ForwardRateLimit == 0 {
			be.ForwardRateLimit = 100000
		}
		if b.HalfMs != 0 {
			be.HalfCloseTimeout = ptr(time.Duration(b.HalfMs) * time.Millisecond)
		}
		for _, a := range b.Addrs {
			be.Addresses = append(be.Addresses, e.srvAddr(a, b.Mode, b.PP))
		}
		if len(b.CAs) > 0 {
			be.ClientAuth = &proxy.ClientAuth{ACL: b.ACL, AddClientCertHeader: b.XFCC}
			for _, ca := range b.CAs {
				be.ClientAuth.RootCAs = append(be.ClientAuth.RootCAs, e.caPEM[ca])
			}
		}
		for _, o := range b.Over {
			po := &proxy.PathOverride{Paths: o.Paths, ProxyProtocolVersion: o.PP, InsecureSkipVerify: true, BackendProto: o.Proto}
			for _, a := range o.Addrs {
				po.Addresses = append(po.Addresses, e.srvAddr(a, b.Mode, o.PP))
			}
			be.PathOverrides = append(be.PathOverrides, po)
		}
		c.Backends = append(c.Backends, be)
	}
	switch s.Bad {
	case "mode":
		c.Backends = append(c.Backends, &proxy.Backend{ServerNames: []string{"bad.example.com"}, Mode: "NOSUCH"})
	case "dup":
		b := *c.Backends[0]
		c.Backends = append(c.Backends, &b)
	case "sso":
		c.Backends = append(c.Backends, &proxy.Backend{ServerNames: []string{"bad.example.com"}, Mode: "LOCAL", SSO: &proxy.BackendSSO{Provider: "nosuch"}})
	case "cidr":
		c.Backends = append(c.Backends, &proxy.Backend{ServerNames: []string{"bad.example.com"}, Mode: "TCP", Addresses: []string{"10.1.0.1:1"}, DenyIPs: &[]string{"300.1.2.3/8"}})
	case "oidc": // passes the static checks, fails when the provider is built
		c.OIDCProviders = append(c.OIDCProviders, &proxy.ConfigOIDC{Name: "x", DiscoveryURL: "http://10.250.0.1:81/none", RedirectURL: "https://bad.example.com/cb", ClientID: "x", ClientSecret: "y"})
	case "ca": // passes the static checks, fails when the certificates are loaded
		c.Backends = append(c.Backends, &proxy.Backend{ServerNames: []string{"bad.example.com"}, Mode: "TLS", Addresses: []string{"10.1.0.1:1"}, ClientAuth: &proxy.ClientAuth{RootCAs: []string{"-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"}}})
	case "sshca": // passes the static checks, fails at the very end
		c.SSHCertificateAuthorities = append(c.SSHCertificateAuthorities, &proxy.ConfigSSHCertificateAuthority{Name: "bad", KeyType: "nosuch"})
	case "fwdca":
		c.Backends = append(c.Backends, &proxy.Backend{ServerNames: []string{"bad.example.com"}, Mode: "TLS", Addresses: []string{"10.1.0.1:1"}, ForwardRootCAs: []string{"-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"}})
	}
	return c
}

func (e *edge) srvAddr(i int, mode, pp string) string {
	port := 0
	switch mode {
	case "TCP", "":
		port = portRaw
	case "TLS", "TLSPASSTHROUGH":
		port = portTLS
	case "HTTP":
		port = portHTTP
	case "HTTPS":
		port = portHTTPS
	}
	if pp != "" {
		port++
	}
	return fmt.Sprintf("10.1.0.%d:%d", i+1, port)
}

func newEdge(w *World) *edge {
	e := &edge{w: w, prop: w.plan.Property, addr: "10.0.0.1:443", caches: map[int]tls.ClientSessionCache{}, shutAt: -1, cfgs: w.plan.Cfgs, perFault: map[string]bool{}}
	if e.prop == "" {
		e.prop = strings.ToUpper(strings.TrimPrefix(w.plan.Scenario, "edge-"))
	}
	e.makeCerts()
	nsrv := int(w.param("servers"))
	k, ca := caKeyPair("server ca", "")
	for i := 0; i < nsrv; i++ {
		ip := fmt.Sprintf("10.1.0.%d", i+1)
		s := &edgeServer{e: e, idx: i, ip: ip, node: w.newNode(ip)}
		c := issueCert(ca, k, &x509.Certificate{Subject: pkix.Name{CommonName: "server"}, DNSNames: []string{"server.internal"}, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}})
		s.tc = &tls.Config{Certificates: []tls.Certificate{c}}
		e.srvs = append(e.srvs, s)
		s.start()
	}
	e.srvCA = certPEM(ca)
	return e
}

func (s *edgeServer) start() {
	for _, port := range []int{portRaw, portRawPP, portTLS, portTLSPP} {
		port := port
		s.e.w.in(s.node, func() {
			l, err := s.e.w.net.listen(s.node, "tcp", fmt.Sprintf("%s:%d", s.ip, port))
			if err != nil {
				panic(err)
			}
			go func() {
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					go s.serve(c.(*simConn), port)
				}
			}()
		})
	}
	s.startHTTP()
}

func (e *edge) startProxy(v int) bool {
	e.node = e.w.newNode("10.0.0.1")
	ok := false
	e.vers = append(e.vers, &cfgVer{spec: &e.cfgs[v], from: 0, ret: 0, until: 1 << 62, accepted: true})
	e.w.in(e.node, func() {
		p, err := proxy.NewTestProxy(e.proxyConfig(&e.cfgs[v]))
		if err != nil {
			e.w.ev("NewTestProxy: %v", err)
			e.w.violate(e.prop, "start", "NewTestProxy: %v", err)
			return
		}
		if err := p.Start(context.Background()); err != nil {
			e.w.violate(e.prop, "start", "Start: %v", err)
			return
		}
		e.p = p
		ok = true
	})
	return ok
}

// reconfigure switches to another configuration.
func (e *edge) reconfigure(v int) {
	s := &e.cfgs[v]
	ver := &cfgVer{spec: s, from: e.w.since(), until: 1 << 62}
	e.mu.Lock()
	if s.Bad == "" {
		e.vers = append(e.vers, ver)
	}
	e.mu.Unlock()
	var err error
	e.w.ev("reconfigure %d called", v)
	e.w.in(e.node, func() { err = e.p.Reconfigure(e.proxyConfig(s)) })
	now := e.w.since()
	e.w.ev("reconfigure %d returned err=%v", v, err != nil)
	e.mu.Lock()
	defer e.mu.Unlock()
	if s.Bad != "" {
		e.w.probe("reconfigure-bad")
		if err == nil {
			e.w.violate("P03", "bad-config-accepted", "configuration %d (%s) was accepted", v, s.Bad)
		}
		return
	}
	if err != nil {
		e.w.violate("P03", "good-config-rejected", "configuration %d was rejected: %v", v, err)
		e.reconfigBad = append(e.reconfigBad, err.Error())
		return
	}
	e.w.probe("reconfigure")
	ver.ret = now
	ver.accepted = true
	for _, o := range e.vers {
		if o != ver && o.until > now {
			o.until = now
		}
	}
}

// stream content

func streamByte(key uint32, dir int, pos int) byte {
	x := uint64(key)*0x9e3779b97f4a7c15 + uint64(dir)*0xbf58476d1ce4e5b9 + uint64(pos>>3)*0x94d049bb133111eb
	x ^= x >> 31
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 29
	return byte(x >> (8 * uint(pos&7)))
}

func fillStream(b []byte, key uint32, dir, pos int) {
	for i := range b {
		b[i] = streamByte(key, dir, pos+i)
	}
}

func checkStream(b []byte, key uint32, dir, pos int) string {
	for i := range b {
		if b[i] != streamByte(key, dir, pos+i) {
			return fmt.Sprintf("byte %d is %#x, want %#x", pos+i, b[i], streamByte(key, dir, pos+i))
		}
	}
	return ""
}

var srvEnds = []string{"eof", "fin", "close", "closeearly", "hold", "late", "abort"}

const (
	greetLen  = 8
	headerLen = 32
)

func (s *edgeServer) serve(sc *simConn, port int) {
	e := s.e
	s.seq++
	r := &SrvRec{Srv: s.idx, Seq: s.seq, Port: port, sock: sc, tAccept: e.w.since()}
	e.mu.Lock()
	e.srec = append(e.srec, r)
	e.mu.Unlock()
	defer func() {
		r.tEnd = e.w.since()
		e.w.ev("srv%d conn key=%d end got=%d eof=%v sent=%d corrupt=%q", s.idx, r.Key, r.got, r.eof, r.sent, r.corrupt)
	}()
	var c net.Conn = sc
	defer sc.Close()
	if port == portRawPP || port == portTLSPP {
		pc := proxyproto.NewConn(sc)
		sc.SetReadDeadline(time.Now().Add(time.Minute))
		h := pc.ProxyHeader()
		sc.SetReadDeadline(time.Time{})
		if h == nil {
			r.ppErr = errors.New("no PROXY header")
		} else {
			r.ppSrc = h.SourceAddr.String()
			r.ppDst = h.DestinationAddr.String()
		}
		c = pc
	}
	type closeWriter interface{ CloseWrite() error }
	cw := func() { sc.CloseWrite() }
	if port == portTLS || port == portTLSPP {
		tc := tls.Server(c, s.tc)
		sc.SetDeadline(time.Now().Add(5 * time.Minute))
		if err := tc.Handshake(); err != nil {
			r.err = err
			return
		}
		sc.SetDeadline(time.Time{})
		cs := tc.ConnectionState()
		r.proto, r.sni = cs.NegotiatedProtocol, cs.ServerName
		c = tc
		cw = func() { tc.CloseWrite() }
		defer tc.Close()
	}
	var g [greetLen]byte
	copy(g[:], "SV")
	binary.BigEndian.PutUint16(g[2:], uint16(s.idx))
	binary.BigEndian.PutUint32(g[4:], r.Seq)
	c.Write(g[:])
	var h [headerLen]byte
	if _, err := io.ReadFull(c, h[:]); err != nil {
		r.err = err
		return
	}
	if string(h[:4]) != "VSIM" {
		r.corrupt = fmt.Sprintf("header %x", h)
		return
	}
	r.Key = binary.BigEndian.Uint32(h[4:])
	up := int(binary.BigEndian.Uint32(h[8:]))
	down := int(binary.BigEndian.Uint32(h[12:]))
	end := srvEnds[int(h[16])%len(srvEnds)]
	delay := time.Duration(binary.BigEndian.Uint32(h[20:])) * time.Millisecond
	for i := 24; i < headerLen; i++ {
		if h[i] != streamByte(r.Key, 7, i) {
			r.corrupt = "header padding"
		}
	}
	r.tHeader = e.w.since()
	e.w.ev("srv%d conn key=%d header", s.idx, r.Key)
	gotAll := make(chan struct{})
	rdDone := make(chan struct{})
	go func() {
		defer close(rdDone)
		buf := make([]byte, 16384)
		all := false
		if up == 0 {
			all = true
			close(gotAll)
		}
		for {
			n, err := c.Read(buf)
			if n > 0 {
				if m := checkStream(buf[:n], r.Key, 0, r.got); m != "" && r.corrupt == "" {
					r.corrupt = "upstream " + m
				}
				r.got += n
				if r.got >= up && !all {
					all = true
					close(gotAll)
				}
			}
			if err != nil {
				if err == io.EOF {
					r.eof = true
				} else if r.closedAt == 0 {
					r.err = err
				}
				return
			}
		}
	}()
	send := func() bool {
		buf := make([]byte, 8192)
		for r.sent < down {
			b := buf[:min(len(buf), down-r.sent)]
			fillStream(b, r.Key, 1, r.sent)
			n, err := c.Write(b)
			r.sent += n
			if err != nil {
				return false
			}
		}
		r.sentAll = true
		return true
	}
	if end == "late" {
		<-rdDone
		time.Sleep(delay)
		r.late = true
	}
	ok := send()
	switch end {
	case "eof", "late":
		<-rdDone
	case "fin":
		r.closedAt = e.w.since()
		r.clean = ok
		cw()
		<-rdDone
		return
	case "close":
		select {
		case <-gotAll:
		case <-rdDone:
		}
	case "closeearly":
	case "hold":
		<-rdDone
		for i := 0; i < 600; i++ { // a broken server: it ignores the EOF
			time.Sleep(time.Second)
			e.w.net.mu.Lock()
			gone := sc.pair.ep[0].closed || sc.pair.rst
			e.w.net.mu.Unlock()
			if gone {
				break
			}
		}
	case "abort":
		r.closedAt = e.w.since()
		sc.Abort()
		return
	}
	r.closedAt = e.w.since()
	r.clean = ok
	c.Close()
}

// clients

func (e *edge) clientTLS(s *ConnSpec) *tls.Config {
	tc := &tls.Config{ServerName: s.SNI, InsecureSkipVerify: true, NextProtos: s.ALPN}
	if s.Max12 {
		tc.MaxVersion = tls.VersionTLS12
	}
	if s.Cert > 0 && s.Cert <= len(e.certs) {
		cert := e.certs[s.Cert-1].cert
		tc.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &cert, nil }
	}
	if s.Resume > 0 {
		e.mu.Lock()
		if e.caches[s.Resume] == nil {
			e.caches[s.Resume] = tls.NewLRUClientSessionCache(8)
		}
		tc.ClientSessionCache = e.caches[s.Resume]
		e.mu.Unlock()
	}
	return tc
}

func alertOf(err error) int {
	var a tls.AlertError
	if errors.As(err, &a) {
		return int(a)
	}
	var oe *net.OpError
	if errors.As(err, &oe) {
		// crypto/tls wraps its own alert type.
		switch s := oe.Err.Error(); {
		case strings.Contains(s, "unrecognized name"):
			return 0x70
		case strings.Contains(s, "internal error"):
			return 0x50
		case strings.Contains(s, "access denied"):
			return 0x31
		case strings.Contains(s, "bad certificate"):
			return 0x2a
		case strings.Contains(s, "revoked"):
			return 0x2c
		case strings.Contains(s, "certificate required"):
			return 0x74
		case strings.Contains(s, "close notify"):
			return 1000
		}
	}
	return 0
}

// dialProxy opens the TCP connection, with a PROXY header if there is one.
func (e *edge) dialProxy(src, via, viaSrc string, node uint32) (*simConn, error) {
	c, err := e.w.net.dial(context.Background(), node, src, "tcp", e.addr)
	if err != nil {
		return nil, err
	}
	sc := c.(*simConn)
	if via != "" {
		v := byte(1)
		if via == "v2" {
			v = 2
		}
		h := proxyproto.HeaderProxyFromAddrs(v, &net.TCPAddr{IP: net.ParseIP(viaSrc), Port: 33333}, sc.remote)
		h.Command = proxyproto.PROXY
		if _, err := h.WriteTo(sc); err != nil {
			sc.Close()
			return nil, err
		}
	}
	return sc, nil
}

func (e *edge) runConn(op int, s *ConnSpec) {
	r := &ConnRec{Op: op, Key: uint32(op + 1), Spec: s, greeted: -1, tStart: e.w.since()}
	e.mu.Lock()
	e.conns = append(e.conns, r)
	e.mu.Unlock()
	e.w.ev("client %d connects src=%s sni=%q alpn=%v cert=%d hello=%q", op, s.Src, s.SNI, s.ALPN, s.Cert, s.Hello)
	defer func() {
		r.tEnd = e.w.since()
		if r.tSettle == 0 {
			r.tSettle = r.tEnd
		}
		r.done = true
		e.w.ev("client %d done hs=%v srv=%d sent=%d got=%d eof=%v alert=%#x err=%v", op, r.hsDone, r.greeted, r.sent, r.got, r.eof, r.alert, r.err != nil)
	}()
	sc, err := e.dialProxy(s.Src, s.Via, s.ViaSrc, 0)
	if err != nil {
		r.dialErr = err
		return
	}
	r.sock = sc
	e.clientFaults(op, sc)
	defer sc.Close()
	if s.Hello != "" {
		e.oddHello(r, sc)
		return
	}
	hs := time.Now().Add(10 * time.Minute)
	sc.SetDeadline(hs)
	tc := tls.Client(sc, e.clientTLS(s))
	if err := tc.Handshake(); err != nil {
		r.err = err
		r.alert = alertOf(err)
		return
	}
	r.hsDone = true
	cs := tc.ConnectionState()
	r.proto = cs.NegotiatedProtocol
	if cs.DidResume {
		e.w.probe("resumed")
	}
	var g [greetLen]byte
	if _, err := io.ReadFull(tc, g[:]); err != nil {
		r.err = err
		r.alert = alertOf(err)
		return
	}
	if string(g[:2]) != "SV" {
		r.corrupt = fmt.Sprintf("greeting %x", g)
		return
	}
	r.greeted = int(binary.BigEndian.Uint16(g[2:]))
	r.greetSeq = binary.BigEndian.Uint32(g[4:])
	r.tSettle = e.w.since()
	sc.SetDeadline(time.Now().Add(30 * time.Minute))
	e.stream(r, sc, tc)
}

func (e *edge) stream(r *ConnRec, sc *simConn, tc *tls.Conn) {
	s := r.Spec
	var h [headerLen]byte
	copy(h[:], "VSIM")
	binary.BigEndian.PutUint32(h[4:], r.Key)
	binary.BigEndian.PutUint32(h[8:], uint32(s.Up))
	binary.BigEndian.PutUint32(h[12:], uint32(s.Down))
	for i, v := range srvEnds {
		if v == s.SrvEnd {
			h[16] = byte(i)
		}
	}
	binary.BigEndian.PutUint32(h[20:], uint32(s.SrvMs))
	for i := 24; i < headerLen; i++ {
		h[i] = streamByte(r.Key, 7, i)
	}
	if _, err := tc.Write(h[:]); err != nil {
		r.err = err
		return
	}
	rdDone := make(chan struct{})
	gotAll := make(chan struct{})
	go func() {
		defer close(rdDone)
		sz := 16384
		if s.RdGap > 0 {
			sz = 2000
		}
		buf := make([]byte, sz)
		slept := -1000
		all := false
		if s.Down == 0 {
			all = true
			close(gotAll)
		}
		for {
			n, err := tc.Read(buf)
			if n > 0 {
				if m := checkStream(buf[:n], r.Key, 1, r.got); m != "" && r.corrupt == "" {
					r.corrupt = "downstream " + m
				}
				r.got += n
				if r.got >= s.Down && !all {
					all = true
					close(gotAll)
				}
			}
			if err != nil {
				if err == io.EOF {
					r.eof = true
				} else if !r.closedOK {
					r.err = err
					if a := alertOf(err); a != 0 {
						r.alert = a
					}
				}
				return
			}
			if s.RdGap > 0 && r.got < 60000 && r.got >= slept+1000 {
				slept = r.got
				time.Sleep(time.Duration(s.RdGap) * time.Millisecond)
			}
		}
	}()
	chunk := s.Chunk
	if chunk <= 0 {
		chunk = 8192
	}
	buf := make([]byte, chunk)
	ok := true
	for r.sent < s.Up {
		b := buf[:min(len(buf), s.Up-r.sent)]
		fillStream(b, r.Key, 0, r.sent)
		n, err := tc.Write(b)
		r.sent += n
		if err != nil {
			ok = false
			break
		}
		if s.GapMs > 0 && r.sent < s.Up && r.sent < 100*chunk {
			time.Sleep(time.Duration(s.GapMs) * time.Millisecond)
		}
	}
	r.sentAll = ok
	if !ok {
		<-rdDone
		return
	}
	switch s.End {
	case "fin":
		r.finAt = e.w.since()
		tc.CloseWrite()
		sc.CloseWrite()
		<-rdDone
	case "close":
		select {
		case <-gotAll:
		case <-rdDone:
		}
	case "abort":
		r.closedOK = true
		sc.Abort()
	case "hold":
		t := time.NewTimer(max(0, time.Duration(s.HoldMs)*time.Millisecond-(e.w.since()-r.tStart)))
		select {
		case <-rdDone:
		case <-t.C:
		}
		t.Stop()
	case "wait":
		<-rdDone
	case "quit":
	}
	r.closedOK = true
	tc.Close()
	sc.Close()
	<-rdDone
}

// oddHello connects without being a proper TLS client.
func (e *edge) oddHello(r *ConnRec, sc *simConn) {
	s := r.Spec
	readEnd := func() {
		// Wait for the proxy to give up.
		sc.SetReadDeadline(time.Now().Add(20 * time.Minute))
		b := make([]byte, 1024)
		for {
			n, err := sc.Read(b)
			r.got += n
			if n >= 7 && b[0] == 0x15 {
				r.alert = int(b[6])
			}
			if err != nil {
				if err == io.EOF || errors.Is(err, net.ErrClosed) || strings.Contains(err.Error(), "reset") {
					r.eof = true
				}
				r.err = err
				return
			}
		}
	}
	// Capture a real ClientHello.
	hello := func() []byte {
		a, b := net.Pipe()
		go func() {
			tls.Client(a, e.clientTLS(s)).Handshake()
		}()
		buf := make([]byte, 4096)
		n, _ := b.Read(buf)
		a.Close()
		b.Close()
		return buf[:n]
	}()
	switch s.Hello {
	case "none": // connects and says nothing
		readEnd()
	case "partial": // sends a prefix, then nothing
		sc.Write(hello[:min(s.HelloN, len(hello)-1)])
		readEnd()
	case "dribble": // one byte at a time
		for i := range hello {
			if _, err := sc.Write(hello[i : i+1]); err != nil {
				break
			}
			time.Sleep(time.Duration(s.GapMs) * time.Millisecond)
		}
		readEnd()
	case "nohs": // a whole ClientHello, then nothing
		sc.Write(hello)
		readEnd()
	case "corrupt":
		h := append([]byte(nil), hello...)
		for i := 0; i < 1+s.HelloN%4; i++ {
			h[(s.HelloN*(i+7)+i*31)%len(h)] ^= byte(1 + s.HelloN%255)
		}
		sc.Write(h)
		sc.CloseWrite()
		readEnd()
	case "garbage":
		b := make([]byte, 1+s.HelloN)
		fillStream(b, r.Key, 9, 0)
		if s.HelloN%2 == 0 && len(b) > 2 {
			b[0], b[1] = 0x16, 3
		}
		sc.Write(b)
		readEnd()
	case "http":
		io.WriteString(sc, "GET / HTTP/1.0\r\n\r\n")
		readEnd()
	case "reset":
		sc.Write(hello[:min(s.HelloN, len(hello))])
		sc.Abort()
		r.eof = true
	}
}
