package main

// The WebSocket bridge: clients that log in and open WebSocket connections,
// and TCP servers behind the bridge.

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sync"
	"time"

	"github.com/gorilla/websocket"

	"github.com/c2FmZQ/tlsproxy/proxy"
)

func init() {
	register(&Scenario{Name: "ws-p21", Gen: genWs, Run: runWs, Horizon: 10 * 24 * time.Hour})
}

// WsConn is one WebSocket connection of a plan.
type WsConn struct {
	Ep     int    `json:"ep"`             // endpoint
	Cred   string `json:"cred,omitempty"` // jar, none, forge:x, tok:n; a certificate for the mt endpoint
	Origin string `json:"origin,omitempty"`
	Up     int    `json:"up"`   // bytes from the client
	Down   int    `json:"down"` // bytes from the server
	UMsg   int    `json:"umsg"` // size of the client's messages
	UBuf   int    `json:"ubuf"` // the client's write buffer: the size of its frames
	DWr    int    `json:"dwr"`  // size of the server's writes
	Text   int    `json:"text,omitempty"`
	Ping   int    `json:"ping,omitempty"`
	UPause int    `json:"upause,omitempty"` // ms, between two messages, now and then
	DPause int    `json:"dpause,omitempty"`
	RPause int    `json:"rpause,omitempty"` // ms, between two reads of the client
	SPause int    `json:"spause,omitempty"` // ms, between two reads of the server
	HoldS  int    `json:"hold,omitempty"`   // idle time after the first half
	End    string `json:"end"`
}

type wsRec struct {
	id       uint32
	br       int
	s        *WsConn
	dialAt   time.Duration
	answered time.Duration
	status   int
	token    string
	user     int
	fine     bool
	may      bool
	sock     *simConn
	rough    bool
	srv      *wsSrv

	got     int // by the client
	corrupt string
	text    bool
	cErr    error
	sent    int
	sentAll bool
	lastWr  time.Duration
	lastRd  time.Duration // when the client stopped reading
	cDone   time.Duration // the client's side ended
	cClose  time.Duration // the client asked for the end
	gotAll  chan struct{}
	upAll   chan struct{}
	cGone   chan struct{}
}

type wsSrv struct {
	r       *wsRec
	sock    *simConn
	port    int
	rough   bool
	at      time.Duration
	got     int
	corrupt string
	rErr    error
	sent    int
	sentAll bool
	closeAt time.Duration // the server asked for the end
	end     time.Duration // the server saw the end
}

type wsWorld struct {
	*auth
	mu    sync.Mutex
	recs  []*wsRec
	srvs  []*wsSrv
	byid  map[uint32]*wsRec
	certs []tls.Certificate // good, not allowed, another CA's
	ca    string

	badDials []time.Duration
}

// The endpoints.
var wsEps = []struct{ host, path string }{
	{"ws.example.com", "/bridge"},
	{"pub.example.com", "/bridge"},
	{"mt.example.com", "/bridge"},
	{"ws.example.com", "/bridge/two"},
}

func (x *wsWorld) makeCerts() {
	k0, c0 := caKeyPair("ws ca", "")
	k1, c1 := caKeyPair("ws ca", "")
	x.ca = certPEM(c0)
	t := func(cn string) *x509.Certificate {
		return &x509.Certificate{Subject: pkix.Name{CommonName: cn}, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}}
	}
	x.certs = append(x.certs, issueCert(c0, k0, t("alice")), issueCert(c0, k0, t("bob")), issueCert(c1, k1, t("alice")))
}

func (x *wsWorld) addTo(cfg *proxy.Config) {
	cfg.Backends = append(cfg.Backends, &proxy.Backend{
		ServerNames: []string{"mt.example.com"}, Mode: "LOCAL", ForwardRateLimit: 100000,
		ClientAuth: &proxy.ClientAuth{RootCAs: []string{x.ca}, ACL: &[]string{"CN=alice"}},
	})
	for i, ep := range wsEps {
		cfg.WebSockets = append(cfg.WebSockets, &proxy.WebSocketConfig{Endpoint: "https://" + ep.host + ep.path, Address: fmt.Sprintf("10.1.2.1:%d", 7000+i)})
	}
}

func (x *wsWorld) startServers() {
	n := x.w.newNode("10.1.2.1")
	for i := range wsEps {
		port := 7000 + i
		x.w.in(n, func() {
			l, err := x.w.net.listen(n, "tcp", fmt.Sprintf("10.1.2.1:%d", port))
			if err != nil {
				panic(err)
			}
			go func() {
				for {
					c, err := l.Accept()
					if err != nil {
						return
					}
					go x.serve(c.(*simConn), port)
				}
			}()
		})
	}
}

func (x *wsWorld) serve(c *simConn, port int) {
	w := x.w
	s := &wsSrv{sock: c, port: port, at: w.since(), rough: roughConn(c, nil)}
	x.mu.Lock()
	x.srvs = append(x.srvs, s)
	x.mu.Unlock()
	defer func() {
		c.Close()
		s.end = w.since()
		id := uint32(0)
		if s.r != nil {
			id = s.r.id
		}
		w.ev("server %d conn of %d ended: got %d sent %d %s err %v", port, id, s.got, s.sent, s.corrupt, s.rErr)
	}()
	var hd [4]byte
	if _, err := io.ReadFull(c, hd[:]); err != nil {
		s.rErr = err
		return
	}
	id := binary.BigEndian.Uint32(hd[:])
	x.mu.Lock()
	r := x.byid[id]
	if r != nil {
		s.r = r
		if r.srv != nil {
			w.violate(x.prop, "two-servers", "connection %d reached a server twice", id)
		}
		r.srv = s
	}
	x.mu.Unlock()
	if r == nil {
		w.violate(x.prop, "corrupt", "a server got a connection that starts with %x", hd)
		return
	}
	s.got = 4
	sp := r.s
	done := make(chan struct{})
	bye := make(chan struct{})
	var once sync.Once
	leave := func() { once.Do(func() { close(bye) }) }
	up := make(chan struct{})
	if sp.Up <= 4 {
		close(up)
	}
	if sp.Up <= 8 {
		leave()
	}
	go func() { // reader
		defer close(done)
		buf := make([]byte, 4096)
		pauses := 0
		for {
			n, err := c.Read(buf)
			if n > 0 {
				if m := checkStream(buf[:n], id, 0, s.got); m != "" && s.corrupt == "" {
					s.corrupt = m
				}
				was := s.got
				s.got += n
				if s.got > sp.Up && s.corrupt == "" {
					s.corrupt = fmt.Sprintf("%d bytes, the client sends %d", s.got, sp.Up)
				}
				if was < sp.Up && s.got >= sp.Up {
					close(up)
				}
				if sp.End == "searly" && s.got >= sp.Up/2 {
					leave()
				}
			}
			if err != nil {
				s.rErr = err
				return
			}
			if sp.SPause > 0 && pauses < 3 && s.got > (pauses+1)*sp.Up/4 {
				pauses++
				time.Sleep(time.Duration(sp.SPause) * time.Millisecond)
			}
		}
	}()
	sent := make(chan struct{})
	go func() { // writer
		defer close(sent)
		n := sp.Down
		if sp.End == "searly" || sp.End == "sabort" {
			n = sp.Down / 2
		}
		for k := 0; s.sent < n; k++ {
			if sp.HoldS > 0 && k > 0 && s.sent >= n/2 && s.sent-sp.DWr < n/2 {
				time.Sleep(time.Duration(sp.HoldS) * time.Second)
			}
			if sp.DPause > 0 && k%7 == 6 && k < 70 {
				time.Sleep(time.Duration(sp.DPause) * time.Millisecond)
			}
			b := make([]byte, min(sp.DWr, n-s.sent))
			fillStream(b, id, 1, s.sent)
			m, err := c.Write(b)
			s.sent += m
			if err != nil {
				return
			}
		}
		s.sentAll = s.sent == sp.Down
	}()
	ended := func(ch chan struct{}) bool {
		select {
		case <-ch:
			return true
		case <-done:
			return false
		}
	}
	switch sp.End {
	case "server":
		if ended(sent) && ended(up) {
			s.closeAt = w.since()
			w.ev("server closes %d", id)
			c.Close()
		}
	case "sfin":
		if ended(sent) {
			s.closeAt = w.since()
			w.ev("server half-closes %d", id)
			c.CloseWrite()
		}
	case "searly":
		if ended(sent) && ended(bye) {
			s.closeAt = w.since()
			w.ev("server closes %d early", id)
			c.Close()
		}
	case "sabort":
		if ended(sent) {
			s.closeAt = w.since()
			w.ev("server aborts %d", id)
			c.Abort()
		}
	}
	<-done
}

func (x *wsWorld) open(b *browser, s *WsConn) {
	w := x.w
	ep := wsEps[s.Ep]
	x.mu.Lock()
	r := &wsRec{id: uint32(len(x.recs) + 1), br: b.idx, s: s, dialAt: w.since(), user: -1, gotAll: make(chan struct{}), upAll: make(chan struct{}), cGone: make(chan struct{})}
	x.recs = append(x.recs, r)
	x.byid[r.id] = r
	x.mu.Unlock()
	if s.Down == 0 {
		close(r.gotAll)
	}
	defer func() { r.cDone = w.since() }()
	tc := &tls.Config{ServerName: ep.host, InsecureSkipVerify: true, NextProtos: []string{"http/1.1"}}
	hdr := http.Header{"User-Agent": {"sim"}}
	r.fine, r.may = true, true
	switch ep.host {
	case "ws.example.com":
		tok := ""
		for _, c := range b.cookies(ep.host) {
			if c.Name == "TLSPROXYAUTH" {
				tok = c.Value
			}
		}
		if s.Cred != "jar" {
			r.may = false
			if s.Cred == "none" {
				tok = ""
			} else {
				tok = x.forge(s.Cred, tok)
			}
		}
		if tok != "" {
			hdr.Set("Cookie", "TLSPROXYAUTH="+tok)
			r.token = tok
		}
		x.auth.mu.Lock()
		t := x.tokOf[tok]
		x.auth.mu.Unlock()
		r.may = false
		if t != nil {
			r.user = t.user
			r.may = aclHas(x.spec.Cfgs[0].be(ep.host).ACL, t.user)
			if w.since()-t.at > 18*time.Hour {
				r.fine = false
			}
		}
	case "mt.example.com":
		switch s.Cred {
		case "bob":
			tc.Certificates, r.may = x.certs[1:2], false
		case "other":
			tc.Certificates, r.may = x.certs[2:3], false
		case "none":
			r.may = false
		default:
			tc.Certificates = x.certs[:1]
		}
	}
	switch s.Origin {
	case "same":
		hdr.Set("Origin", "https://"+ep.host)
	case "other":
		hdr.Set("Origin", "https://evil.example.net")
		r.may = false
	case "sub":
		hdr.Set("Origin", "https://evil."+ep.host)
		r.may = false
	case "suffix":
		hdr.Set("Origin", "https://"+ep.host+".evil.net")
		r.may = false
	case "null":
		hdr.Set("Origin", "null")
		r.may = false
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
	defer cancel()
	nc, err := w.net.dial(ctx, 0, b.ip, "tcp", x.addr)
	if err != nil {
		return
	}
	r.sock = nc.(*simConn)
	r.rough = roughConn(r.sock, s)
	defer nc.Close()
	tl := tls.Client(nc, tc)
	if err := tl.HandshakeContext(ctx); err != nil {
		w.ev("ws %d: TLS handshake failed", r.id)
		r.answered = w.since()
		return
	}
	u, _ := url.Parse("ws://" + ep.host + ep.path)
	w.ev("ws %d: browser %d opens %s cred %s origin %s", r.id, b.idx, u, s.Cred, s.Origin)
	tl.SetDeadline(time.Now().Add(10 * time.Minute))
	c, resp, err := websocket.NewClient(tl, u, hdr, 4096, max(s.UBuf, 16))
	if resp != nil {
		r.status = resp.StatusCode
		resp.Body.Close()
	}
	r.answered = w.since()
	w.ev("ws %d: status %d", r.id, r.status)
	if err != nil {
		tl.Close()
		return
	}
	tl.SetDeadline(time.Time{})
	x.client(r, c, tl)
	w.ev("ws %d: client ended: got %d sent %d %s", r.id, r.got, r.sent, r.corrupt)
}

func (x *wsWorld) client(r *wsRec, c *websocket.Conn, tl *tls.Conn) {
	w, sp := x.w, r.s
	far := func() time.Time { return time.Now().Add(24 * time.Hour) }
	deaf := make(chan struct{})
	// hear tells whether the client goes on reading.
	hear := func() bool {
		if sp.End != "deaf" || r.got < sp.Down/2 {
			return true
		}
		select {
		case <-r.upAll:
			r.lastRd = w.since()
			w.ev("ws %d: client is deaf from now on", r.id)
			<-deaf
			return false
		default:
			return true
		}
	}
	c.SetPingHandler(func(d string) error {
		if !hear() {
			return io.ErrUnexpectedEOF
		}
		r.lastWr = w.since()
		c.WriteControl(websocket.PongMessage, []byte(d), far())
		return nil
	})
	go func() { // reader
		defer close(r.cGone)
		pauses := 0
		buf := make([]byte, 3000)
		for {
			if !hear() {
				return
			}
			mt, rd, err := c.NextReader()
			if err != nil {
				r.cErr = err
				return
			}
			if mt != websocket.BinaryMessage {
				r.text = true
			}
			for {
				n, err := rd.Read(buf)
				if n > 0 {
					if m := checkStream(buf[:n], r.id, 1, r.got); m != "" && r.corrupt == "" {
						r.corrupt = m
					}
					was := r.got
					r.got += n
					if r.got > sp.Down && r.corrupt == "" {
						r.corrupt = fmt.Sprintf("%d bytes, the server sends %d", r.got, sp.Down)
					}
					if was < sp.Down && r.got >= sp.Down {
						close(r.gotAll)
					}
				}
				if err == io.EOF {
					break
				}
				if err != nil {
					r.cErr = err
					return
				}
			}
			if sp.RPause > 0 && pauses < 3 && r.got > (pauses+1)*sp.Down/4 {
				pauses++
				time.Sleep(time.Duration(sp.RPause) * time.Millisecond)
			}
		}
	}()
	// writer
	ok := true
	n := sp.Up
	if sp.End == "cabort" {
		n = max(4, sp.Up/2)
	}
	all := make([]byte, n)
	fillStream(all, r.id, 0, 0)
	binary.BigEndian.PutUint32(all, r.id)
	for k := 0; r.sent < n && ok; k++ {
		if sp.HoldS > 0 && k > 0 && r.sent >= n/2 && r.sent-sp.UMsg < n/2 {
			select {
			case <-time.After(time.Duration(sp.HoldS) * time.Second):
			case <-r.cGone:
			}
		}
		if sp.Text > 0 && k%sp.Text == 0 {
			r.lastWr = w.since()
			ok = ok && c.WriteMessage(websocket.TextMessage, []byte("this is not for the server")) == nil
		}
		if sp.Ping > 0 && k%sp.Ping == 0 {
			r.lastWr = w.since()
			ok = ok && c.WriteControl(websocket.PingMessage, []byte("hello"), far()) == nil
		}
		if sp.UPause > 0 && k%7 == 6 && k < 70 {
			time.Sleep(time.Duration(sp.UPause) * time.Millisecond)
		}
		m := all[r.sent:min(n, r.sent+sp.UMsg)]
		r.lastWr = w.since()
		wr, err := c.NextWriter(websocket.BinaryMessage)
		if err != nil {
			ok = false
			break
		}
		h := len(m) / 3
		if _, err := wr.Write(m[:h]); err != nil {
			ok = false
			break
		}
		if sp.UPause > 0 && k%11 == 5 && k < 70 {
			time.Sleep(time.Duration(sp.UPause) * time.Millisecond)
		}
		if _, err := wr.Write(m[h:]); err != nil {
			ok = false
			break
		}
		if err := wr.Close(); err != nil {
			ok = false
			break
		}
		r.sent += len(m)
		r.lastWr = w.since()
	}
	r.sentAll = ok && r.sent == sp.Up
	close(r.upAll)
	ended := func(ch chan struct{}) bool {
		select {
		case <-ch:
			return true
		case <-r.cGone:
			return false
		}
	}
	closing := func() {
		r.cClose = w.since()
		w.ev("ws %d: client closes", r.id)
		c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), far())
	}
	switch sp.End {
	case "client":
		if ok && ended(r.gotAll) {
			closing()
		}
	case "cearly":
		if ok {
			closing()
		}
	case "cdrop":
		if ok && ended(r.gotAll) {
			r.cClose = w.since()
			w.ev("ws %d: client drops the connection", r.id)
			tl.Close()
		}
	case "cabort":
		r.cClose = w.since()
		w.ev("ws %d: client aborts", r.id)
		r.sock.Abort()
	case "deaf":
		select {
		case <-time.After(20 * time.Minute):
		case <-r.cGone:
		}
		close(deaf)
	}
	<-r.cGone
	tl.Close()
}

func genWs(r rng, tier string) *Plan {
	pl := &Plan{Sched: r.randSched(), Net: r.randNet(), P: map[string]int64{}}
	acls := []*[]string{nil, {"alice@example.com"}, {"@example.com"}, {"alice@example.com", "carol@other.org"}, {}}
	acl := acls[r.pick(0, 0, 1, 1, 2, 2, 3, 4)]
	pl.Auth = &AuthSpec{NB: r.between(2, 4)}
	pl.Auth.Provs = []ProvSpec{{Name: "one", Domain: "example.com", Redirect: "https://auth.example.com/oidc/cb", PKCE: r.p(50), UserInfo: r.p(20)}}
	pl.Auth.Cfgs = []AuthCfg{{Be: []AuthBe{
		{Hosts: []string{"ws.example.com"}, Mode: r.picks("LOCAL", "HTTP", "HTTP"), Srv: 1, SSO: 1, ACL: acl},
		{Hosts: []string{"auth.example.com"}, Mode: "LOCAL"},
		{Hosts: []string{"pub.example.com"}, Mode: r.picks("LOCAL", "HTTP"), Srv: 1},
	}}}
	for i := range pl.Auth.Cfgs[0].Be {
		if pl.Auth.Cfgs[0].Be[i].Mode == "LOCAL" {
			pl.Auth.Cfgs[0].Be[i].Srv = 0
		}
	}
	size := func() int {
		switch r.n(6) {
		case 0:
			return r.between(4, 20)
		case 1:
			return r.pick(1024, 1023, 1025, 2048, 4096, 8192, 125, 126, 127, 65535, 65536)
		case 2, 3:
			return r.between(20, 3000)
		case 4:
			return r.between(3000, 30000)
		}
		return r.between(30000, 150000)
	}
	na := r.between(2, 5)
	for k := 0; k < na; k++ {
		b := r.n(pl.Auth.NB)
		logged := false
		no := r.between(1, 4)
		for i := 0; i < no; i++ {
			s := &WsConn{Ep: r.pick(0, 0, 0, 1, 1, 2, 3), Up: size(), Down: size() - 4, Cred: "jar"}
			host := wsEps[s.Ep].host
			at := int64(r.pick(0, 50, 500, 3000, 20000))
			if host == "ws.example.com" && !logged && r.p(85) {
				logged = true
				pl.Ops = append(pl.Ops, Op{K: "login", At: at, W: k, A: int64(b), Au: &AuOp{Host: host, Path: "/x", User: r.pick(0, 0, 0, 1, 1, 2, 3)}})
				at = int64(r.pick(0, 100, 5000))
			}
			switch host {
			case "ws.example.com":
				if r.p(15) {
					s.Cred = r.picks("none", "flip", "none", "payload", "trunc", "hs256", "extend")
				}
			case "mt.example.com":
				s.Cred = r.picks("alice", "alice", "alice", "bob", "other", "none")
			}
			s.Origin = r.picks("", "", "", "", "", "same", "same", "same", "same", "same", "same", "same", "other", "sub", "suffix", "null")
			s.UMsg = r.pick(1, 10, 100, 1000, 1024, 5000, 70000)
			if s.Up/s.UMsg > 300 {
				s.UMsg = s.Up/300 + 1
			}
			s.UBuf = r.pick(16, 100, 1000, 4096, 10000)
			if s.Up/s.UBuf > 600 {
				s.UBuf = s.Up / 600
			}
			s.DWr = r.pick(1, 10, 1000, 1024, 1025, 5000, 70000)
			if s.Down/s.DWr > 300 {
				s.DWr = s.Down/300 + 1
			}
			if r.p(30) {
				s.Text = r.between(1, 5)
			}
			if r.p(30) {
				s.Ping = r.between(1, 5)
			}
			pause := func() int {
				if r.p(25) {
					return r.pick(1, 20, 300, 1200)
				}
				return 0
			}
			s.UPause, s.DPause, s.RPause, s.SPause = pause(), pause(), pause(), pause()
			if s.Ping > 0 {
				s.RPause = min(s.RPause, 300)
			}
			if r.p(15) {
				s.HoldS = r.pick(25, 35, 45, 100, 400, 3600)
			}
			s.End = r.picks("client", "client", "client", "cearly", "cearly", "cdrop", "cabort", "server", "server", "server", "searly", "sfin", "sfin", "sabort", "deaf")
			pl.Ops = append(pl.Ops, Op{K: "ws", At: at, W: k, A: int64(b), Ws: s})
		}
	}
	if r.p(25) {
		pl.Ops = append(pl.Ops, Op{K: "reconf", At: int64(r.between(100, 60000))})
	}
	if r.p(15) {
		pl.Ops = append(pl.Ops, Op{K: "jump", At: int64(r.between(1000, 60000)), A: int64(r.pick(30000, 3600000, 7000000))})
	}
	if r.p(50) {
		nf := r.between(1, 4)
		for i := 0; i < nf; i++ {
			switch r.n(5) {
			case 0: // a dial of the proxy
				pl.Faults = append(pl.Faults, Fault{K: "dial", N: int64(r.n(6)), S: r.picks("refuse", "hang", "lat"), A: int64(r.pick(200, 3000, 20000))})
			case 1: // a connection of the proxy to a server
				pl.Faults = append(pl.Faults, Fault{K: "sconn", N: int64(r.n(6)), S: r.picks("reset", "stall", "stall"), A: int64(r.pick(r.n(20000), r.n(2000))), B: int64(r.pick(500, 3000, 8000, 50000))})
			case 2, 3: // a connection of a client
				pl.Faults = append(pl.Faults, Fault{K: "cconn", N: int64(r.n(16)), S: r.picks("reset", "stall", "stall"), A: int64(r.pick(r.n(20000), r.n(2000))), B: int64(r.pick(500, 3000, 8000, 50000))})
			case 4:
				pl.Faults = append(pl.Faults, Fault{K: "part", A: int64(r.between(100, 60000)), B: int64(r.pick(500, 3000, 20000, 90000)), S: r.picks("10.0.0.1|10.1.2.1", "10.0.0.1|192.0.2.1", "10.0.0.1|192.0.2.2")})
			}
		}
	}
	return pl
}

func runWs(w *World) {
	x := &wsWorld{byid: map[uint32]*wsRec{}}
	x.auth = newAuth(w, w.plan.Auth)
	x.prop = "P21"
	x.makeCerts()
	x.extra = x.addTo
	x.startServers()
	if !x.startProxy(0) {
		return
	}
	w.ev("started")
	var dialF []Fault
	dials, clients := 0, 0
	w.net.onDial = func(node uint32, from, to string, nth int) (df *dialFault, cf []connFault) {
		kind, n := "", 0
		switch {
		case node == x.node && to[:8] == "10.1.2.1":
			kind, n = "s", dials
			dials++
		case to == x.addr:
			kind, n = "c", clients
			clients++
		default:
			return
		}
		for _, f := range dialF {
			if f.N != int64(n) {
				continue
			}
			switch {
			case f.K == "dial" && kind == "s":
				df = &dialFault{Kind: f.S, Dur: time.Duration(f.A) * time.Millisecond}
				if f.S != "lat" || f.A > 5000 {
					x.badDials = append(x.badDials, w.since())
				}
			case f.K == kind+"conn":
				d := "up"
				if f.A%2 == 0 {
					d = "down"
				}
				cf = append(cf, connFault{Kind: f.S, Dir: d, After: f.A, Dur: time.Duration(f.B) * time.Millisecond})
			}
		}
		return
	}
	w.perturb()
	x.base = w.since()
	for _, f := range w.plan.Faults {
		f := f
		if f.K != "part" {
			dialF = append(dialF, f)
			continue
		}
		at := time.Duration(f.A) * time.Millisecond
		a, b := "", ""
		for i := range f.S {
			if f.S[i] == '|' {
				a, b = f.S[:i], f.S[i+1:]
			}
		}
		x.parts = append(x.parts, [2]time.Duration{x.base + at, x.base + at + time.Duration(f.B)*time.Millisecond})
		go func() {
			time.Sleep(at)
			w.fault("partition")
			w.ev("partition %s for %d ms", f.S, f.B)
			w.net.addPartition(a, b, time.Duration(f.B)*time.Millisecond)
		}()
	}
	actors := map[int][]*Op{}
	var order []int
	for i := range w.plan.Ops {
		op := &w.plan.Ops[i]
		switch op.K {
		case "reconf", "jump":
			x.wg.Add(1)
			go func() {
				defer x.wg.Done()
				time.Sleep(time.Duration(op.At) * time.Millisecond)
				if op.K == "jump" {
					x.jump(time.Duration(op.A) * time.Millisecond)
				} else {
					x.reconfigure(0)
				}
			}()
		default:
			if actors[op.W] == nil {
				order = append(order, op.W)
			}
			actors[op.W] = append(actors[op.W], op)
		}
	}
	for _, k := range order {
		x.wg.Add(1)
		go func() {
			defer x.wg.Done()
			for _, op := range actors[k] {
				time.Sleep(time.Duration(op.At) * time.Millisecond)
				b := x.brs[int(op.A)%len(x.brs)]
				switch op.K {
				case "login":
					x.login(b, op.Au)
				case "ws":
					x.open(b, op.Ws)
				}
			}
		}()
	}
	if !w.within(3*24*time.Hour, x.wg.Wait) {
		w.violate(x.prop, "stuck", "a connection never ended")
		x.judge(true)
		return
	}
	w.calm()
	w.net.clearFaults()
	for _, b := range x.brs {
		b.tr.CloseIdleConnections()
	}
	time.Sleep(5 * time.Minute)
	x.judge(false)
	w.in(x.node, func() {
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		defer cancel()
		x.p.Shutdown(ctx)
	})
}

// rough tells whether the network did something to a connection that the
// bridge is not bound to withstand: it was reset, the server could not be
// reached, or nothing could be sent for longer than the keep-alive allows.
func (x *wsWorld) rough(r *wsRec) bool {
	if r.sock == nil || r.rough {
		return true
	}
	if r.srv != nil && r.srv.rough {
		return true
	}
	if r.srv == nil {
		for _, t := range x.badDials {
			if t >= r.dialAt && t <= r.answered+15*time.Second {
				return true
			}
		}
	}
	end := max(r.cDone, r.dialAt)
	if r.srv != nil {
		end = max(end, r.srv.end)
	}
	for _, p := range x.parts {
		if p[1]-p[0] > patience(r.s) && p[0] <= end && p[1] >= r.dialAt {
			return true
		}
	}
	return false
}

// patience is how long the bridge waits when it cannot send to a client. It
// answers the client's pings within a second.
func patience(s *WsConn) time.Duration {
	if s != nil && s.Ping > 0 {
		return 900 * time.Millisecond
	}
	return 4 * time.Second
}

// changing tells whether the proxy was being reconfigured in an interval: it
// drops connections that have not made a request yet.
func (x *wsWorld) changing(from, to time.Duration) bool {
	for _, v := range x.vers[1:] {
		if v.from <= to && v.ret+5*time.Second >= from {
			return true
		}
	}
	return false
}

// roughConn tells whether a new connection has such a fault ahead.
func roughConn(c *simConn, s *WsConn) bool {
	for _, p := range c.pair.pipe {
		for _, f := range p.faults {
			if f.Kind != "stall" || f.Dur >= patience(s) {
				return true
			}
		}
	}
	return false
}

func (x *wsWorld) judge(stuck bool) {
	w := x.w
	up, unknown := map[int]int{}, map[int]int{}
	for _, r := range x.recs {
		s := r.s
		ep := wsEps[s.Ep]
		w.check()
		port := 7000 + s.Ep
		switch {
		case r.status == 101:
			w.probe("upgraded")
			up[port]++
		case r.status == 0:
			unknown[port]++
		default:
			w.probe("refused")
		}
		if r.status == 101 && !r.may {
			w.violate(x.prop, "admitted", "connection %d to %s%s was admitted: credentials %s user %d origin %q", r.id, ep.host, ep.path, s.Cred, r.user, s.Origin)
		}
		rough := x.rough(r)
		if r.status != 101 && r.may && r.fine && !rough && !x.changing(r.dialAt, r.answered) {
			w.violate(x.prop, "refused", "connection %d to %s%s was refused with status %d: credentials %s user %d origin %q", r.id, ep.host, ep.path, r.status, s.Cred, r.user, s.Origin)
		}
		sv := r.srv
		if sv != nil {
			if r.status != 101 && r.status != 0 {
				w.violate(x.prop, "bridged-refused", "connection %d was refused with status %d and reached the server", r.id, r.status)
			}
			if sv.port != port {
				w.violate(x.prop, "wrong-server", "connection %d to %s%s reached port %d", r.id, ep.host, ep.path, sv.port)
			}
			if sv.corrupt != "" {
				w.violate(x.prop, "corrupt-up", "connection %d: the server got something else than the client sent: %s", r.id, sv.corrupt)
			}
		}
		if r.corrupt != "" {
			w.violate(x.prop, "corrupt-down", "connection %d: the client got something else than the server sent: %s", r.id, r.corrupt)
		}
		if r.text {
			w.violate(x.prop, "text", "connection %d: the client got a message that is not binary", r.id)
		}
		if r.status != 101 || stuck {
			continue
		}
		w.check()
		if sv == nil {
			if !rough && s.End != "cabort" && s.End != "cdrop" {
				w.violate(x.prop, "no-server", "connection %d was upgraded but its data never reached the server", r.id)
			}
			continue
		}
		// Who asked for the end, and when.
		type side struct {
			at  time.Duration
			who string
		}
		first := side{1 << 62, ""}
		if r.cClose > 0 {
			first = side{r.cClose, "client"}
		}
		if sv.closeAt > 0 && sv.closeAt < first.at {
			first = side{sv.closeAt, "server"}
		}
		if s.End == "deaf" && r.lastRd > 0 && r.lastRd+10*time.Second < first.at {
			first = side{r.lastRd + 40*time.Second, "deaf client"}
		}
		last := max(r.cDone, sv.end)
		if s.End == "deaf" {
			last = sv.end
		}
		if first.who == "" {
			if !rough {
				w.violate(x.prop, "cut", "connection %d (%s) was cut although neither side had ended it: the client got %d of %d, the server %d of %d", r.id, s.End, r.got, s.Down, sv.got, s.Up)
			}
			continue
		}
		w.probe("end-" + s.End)
		if r.cDone < first.at && first.who != "deaf client" && !rough || sv.end < first.at && !rough && first.who == "client" {
			w.violate(x.prop, "cut", "connection %d ended before the %s ended it", r.id, first.who)
		}
		limit := 60 * time.Second
		if rough {
			limit += 3 * time.Minute
		}
		if last > first.at+limit {
			w.violate(x.prop, "lingers", "connection %d: the %s ended it at %v, but it was over at %v only", r.id, first.who, first.at, last)
		}
		if rough {
			continue
		}
		needUp := s.End == "client" || s.End == "cearly" || s.End == "server"
		needDown := s.End == "client" || s.End == "cdrop"
		if (s.End == "server" || s.End == "sfin") && r.lastWr < sv.closeAt {
			needDown = true
		}
		w.check()
		if needUp && sv.got < s.Up {
			w.violate(x.prop, "lost-up", "connection %d (%s): the server got %d of the %d bytes that the client sent", r.id, s.End, sv.got, s.Up)
		}
		if needDown && r.got < s.Down {
			w.violate(x.prop, "lost-down", "connection %d (%s): the client got %d of the %d bytes that the server sent", r.id, s.End, r.got, s.Down)
		}
	}
	w.check()
	n := map[int]int{}
	for _, s := range x.srvs {
		n[s.port]++
	}
	for i := range wsEps {
		p := 7000 + i
		if n[p] > up[p]+unknown[p] {
			w.violate(x.prop, "dialed", "the proxy opened %d connections to port %d for %d upgraded WebSocket connections", n[p], p, up[p])
		}
	}
	if stuck {
		return
	}
	acc, dialed := w.net.openByNode(x.node)
	for _, c := range dialed {
		if c.peerIP() == "10.1.2.1" {
			w.violate(x.prop, "left-over", "the proxy still has a connection to the server of a WebSocket endpoint (%v)", c.remote)
		}
	}
	for _, c := range acc {
		for _, r := range x.recs {
			if r.sock != nil && r.sock.pair == c.pair {
				w.violate(x.prop, "left-over", "the proxy still has the connection of client %d", r.id)
			}
		}
	}
}
