package main

// HTTP clients and servers of the edge world.

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/pires/go-proxyproto"
	"golang.org/x/net/http2"
)

// HConnSpec is one HTTP client connection and its requests.
type HConnSpec struct {
	Src    string    `json:"src"`
	Via    string    `json:"via,omitempty"`
	ViaSrc string    `json:"viasrc,omitempty"`
	SNI    string    `json:"sni"`
	ALPN   []string  `json:"alpn,omitempty"`
	Cert   int       `json:"cert,omitempty"`
	Resume int       `json:"resume,omitempty"`
	Par    bool      `json:"par,omitempty"` // h2: requests run concurrently; h1: pipelined
	Reqs   []ReqSpec `json:"reqs"`
	End    string    `json:"end,omitempty"` // "", abort, hold
	HoldMs int64     `json:"hold,omitempty"`
}

type ReqSpec struct {
	Method string `json:"m,omitempty"`
	Host   string `json:"host,omitempty"`
	Path   string `json:"path,omitempty"`
	Up     int    `json:"up,omitempty"`
	Down   int    `json:"down,omitempty"`
	NoLen  bool   `json:"nolen,omitempty"` // unknown length, both ways
	GapMs  int64  `json:"gap,omitempty"`   // before the request
	UpGap  int64  `json:"ugap,omitempty"`  // between pieces of the body
	SrvMs  int64  `json:"sms,omitempty"`   // server's thinking time
	DnGap  int64  `json:"dgap,omitempty"`  // between pieces of the response
	Status int    `json:"st,omitempty"`
	Spoof  int    `json:"spoof,omitempty"` // bit set of spoofed headers
	Cancel int64  `json:"cancel,omitempty"`
	Beh    string `json:"beh,omitempty"` // server: close, reset, trunc
	Enc    string `json:"enc,omitempty"` // Accept-Encoding: "none" or a value
	Tr     bool   `json:"tr,omitempty"`  // the response has a trailer
}

type HConnRec struct {
	Op      int
	Spec    *HConnSpec
	sock    *simConn
	tStart  time.Duration
	tSettle time.Duration
	tEnd    time.Duration
	dialErr error
	hsDone  bool
	err     error
	alert   int
	proto   string
	done    bool
	reqs    []*ReqRec
}

type ReqRec struct {
	hc       *HConnRec
	id       string
	key      uint32
	Spec     *ReqSpec
	tStart   time.Duration
	tEnd     time.Duration
	started  bool
	status   int
	respID   string
	respSrv  string
	got      int
	corrupt  string
	complete bool
	err      error
	hdrErr   string
	canceled bool
	done     bool
}

// HSrvRec is a request seen by a backend server.
type HSrvRec struct {
	Srv      int
	Port     int
	id       string
	key      uint32
	method   string
	uri      string
	host     string
	hdr      http.Header
	proto    string
	got      int
	bodyErr  error
	corrupt  string
	length   int64
	ppSrc    string
	ppErr    string
	conn     *simConn
	tStart   time.Duration
	tEnd     time.Duration
	complete bool // the response was written in full
	sentHdr  bool
}

type srvConnKey struct{}

type srvConnInfo struct {
	sock  *simConn
	ppSrc string
	ppErr string
	pc    *proxyproto.Conn
}

type hListener struct {
	l    *simListener
	pp   bool
	mu   sync.Mutex
	info map[*simConn]*srvConnInfo
}

func (l *hListener) Accept() (net.Conn, error) {
	c, err := l.l.Accept()
	if err != nil {
		return nil, err
	}
	sc := c.(*simConn)
	i := &srvConnInfo{sock: sc}
	l.mu.Lock()
	l.info[sc] = i
	l.mu.Unlock()
	if l.pp {
		i.pc = proxyproto.NewConn(sc, proxyproto.WithPolicy(proxyproto.USE))
		return &ppConn{i.pc, i}, nil
	}
	return &ppConn{sc, i}, nil
}
func (l *hListener) Close() error   { return l.l.Close() }
func (l *hListener) Addr() net.Addr { return l.l.Addr() }

type ppConn struct {
	net.Conn
	i *srvConnInfo
}

func (c *ppConn) CloseWrite() error { return c.i.sock.CloseWrite() }

func connInfo(c net.Conn) *srvConnInfo {
	if tc, ok := c.(*tls.Conn); ok {
		c = tc.NetConn()
	}
	return c.(*ppConn).i
}

func (s *edgeServer) startHTTP() {
	for _, port := range []int{portHTTP, portHTTPPP, portHTTPS, portHTTPSPP} {
		port := port
		s.e.w.in(s.node, func() {
			l, err := s.e.w.net.listen(s.node, "tcp", fmt.Sprintf("%s:%d", s.ip, port))
			if err != nil {
				panic(err)
			}
			hl := &hListener{l: l, pp: port == portHTTPPP || port == portHTTPSPP, info: map[*simConn]*srvConnInfo{}}
			var pr http.Protocols
			pr.SetHTTP1(true)
			pr.SetHTTP2(true)
			pr.SetUnencryptedHTTP2(true)
			srv := &http.Server{
				Handler:   http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { s.handle(port, w, r) }),
				Protocols: &pr,
				ErrorLog:  nil,
				ConnContext: func(ctx context.Context, c net.Conn) context.Context {
					return context.WithValue(ctx, srvConnKey{}, connInfo(c))
				},
			}
			if port == portHTTPS || port == portHTTPSPP {
				srv.TLSConfig = s.tc.Clone()
				go srv.ServeTLS(hl, "", "")
			} else {
				go srv.Serve(hl)
			}
		})
	}
}

func (s *edgeServer) handle(port int, w http.ResponseWriter, req *http.Request) {
	e := s.e
	ci := req.Context().Value(srvConnKey{}).(*srvConnInfo)
	r := &HSrvRec{Srv: s.idx, Port: port, id: req.Header.Get("X-Sim-Id"), method: req.Method, uri: req.RequestURI, host: req.Host,
		hdr: req.Header.Clone(), proto: req.Proto, length: req.ContentLength, conn: ci.sock, tStart: e.w.since()}
	if ci.pc != nil {
		if h := ci.pc.ProxyHeader(); h == nil {
			r.ppErr = "no PROXY header"
		} else {
			r.ppSrc = h.SourceAddr.String()
		}
	}
	k, _ := strconv.ParseUint(req.Header.Get("X-Sim-Key"), 10, 32)
	r.key = uint32(k)
	e.mu.Lock()
	e.hsrv = append(e.hsrv, r)
	e.mu.Unlock()
	e.w.ev("srv%d request %s %s %s", s.idx, r.id, r.method, r.uri)
	defer func() {
		r.tEnd = e.w.since()
		e.w.ev("srv%d request %s end got=%d complete=%v", s.idx, r.id, r.got, r.complete)
	}()
	arg := func(h string) int {
		n, _ := strconv.Atoi(req.Header.Get(h))
		return n
	}
	buf := make([]byte, 8192)
	for {
		n, err := req.Body.Read(buf)
		if m := checkStream(buf[:n], r.key, 0, r.got); m != "" && r.corrupt == "" {
			r.corrupt = "request body " + m
		}
		r.got += n
		if err != nil {
			if err != io.EOF {
				r.bodyErr = err
			}
			break
		}
	}
	if d := arg("X-Sim-Delay"); d > 0 {
		time.Sleep(time.Duration(d) * time.Millisecond)
	}
	down := arg("X-Sim-Down")
	h := w.Header()
	h.Set("X-Resp-Id", r.id)
	h.Set("X-Resp-Srv", fmt.Sprintf("%d:%d", s.idx, port))
	h.Add("Set-Cookie", "a="+r.id)
	h.Add("Set-Cookie", "b="+r.id)
	h.Set("Content-Type", "application/x-sim")
	st := arg("X-Sim-Status")
	if st == 0 {
		st = 200
	}
	noBody := req.Method == "HEAD" || st == 204 || st == 304
	if req.Header.Get("X-Sim-Nolen") == "" && st != 204 && st != 304 {
		h.Set("Content-Length", strconv.Itoa(down))
	}
	beh := req.Header.Get("X-Sim-Beh")
	if beh == "reset" {
		e.w.fault("server-reset")
		ci.sock.Abort()
		return
	}
	if strings.Contains(req.Header.Get("Accept-Encoding"), "gzip") {
		h.Set("Content-Encoding", "gzip") // (not really)
	}
	trailer := req.Header.Get("X-Sim-Trailer") != "" && !noBody
	if trailer {
		h.Set("Trailer", "X-Sim-Sum")
	}
	w.WriteHeader(st)
	r.sentHdr = true
	if noBody {
		down = 0
	}
	gap := arg("X-Sim-Gap")
	pos := 0
	for pos < down {
		b := buf[:min(len(buf), down-pos)]
		fillStream(b, r.key, 1, pos)
		if beh == "trunc" && pos+len(b) >= down {
			e.w.fault("server-truncates")
			if rc := http.NewResponseController(w); rc != nil {
				rc.Flush()
			}
			if r.key%3 > 0 {
				time.Sleep(time.Second) // let it arrive
			}
			ci.sock.Abort()
			return
		}
		n, err := w.Write(b)
		pos += n
		if err != nil {
			return
		}
		if gap > 0 {
			http.NewResponseController(w).Flush()
			time.Sleep(time.Duration(gap) * time.Millisecond)
		}
	}
	if trailer {
		h.Set("X-Sim-Sum", "sum-"+r.id)
	}
	r.complete = true
	if beh == "close" {
		// Closes the connection soon after the response, without warning.
		e.w.fault("server-closes-idle")
		go func() {
			time.Sleep(time.Duration(arg("X-Sim-Key")%20) * 100 * time.Millisecond)
			ci.sock.Close()
		}()
	}
}

type pieceReader struct {
	key  uint32
	pos  int
	n    int
	gap  time.Duration
	done chan struct{}
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if p.pos >= p.n {
		return 0, io.EOF
	}
	if p.gap > 0 && p.pos > 0 {
		t := time.NewTimer(p.gap)
		select {
		case <-t.C:
		case <-p.done:
			t.Stop()
			return 0, errors.New("canceled")
		}
	}
	k := min(len(b), p.n-p.pos, 4096)
	fillStream(b[:k], p.key, 0, p.pos)
	p.pos += k
	return k, nil
}

const (
	spoofXFF = 1 << iota
	spoofXFCC
	spoofHop
	spoofVia
	spoofCookie
)

func (e *edge) makeReq(r *ReqRec, ctx context.Context) *http.Request {
	s := r.Spec
	m := s.Method
	if m == "" {
		m = "GET"
	}
	host := s.Host
	if host == "" {
		host = r.hc.Spec.SNI
	}
	path := s.Path
	if path == "" {
		path = "/"
	}
	var body io.Reader
	if s.Up > 0 {
		body = &pieceReader{key: r.key, n: s.Up, gap: time.Duration(s.UpGap) * time.Millisecond, done: make(chan struct{})}
	}
	req, err := http.NewRequestWithContext(ctx, m, "https://"+host+path, body)
	if err != nil {
		panic(err)
	}
	if s.Up > 0 {
		req.ContentLength = int64(s.Up)
		if s.NoLen {
			req.ContentLength = -1
		}
	}
	h := req.Header
	h.Set("X-Sim-Id", r.id)
	h.Set("X-Sim-Key", fmt.Sprint(r.key))
	h.Set("X-Sim-Down", fmt.Sprint(s.Down))
	h.Set("X-Sim-Delay", fmt.Sprint(s.SrvMs))
	h.Set("X-Sim-Gap", fmt.Sprint(s.DnGap))
	h.Set("X-Sim-Status", fmt.Sprint(s.Status))
	switch s.Enc {
	case "":
		h.Set("Accept-Encoding", "identity")
	case "none":
	default:
		h.Set("Accept-Encoding", s.Enc)
	}
	if s.Tr {
		h.Set("X-Sim-Trailer", "1")
	}
	h.Set("User-Agent", "sim/"+r.id)
	h.Add("X-Multi", "one "+r.id)
	h.Add("X-Multi", "two "+r.id)
	if s.NoLen {
		h.Set("X-Sim-Nolen", "1")
	}
	if s.Beh != "" {
		h.Set("X-Sim-Beh", s.Beh)
	}
	if s.Spoof&spoofXFF != 0 {
		h.Add("X-Forwarded-For", "198.18.0.66")
		h.Add("X-Forwarded-For", "198.18.0.67")
	}
	if s.Spoof&spoofXFCC != 0 {
		h.Add("X-Forwarded-Client-Cert", `Subject="CN=admin";Hash=00`)
	}
	if s.Spoof&spoofHop != 0 && r.hc.proto != "h2" {
		h.Set("Connection", "X-Hop, X-Forwarded-For")
		h.Set("X-Hop", "hop")
	}
	if s.Spoof&spoofVia != 0 {
		h.Set("Via", "1.1 other.example")
	}
	if s.Spoof&spoofCookie != 0 {
		h.Set("Cookie", "x=1; y="+r.id)
	}
	return req
}

func (e *edge) readResp(r *ReqRec, resp *http.Response) {
	r.status = resp.StatusCode
	r.respID = resp.Header.Get("X-Resp-Id")
	r.respSrv = resp.Header.Get("X-Resp-Srv")
	own := r.respID != ""
	if own {
		if c := resp.Header["Set-Cookie"]; len(c) != 2 || c[0] != "a="+r.respID || c[1] != "b="+r.respID {
			r.hdrErr = fmt.Sprintf("Set-Cookie is %q", c)
		}
		if v := resp.Header.Get("Content-Type"); v != "application/x-sim" && resp.StatusCode != 304 {
			r.hdrErr = fmt.Sprintf("Content-Type is %q", v)
		}
	}
	if own && resp.StatusCode != 304 && resp.StatusCode != 204 {
		want := int64(r.Spec.Down)
		if r.Spec.NoLen {
			want = -1
		}
		if resp.ContentLength != want && want >= 0 {
			r.hdrErr = fmt.Sprintf("the length is %d", resp.ContentLength)
		}
		enc := ""
		if strings.Contains(r.Spec.Enc, "gzip") {
			enc = "gzip"
		}
		if v := resp.Header.Get("Content-Encoding"); v != enc {
			r.hdrErr = fmt.Sprintf("Content-Encoding is %q", v)
		}
	}
	defer func() {
		if own && r.complete && r.Spec.Tr && resp.ContentLength < 0 && r.Spec.Method != "HEAD" && resp.StatusCode != 304 && resp.StatusCode != 204 {
			if v := resp.Trailer.Get("X-Sim-Sum"); v != "sum-"+r.respID && r.hdrErr == "" {
				r.hdrErr = fmt.Sprintf("the trailer is %q", v)
			}
			e.w.probe("trailer")
		}
	}()
	buf := make([]byte, 8192)
	for {
		n, err := resp.Body.Read(buf)
		if own {
			if m := checkStream(buf[:n], r.key, 1, r.got); m != "" && r.corrupt == "" {
				r.corrupt = "response body " + m
			}
		}
		r.got += n
		if err != nil {
			if err == io.EOF {
				r.complete = true
			} else {
				r.err = err
			}
			break
		}
	}
	resp.Body.Close()
}

func (e *edge) runHConn(op int, s *HConnSpec) {
	hc := &HConnRec{Op: op, Spec: s, tStart: e.w.since()}
	for i := range s.Reqs {
		r := &ReqRec{hc: hc, id: fmt.Sprintf("%d.%d", op, i), key: uint32((op+1)*100 + i), Spec: &s.Reqs[i]}
		hc.reqs = append(hc.reqs, r)
	}
	e.mu.Lock()
	e.hconns = append(e.hconns, hc)
	e.hreqs = append(e.hreqs, hc.reqs...)
	e.mu.Unlock()
	e.w.ev("http client %d connects src=%s sni=%q alpn=%v", op, s.Src, s.SNI, s.ALPN)
	defer func() {
		hc.tEnd = e.w.since()
		if hc.tSettle == 0 {
			hc.tSettle = hc.tEnd
		}
		hc.done = true
		e.w.ev("http client %d done hs=%v proto=%q alert=%#x err=%v", op, hc.hsDone, hc.proto, hc.alert, hc.err != nil)
	}()
	sc, err := e.dialProxy(s.Src, s.Via, s.ViaSrc, 0)
	if err != nil {
		hc.dialErr = err
		return
	}
	hc.sock = sc
	e.clientFaults(op, sc)
	defer sc.Close()
	sc.SetDeadline(time.Now().Add(10 * time.Minute))
	tc := tls.Client(sc, e.clientTLS(&ConnSpec{SNI: s.SNI, ALPN: s.ALPN, Cert: s.Cert, Resume: s.Resume}))
	if err := tc.Handshake(); err != nil {
		hc.err = err
		hc.alert = alertOf(err)
		return
	}
	sc.SetDeadline(time.Now().Add(3 * time.Hour))
	hc.hsDone = true
	hc.proto = tc.ConnectionState().NegotiatedProtocol
	if tc.ConnectionState().DidResume {
		e.w.probe("resumed")
	}
	hc.tSettle = e.w.since()
	if hc.proto == "h2" {
		e.h2Client(hc, tc)
	} else {
		e.h1Client(hc, sc, tc)
	}
	switch s.End {
	case "abort":
		sc.Abort()
	case "hold":
		// Keep the connection open, idle.
		b := make([]byte, 1)
		if hc.proto == "h2" {
			time.Sleep(time.Duration(s.HoldMs) * time.Millisecond)
			break
		}
		sc.SetReadDeadline(time.Now().Add(time.Duration(s.HoldMs) * time.Millisecond))
		_, err := tc.Read(b)
		hc.alert = alertOf(err)
	}
	tc.Close()
}

func (e *edge) logReq(r *ReqRec) {
	r.tEnd = e.w.since()
	r.done = true
	e.w.ev("request %s done status=%d resp=%s from=%s got=%d complete=%v err=%v", r.id, r.status, r.respID, r.respSrv, r.got, r.complete, r.err != nil)
}

func (e *edge) h1Client(hc *HConnRec, sc *simConn, tc *tls.Conn) {
	br := bufio.NewReader(tc)
	one := func(r *ReqRec) (*http.Request, bool) {
		if r.Spec.GapMs > 0 {
			time.Sleep(time.Duration(r.Spec.GapMs) * time.Millisecond)
		}
		r.tStart = e.w.since()
		r.started = true
		req := e.makeReq(r, context.Background())
		if r.Spec.Cancel > 0 {
			r.canceled = true
			time.AfterFunc(time.Duration(r.Spec.Cancel)*time.Millisecond, func() { sc.Abort() })
		}
		bw := bufio.NewWriterSize(tc, 4096)
		err := req.Write(bw)
		if err == nil {
			err = bw.Flush()
		}
		if err != nil {
			r.err = err
			return req, false
		}
		return req, true
	}
	read := func(r *ReqRec, req *http.Request) bool {
		resp, err := http.ReadResponse(br, req)
		if err != nil {
			r.err = err
			if a := alertOf(err); a != 0 {
				hc.alert = a
			}
			return false
		}
		e.readResp(r, resp)
		return r.err == nil && !resp.Close
	}
	if hc.Spec.Par {
		// Pipelined: all are written while the answers are read.
		wdone := make(chan struct{})
		go func() {
			defer close(wdone)
			for _, r := range hc.reqs {
				if _, ok := one(r); !ok {
					return
				}
			}
		}()
		alive := true
		for _, r := range hc.reqs {
			if alive {
				m := r.Spec.Method
				if m == "" {
					m = "GET"
				}
				alive = read(r, &http.Request{Method: m})
				if !alive {
					sc.Close()
					<-wdone
				}
			} else if r.err == nil {
				r.err = errors.New("connection closed")
			}
			e.logReq(r)
		}
		<-wdone
		return
	}
	for _, r := range hc.reqs {
		wdone := make(chan bool, 1)
		reqc := make(chan *http.Request, 1)
		// The server may answer before it has read everything.
		go func() {
			req, ok := one(r)
			reqc <- req
			wdone <- ok
		}()
		req := &http.Request{Method: r.Spec.Method}
		if req.Method == "" {
			req.Method = "GET"
		}
		ok := read(r, req)
		if !ok {
			sc.Close()
		}
		if !<-wdone {
			ok = false
		}
		e.logReq(r)
		if !ok {
			return
		}
	}
}

func (e *edge) h2Client(hc *HConnRec, tc *tls.Conn) {
	tr := &http2.Transport{DisableCompression: true}
	cc, err := tr.NewClientConn(tc)
	if err != nil {
		hc.err = err
		return
	}
	do := func(r *ReqRec) {
		if r.Spec.GapMs > 0 {
			time.Sleep(time.Duration(r.Spec.GapMs) * time.Millisecond)
		}
		ctx := context.Background()
		r.tStart = e.w.since()
		r.started = true
		if r.Spec.Cancel > 0 {
			r.canceled = true
			var cancel context.CancelFunc
			ctx, cancel = context.WithTimeout(ctx, time.Duration(r.Spec.Cancel)*time.Millisecond)
			defer cancel()
		}
		req := e.makeReq(r, ctx)
		resp, err := cc.RoundTrip(req)
		if err != nil {
			r.err = err
		} else {
			e.readResp(r, resp)
		}
		e.logReq(r)
	}
	if hc.Spec.Par {
		var wg sync.WaitGroup
		for _, r := range hc.reqs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				do(r)
			}()
		}
		wg.Wait()
		return
	}
	for _, r := range hc.reqs {
		do(r)
	}
}

var _ = bytes.NewReader
var _ = strings.ToLower
