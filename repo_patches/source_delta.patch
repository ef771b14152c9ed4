From ef8ca1ce1f0c8e1ab20aeb6f10e863b9744d66d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 01/36] fix: re-authorize only connections that have a backend,
 and the right one

Reconfigure's reAuthorize crashed on connections without a backend or without a
client certificate, looked the backend up with the wrong protocols, and could
miss connections that had picked their backend before the config changed.
---
 proxy/proxy.go | 43 ++++++++++++++++++++++++++++++++++++-------
 proxy/quic.go  |  5 ++---
 proxy/util.go  | 13 +++++++++----
 3 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index fd4c9bc..562c9fb 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -82,6 +82,7 @@ const (
 	dialDoneKey      = "d"
 	serverNameKey    = "sn"
 	protoKey         = "p"
+	helloProtosKey   = "hp"
 	clientCertKey    = "c"
 	internalConnKey  = "ic"
 	reportEndKey     = "re"
@@ -864,19 +865,21 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 
 func (p *Proxy) reAuthorize() {
 	for _, conn := range p.inConns.slice() {
-		if !connServerNameIsSet(conn) {
+		oldBE := connBackend(conn)
+		if oldBE == nil {
+			// The connection isn't associated with any backend
+			// yet. When it is, it will use the current config.
 			continue
 		}
 		serverName := connServerName(conn)
-		proto := connProto(conn)
-		be, err := p.backend(serverName, proto)
+		be, err := p.backend(serverName, connHelloProtos(conn)...)
 		if err != nil {
 			p.recordEvent(err.Error())
-			be.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
+			p.logErrorF("BAD [-] ReAuth %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
 			conn.Close()
 			continue
 		}
-		if oldBE := connBackend(conn); be.Mode != oldBE.Mode {
+		if be.Mode != oldBE.Mode {
 			be.logErrorF("INF [-] ReAuth %s ➔  %q backend mode changed %s->%s", conn.RemoteAddr(), idnaToUnicode(serverName), oldBE.Mode, be.Mode)
 			conn.Close()
 			continue
@@ -891,6 +894,14 @@ func (p *Proxy) reAuthorize() {
 			continue
 		}
 		clientCert := connClientCert(conn)
+		if clientCert == nil {
+			// The client didn't present any certificate, or it
+			// hasn't completed the TLS handshake yet.
+			p.recordEvent(fmt.Sprintf("deny no cert to %s", idnaToUnicode(serverName)))
+			be.logErrorF("BAD [-] ReAuth %s ➔ %q: no client certificate", conn.RemoteAddr(), idnaToUnicode(serverName))
+			conn.Close()
+			continue
+		}
 		if err := be.authorize(clientCert); err != nil {
 			p.recordEvent(err.Error())
 			be.logErrorF("BAD [-] ReAuth %s ➔ %q Authorize(%q): %v", conn.RemoteAddr(), idnaToUnicode(serverName), certSummary(clientCert), err)
@@ -1171,15 +1182,15 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 		serverName = p.defaultServerName()
 	}
 	conn.SetAnnotation(serverNameKey, serverName)
+	conn.SetAnnotation(helloProtosKey, hello.ALPNProtos)
 
-	be, err := p.backend(serverName, hello.ALPNProtos...)
+	be, err := p.assignBackend(conn, serverName, hello.ALPNProtos...)
 	if err != nil {
 		p.recordEvent(err.Error())
 		p.logErrorF("BAD [-] %s ➔ %q: %v", conn.RemoteAddr(), serverName, err)
 		sendUnrecognizedName(conn)
 		return
 	}
-	conn.SetAnnotation(backendKey, be)
 	be.incInFlight(1)
 	p.setCounters(conn, serverName)
 	if l := be.bwLimit; l != nil {
@@ -1408,6 +1419,24 @@ func (p *Proxy) defaultServerName() string {
 func (p *Proxy) backend(serverName string, protos ...string) (*Backend, error) {
 	p.mu.RLock()
 	defer p.mu.RUnlock()
+	return p.backendLocked(serverName, protos...)
+}
+
+// assignBackend finds the backend for this connection and records it in the
+// connection's annotations. The two happen in the same critical section so that
+// reAuthorize sees every connection that isn't using the current config.
+func (p *Proxy) assignBackend(conn annotatedConnection, serverName string, protos ...string) (*Backend, error) {
+	p.mu.RLock()
+	defer p.mu.RUnlock()
+	be, err := p.backendLocked(serverName, protos...)
+	if err != nil {
+		return nil, err
+	}
+	conn.SetAnnotation(backendKey, be)
+	return be, nil
+}
+
+func (p *Proxy) backendLocked(serverName string, protos ...string) (*Backend, error) {
 	var be *Backend
 	var ok bool
 	for _, proto := range protos {
diff --git a/proxy/quic.go b/proxy/quic.go
index f05fe8e..261f157 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -155,15 +155,14 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 		sum = "-"
 	}
 
-	be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
+	be, err := p.assignBackend(qc, cs.ServerName, cs.NegotiatedProtocol)
 	if err != nil {
 		p.recordEvent(err.Error())
-		be.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
+		p.logErrorF("BAD [%s] %s:%s ➔ %q: %v", sum, qc.RemoteAddr().Network(), qc.RemoteAddr(), cs.ServerName, err)
 		qc.CloseWithError(quicUnrecognizedName, "unrecognized name")
 		return
 	}
 	be.incInFlight(1)
-	qc.SetAnnotation(backendKey, be)
 	p.setCounters(qc, cs.ServerName)
 
 	if numOpen >= p.cfg.MaxOpen {
diff --git a/proxy/util.go b/proxy/util.go
index ab3db02..90b0327 100644
--- a/proxy/util.go
+++ b/proxy/util.go
@@ -74,10 +74,6 @@ func annotatedConn(c anyConn) annotatedConnection {
 	}
 }
 
-func connServerNameIsSet(c anyConn) bool {
-	return annotatedConn(c).Annotation(serverNameKey, nil) != nil
-}
-
 func connServerName(c anyConn) string {
 	if v, ok := annotatedConn(c).Annotation(serverNameKey, "").(string); ok {
 		return v
@@ -92,6 +88,15 @@ func connProto(c anyConn) string {
 	return ""
 }
 
+// connHelloProtos returns the protocols with which the connection's backend was
+// selected.
+func connHelloProtos(c anyConn) []string {
+	if v, ok := annotatedConn(c).Annotation(helloProtosKey, nil).([]string); ok {
+		return v
+	}
+	return []string{connProto(c)}
+}
+
 func connClientCert(c anyConn) *x509.Certificate {
 	if v, ok := annotatedConn(c).Annotation(clientCertKey, (*x509.Certificate)(nil)).(*x509.Certificate); ok {
 		return v
-- 
2.43.0


From 7f0fb4482a4c7f0c44d8d4c36b81f608888c7bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 02/36] fix: apply the forward rate limit to HTTP requests

The connection in the request's context is a *tls.Conn, which isn't an
annotatedConnection itself, so the limit was never applied.
---
 proxy/backend-http.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 2c136c7..a2311fa 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -240,7 +240,8 @@ func (be *Backend) reverseProxy() http.Handler {
 
 		// Apply the forward rate limit. The first request was already
 		// counted when the connection was established.
-		if conn, ok := ctx.Value(connCtxKey).(annotatedConnection); ok {
+		if c, ok := ctx.Value(connCtxKey).(anyConn); ok {
+			conn := annotatedConn(c)
 			if !conn.Annotation(requestFlagKey, false).(bool) {
 				conn.SetAnnotation(requestFlagKey, true)
 			} else if err := be.connLimit.Wait(ctx); err != nil {
-- 
2.43.0


From 0fe147f10db4072c12404363a21072b03ff8bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 03/36] fix: find bandwidth limits whose name isn't all lower
 case

Backends look the limit up by the name in the config.
---
 proxy/proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 562c9fb..f1cbba2 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -414,7 +414,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 
 	for _, bwl := range cfg.BWLimits {
 		const minBurst = 1 << 17 // 128 KB
-		name := strings.ToLower(bwl.Name)
+		name := bwl.Name
 		if l, ok := p.bwLimits[name]; ok {
 			l.ingress.SetLimit(rate.Limit(bwl.Ingress))
 			l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
-- 
2.43.0


From 6cde5c351846cebff38b49c038c54d6e8a6325ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 04/36] fix: try every backend address before giving up

Concurrent dials share the round robin position. When they both skip addresses
that don't respond, each one could miss the addresses that do.
---
 proxy/backend.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/proxy/backend.go b/proxy/backend.go
index 4187ce7..6fdea12 100644
--- a/proxy/backend.go
+++ b/proxy/backend.go
@@ -130,16 +130,14 @@ func (be *Backend) dial(ctx context.Context, protos ...string) (net.Conn, error)
 			return nil
 		},
 	}
-	var max int
-	for {
-		be.state.mu.Lock()
-		sz := len(addresses)
-		if max == 0 {
-			max = sz
-		}
-		addr := addresses[*next]
-		*next = (*next + 1) % sz
-		be.state.mu.Unlock()
+	sz := len(addresses)
+	be.state.mu.Lock()
+	first := *next
+	*next = (first + 1) % sz
+	be.state.mu.Unlock()
+
+	for try := 0; ; try++ {
+		addr := addresses[(first+try)%sz]
 
 		var c net.Conn
 		var err error
@@ -160,8 +158,7 @@ func (be *Backend) dial(ctx context.Context, protos ...string) (net.Conn, error)
 			}
 		}
 		if err != nil {
-			max--
-			if max > 0 {
+			if try+1 < sz {
 				be.logErrorF("ERR dial %q: %v", addr, err)
 				continue
 			}
-- 
2.43.0


From 65c60949e68e03159d58df8106b1a558284d3666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 05/36] fix: close idle http/2 connections to the backends

---
 proxy/backend-http.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index a2311fa..fd51038 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -488,6 +488,7 @@ func (be *Backend) reverseProxyTransport() http.RoundTripper {
 		},
 		DisableCompression: true,
 		AllowHTTP:          true,
+		IdleConnTimeout:    10 * time.Second,
 		ReadIdleTimeout:    10 * time.Second,
 		WriteByteTimeout:   30 * time.Second,
 		CountError: func(errType string) {
-- 
2.43.0


From 8bc42a2e9a26f9c47e818c5c0ede68ae51757d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 06/36] fix: close the connections that the HTTP server doesn't
 accept

They would otherwise stay open after the listener is closed.
---
 proxy/http.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/http.go b/proxy/http.go
index f511d55..705b28e 100644
--- a/proxy/http.go
+++ b/proxy/http.go
@@ -90,7 +90,8 @@ func (l *proxyListener) Close() error {
 		l.closed = true
 		close(l.closedCh)
 		go func() {
-			for range l.ch {
+			for c := range l.ch {
+				c.Close()
 			}
 		}()
 	}
-- 
2.43.0


From 04955e5d243c16b013f7ad1732d0176d283059ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 07/36] fix: don't miss the last connection closing during
 Shutdown

Without the lock, the broadcast could come between the check for connections
that are left and the wait.
---
 proxy/proxy.go | 8 +++++---
 proxy/quic.go  | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index f1cbba2..8a0dcf5 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -915,7 +915,7 @@ func (p *Proxy) reAuthorize() {
 // in background until the context is canceled.
 func (p *Proxy) Start(ctx context.Context) error {
 	p.startTime = time.Now()
-	p.connClosed = sync.NewCond(&p.mu)
+	p.connClosed = sync.NewCond(&sync.Mutex{})
 	var httpServer *http.Server
 	if p.cfg.HTTPAddr != "" {
 		httpServer = &http.Server{
@@ -1026,8 +1026,8 @@ func (p *Proxy) Shutdown(ctx context.Context) {
 			}
 			return false
 		}
-		p.mu.Lock()
-		defer p.mu.Unlock()
+		p.connClosed.L.Lock()
+		defer p.connClosed.L.Unlock()
 		for connLeft() {
 			p.connClosed.Wait()
 		}
@@ -1160,7 +1160,9 @@ func (p *Proxy) handleConnection(conn *netw.Conn) {
 					conn.BytesReceived(), conn.BytesSent())
 			}
 		}
+		p.connClosed.L.Lock()
 		p.connClosed.Broadcast()
+		p.connClosed.L.Unlock()
 	})
 	if numOpen >= p.cfg.MaxOpen {
 		p.recordEvent("too many open connections")
diff --git a/proxy/quic.go b/proxy/quic.go
index 261f157..5fdb629 100644
--- a/proxy/quic.go
+++ b/proxy/quic.go
@@ -136,7 +136,9 @@ func (p *Proxy) handleQUICConnection(qc *netw.QUICConn) {
 				formatConnDesc(qc), time.Since(startTime).Truncate(time.Millisecond),
 				qc.BytesReceived(), qc.BytesSent())
 		}
+		p.connClosed.L.Lock()
 		p.connClosed.Broadcast()
+		p.connClosed.L.Unlock()
 	})
 	qc.SetAnnotation(startTimeKey, time.Now())
 
-- 
2.43.0


From 0a42c82658465a2cd0b1de7951c7f5ae9e09efaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 08/36] fix: accept client certificates from clients without
 SNI

The handshake always failed because the default server name wasn't used to look
up the backend.
---
 proxy/proxy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 8a0dcf5..12a8418 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -586,6 +586,9 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 				}
 			}
 			tc.VerifyConnection = func(cs tls.ConnectionState) error {
+				if cs.ServerName == "" {
+					cs.ServerName = p.defaultServerName()
+				}
 				be, err := p.backend(cs.ServerName, cs.NegotiatedProtocol)
 				if err != nil {
 					return tlsUnrecognizedName
-- 
2.43.0


From 30c5246a079bfa0ae4fd1b793d93ccf55eeb4f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 09/36] fix: don't make truncated responses look complete

The handler recovered from http.ErrAbortHandler, with which ReverseProxy asks
the HTTP server to abort the response.
---
 proxy/backend-http.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index fd51038..eed5d79 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -68,9 +68,12 @@ var (
 func (be *Backend) logPanic(req *http.Request, recovered any) {
 	if recovered == http.ErrAbortHandler {
 		be.logErrorF("ERR %s ➔ %s %s ➔ Aborted (%q)", formatReqDesc(req), req.Method, req.URL, userAgent(req))
-		return
+	} else {
+		be.logErrorF("PANIC: %#v\n%s", recovered, string(debug.Stack()))
 	}
-	be.logErrorF("PANIC: %#v\n%s", recovered, string(debug.Stack()))
+	// Let the http server abort the response. Otherwise, a response that was
+	// cut short would look complete to the client.
+	panic(http.ErrAbortHandler)
 }
 
 // localHandler returns an HTTP handler for backends that are served entirely by
-- 
2.43.0


From adf72f07d8ad72821a01f857541cbdbd518934a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 10/36] fix: a rejected configuration doesn't change the
 bandwidth limits

---
 proxy/proxy.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/proxy/proxy.go b/proxy/proxy.go
index 12a8418..227fdad 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -412,17 +412,14 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 		pkis[pp.Name] = m
 	}
 
+	// The existing limits are used by open connections. They are updated
+	// only when the new configuration takes effect, at the end.
+	const minBurst = 1 << 17 // 128 KB
 	for _, bwl := range cfg.BWLimits {
-		const minBurst = 1 << 17 // 128 KB
-		name := bwl.Name
-		if l, ok := p.bwLimits[name]; ok {
-			l.ingress.SetLimit(rate.Limit(bwl.Ingress))
-			l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
-			l.egress.SetLimit(rate.Limit(bwl.Egress))
-			l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
+		if _, ok := p.bwLimits[bwl.Name]; ok {
 			continue
 		}
-		p.bwLimits[name] = &bwLimit{
+		p.bwLimits[bwl.Name] = &bwLimit{
 			ingress: rate.NewLimiter(rate.Limit(bwl.Ingress), int(max(bwl.Ingress, minBurst))),
 			egress:  rate.NewLimiter(rate.Limit(bwl.Egress), int(max(bwl.Egress, minBurst))),
 		}
@@ -858,6 +855,13 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 			be.close(p.ctx)
 		}
 	}
+	for _, bwl := range cfg.BWLimits {
+		l := p.bwLimits[bwl.Name]
+		l.ingress.SetLimit(rate.Limit(bwl.Ingress))
+		l.ingress.SetBurst(int(max(bwl.Ingress, minBurst)))
+		l.egress.SetLimit(rate.Limit(bwl.Egress))
+		l.egress.SetBurst(int(max(bwl.Egress, minBurst)))
+	}
 	p.defServerName = cfg.DefaultServerName
 	p.backends = backends
 	p.pkis = pkis
-- 
2.43.0


From 77ec559c9b221774057432752ec37e39fa2e65bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 11/36] fix: bound the time spent waiting for the identity
 provider

---
 proxy/internal/oidc/client.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index 872b074..c8f4a4c 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -80,6 +80,11 @@ type CookieManager interface {
 	ClearCookies(w http.ResponseWriter) error
 }
 
+// httpClient is used to send requests to the identity providers.
+var httpClient = &http.Client{
+	Timeout: 30 * time.Second,
+}
+
 // EventRecorder is used to record events.
 type EventRecorder interface {
 	Record(string)
@@ -114,7 +119,7 @@ func New(cfg Config, er EventRecorder, cm CookieManager) (*ProviderClient, error
 		states: make(map[string]*oauthState),
 	}
 	if p.cfg.DiscoveryURL != "" {
-		resp, err := http.Get(p.cfg.DiscoveryURL)
+		resp, err := httpClient.Get(p.cfg.DiscoveryURL)
 		if err != nil {
 			return nil, err
 		}
@@ -241,7 +246,7 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 	}
 	req.Header.Set("content-type", "application/x-www-form-urlencoded")
 	req.Header.Set("accept", "application/json")
-	resp, err := http.DefaultClient.Do(req)
+	resp, err := httpClient.Do(req)
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusInternalServerError)
 		return
@@ -285,7 +290,7 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 		}
 		req.Header.Set("authorization", "Bearer "+data.AccessToken)
 		req.Header.Set("accept", "application/json")
-		resp, err := http.DefaultClient.Do(req)
+		resp, err := httpClient.Do(req)
 		if err != nil {
 			http.Error(w, err.Error(), http.StatusInternalServerError)
 			return
-- 
2.43.0


From f86b837260bf1d04f185690dd47ebe68d986910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 12/36] fix: only accept an ID token that was issued for the
 current login

---
 proxy/internal/oidc/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proxy/internal/oidc/client.go b/proxy/internal/oidc/client.go
index c8f4a4c..fdd982b 100644
--- a/proxy/internal/oidc/client.go
+++ b/proxy/internal/oidc/client.go
@@ -308,6 +308,11 @@ func (p *ProviderClient) HandleCallback(w http.ResponseWriter, req *http.Request
 	if claims.Nonce == "" {
 		claims.Nonce = nonce
 	}
+	if claims.Nonce != nonce {
+		p.er.Record("invalid nonce")
+		http.Error(w, "invalid nonce", http.StatusForbidden)
+		return
+	}
 	p.mu.Lock()
 	state, ok = p.states[claims.Nonce]
 	delete(p.states, claims.Nonce)
-- 
2.43.0


From a13054f5ea134333a191c0014c0b0cdb55d4fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 13/36] fix: redeem authorization codes only with the redirect
 URI they were sent to

---
 proxy/internal/oidc/server.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/oidc/server.go b/proxy/internal/oidc/server.go
index 5cb15bb..b3e3df9 100644
--- a/proxy/internal/oidc/server.go
+++ b/proxy/internal/oidc/server.go
@@ -73,6 +73,7 @@ type openIDConfiguration struct {
 type codeData struct {
 	created     time.Time
 	clientID    string
+	redirectURI string
 	token       string
 	scope       string
 	accessToken string
@@ -314,6 +315,7 @@ func (s *ProviderServer) ServeAuthorization(w http.ResponseWriter, req *http.Req
 	s.codes[code] = &codeData{
 		created:     now,
 		clientID:    clientID,
+		redirectURI: redirectURI,
 		token:       token,
 		scope:       sc,
 		accessToken: accessToken,
@@ -368,7 +370,7 @@ func (s *ProviderServer) ServeToken(w http.ResponseWriter, req *http.Request) {
 	delete(s.codes, code)
 	s.mu.Unlock()
 
-	if !ok || data.clientID != clientID {
+	if !ok || data.clientID != clientID || data.redirectURI != redirectURI {
 		http.Error(w, "invalid request", http.StatusBadRequest)
 		return
 	}
-- 
2.43.0


From 7a308d51901aa30defd3b942a8ae88db7c14f91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 14/36] fix: clients can't remove the headers set by the proxy

---
 proxy/backend-http.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index eed5d79..dceab40 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -192,6 +192,28 @@ func (be *Backend) serveStaticFiles(w http.ResponseWriter, req *http.Request, do
 	http.ServeContent(w, req, p, fi.ModTime(), f)
 }
 
+// removeConnectionHeaders removes the headers that are listed in the Connection
+// header. The reverse proxy would otherwise remove them from the forwarded
+// request after they have been set by the proxy.
+func removeConnectionHeaders(h http.Header) {
+	upgrade := false
+	for _, v := range h["Connection"] {
+		for _, name := range commaRE.Split(v, -1) {
+			switch name = strings.TrimSpace(name); strings.ToLower(name) {
+			case "upgrade":
+				upgrade = true
+			case "", "te":
+			default:
+				h.Del(name)
+			}
+		}
+	}
+	h.Del("Connection")
+	if upgrade {
+		h.Set("Connection", "Upgrade")
+	}
+}
+
 // reverseProxy returns an HTTP handler for backends that act as a reverse
 // proxy for remote servers. This handler can also serve local endpoints.
 func (be *Backend) reverseProxy() http.Handler {
@@ -207,6 +229,7 @@ func (be *Backend) reverseProxy() http.Handler {
 				be.logPanic(req, r)
 			}
 		}()
+		removeConnectionHeaders(req.Header)
 		if !be.authenticateUser(w, &req) {
 			return
 		}
-- 
2.43.0


From fa188f23c5f64d40d2f3e5e0c070be9ccee3c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 15/36] fix: never forward the authentication cookie to single
 sign-on backends

---
 proxy/backend-http.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index dceab40..286da57 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -45,6 +45,9 @@ import (
 	"time"
 
 	"golang.org/x/net/http2"
+
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/cookiemanager"
+	"github.com/c2FmZQ/tlsproxy/proxy/internal/tokenmanager"
 )
 
 const (
@@ -237,6 +240,12 @@ func (be *Backend) reverseProxy() http.Handler {
 			return
 		}
 
+		// Never forward the tlsproxy auth cookie, even when the path
+		// doesn't require authentication.
+		if be.SSO != nil {
+			cookiemanager.FilterOutAuthTokenCookie(req, tokenmanager.SessionIDCookieName)
+		}
+
 		// Verify that the HTTP request is directed at a server name
 		// that's configured for this backend. This prevents clients
 		// from using one server name in the TLS handshake, and then
-- 
2.43.0


From 280c2b3a16832f1e304a07bd1463622e174889b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 16/36] fix: ID tokens are only accepted by the backend they
 were issued for

---
 proxy/backend-sso.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/proxy/backend-sso.go b/proxy/backend-sso.go
index 644f33c..19e5ae2 100644
--- a/proxy/backend-sso.go
+++ b/proxy/backend-sso.go
@@ -107,9 +107,12 @@ func (be *Backend) authenticateUser(w http.ResponseWriter, req **http.Request) b
 
 func (be *Backend) checkCookies(w http.ResponseWriter, req *http.Request) (jwt.MapClaims, bool) {
 	// If a valid ID Token is in the authorization header, use it and
-	// ignore the cookies.
-	if tok, err := be.SSO.cm.ValidateAuthorizationHeader(req); err == nil {
-		return tok.Claims.(jwt.MapClaims), true
+	// ignore the cookies. The audience of the ID token is a host name. It
+	// must be one of this backend's.
+	if slices.Contains(be.ServerNames, hostFromReq(req)) {
+		if tok, err := be.SSO.cm.ValidateAuthorizationHeader(req); err == nil {
+			return tok.Claims.(jwt.MapClaims), true
+		}
 	}
 
 	authToken, err := be.SSO.cm.ValidateAuthTokenCookie(req)
-- 
2.43.0


From 512af32f44a0c4d42bc59f8870ff7e18c476763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 17/36] fix: keep token signing keys until the tokens they
 signed have expired

---
 proxy/internal/tokenmanager/tokenmanager.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index 7178468..c56e022 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -156,7 +156,13 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 		keys.Keys = append(keys.Keys, tk...)
 		changed = true
 	}
-	if keys.Keys[0].CreationTime.Add(7 * 24 * time.Hour).Before(now) {
+	// Remove a key when it's old, unless there could be valid tokens signed
+	// with it. Keys stop being used 2 hours after newer ones are created, and
+	// tokens are valid for up to 24 hours.
+	oldest := keys.Keys[0].CreationTime
+	if oldest.Add(7*24*time.Hour).Before(now) && slices.ContainsFunc(keys.Keys, func(k *tokenKey) bool {
+		return k.CreationTime.After(oldest.Add(time.Hour)) && k.CreationTime.Add(26*time.Hour).Before(now)
+	}) {
 		keys.Keys = keys.Keys[1:]
 		changed = true
 	}
-- 
2.43.0


From adc8df4ff1cdbe5cdc9e932e720b1d5090a4d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 18/36] fix: publish and use token keys only once they are
 stored

---
 proxy/internal/tokenmanager/tokenmanager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index c56e022..bb72ecf 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -190,10 +190,13 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 	keys.Keys = slices.DeleteFunc(keys.Keys, func(k *tokenKey) bool {
 		return k.privKey == nil
 	})
+	if err := commit(true, nil); err != nil {
+		return err
+	}
 	tm.mu.Lock()
 	tm.keys = keys
 	tm.mu.Unlock()
-	return commit(true, nil)
+	return nil
 }
 
 func (tm *TokenManager) createNewTokenKeys() ([]*tokenKey, error) {
-- 
2.43.0


From 4502eddf478427509ace6ad074bb48e15b91a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 19/36] fix: pad the coordinates of EC keys in the JWKS

---
 proxy/internal/tokenmanager/tokenmanager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index bb72ecf..2fef2eb 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -471,8 +471,8 @@ func (tm *TokenManager) ServeJWKS(w http.ResponseWriter, req *http.Request) {
 				ID:    key.ID,
 				Alg:   "ES256",
 				Curve: "P-256",
-				X:     base64.RawURLEncoding.EncodeToString(pub.X.Bytes()),
-				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.Bytes()),
+				X:     base64.RawURLEncoding.EncodeToString(pub.X.FillBytes(make([]byte, 32))),
+				Y:     base64.RawURLEncoding.EncodeToString(pub.Y.FillBytes(make([]byte, 32))),
 			})
 		case ed25519.PublicKey:
 			out.Keys = append(out.Keys, jwk{
-- 
2.43.0


From a867846649be84f0a3dd29e5622c0f71714e9c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 20/36] fix: discard changes to a CA's data that could not be
 saved

---
 proxy/internal/pki/pki.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index c2111f9..921e2c1 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -210,13 +210,26 @@ type revocationList struct {
 }
 
 func (m *PKIManager) open() (func(commit bool, errp *error) error, error) {
+	// The data is read into a new object. The previous one is restored if
+	// the changes made to the new one can't be saved, or are abandoned.
+	old := m.db
+	m.db = nil
 	commit, err := m.opts.Store.OpenForUpdate(m.pkiFile, &m.db)
 	if err != nil {
+		m.db = old
 		return nil, err
 	}
+	var done bool
 	return func(doCommit bool, errp *error) error {
+		abandon := !doCommit && errp != nil && *errp != nil
 		err := commit(doCommit, errp)
-		wipe(m.db.PrivateKey)
+		if m.db != nil {
+			wipe(m.db.PrivateKey)
+		}
+		if !done && (abandon || doCommit && err != nil) {
+			m.db = old
+		}
+		done = true
 		return err
 	}, nil
 }
-- 
2.43.0


From 9667c3141ff214f453437ad3d651b20ac0d05a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 21/36] fix: serve a CRL only if it is current and lists all
 revoked certificates

---
 proxy/internal/pki/pki.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index 921e2c1..109801e 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -511,18 +511,25 @@ func (m *PKIManager) RevocationList() (cert, crl []byte, retErr error) {
 	now := time.Now().UTC()
 
 	if len(m.db.RevocationLists) > 0 {
-		var lastRevocation time.Time
-		for _, c := range m.db.IssuedCerts {
-			if c.Revocation != nil && c.Revocation.Time.After(lastRevocation) {
-				lastRevocation = c.Revocation.Time
-			}
-		}
 		last := m.db.RevocationLists[len(m.db.RevocationLists)-1]
 		rl, err := x509.ParseRevocationList(last.RawCRL)
 		if err != nil {
 			return nil, nil, err
 		}
-		if !rl.ThisUpdate.Before(lastRevocation) && rl.NextUpdate.Add(crlRefreshPeriod/2).After(now) {
+		listed := make(map[string]bool)
+		for _, e := range rl.RevokedCertificateEntries {
+			listed[bytesToHex(e.SerialNumber.Bytes())] = true
+		}
+		// The timestamps don't tell whether a certificate was revoked before
+		// or after the list was made, when both are in the same second.
+		complete := !slices.ContainsFunc(m.db.IssuedCerts, func(c *certificate) bool {
+			if c.Revocation == nil || listed[c.SerialNumber] {
+				return false
+			}
+			cert, err := c.parse()
+			return err != nil || !now.After(cert.NotAfter)
+		})
+		if complete && !rl.ThisUpdate.After(now) && rl.NextUpdate.Add(-crlRefreshPeriod/2).After(now) {
 			return last.RawCert, rl.Raw, nil
 		}
 	}
-- 
2.43.0


From 10f2355c1adf20228270810476449594338047ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 22/36] fix: let the PKI managers of successive configurations
 share their state

---
 proxy/internal/pki/pki.go | 16 ++++++++++++++--
 proxy/proxy.go            |  1 +
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index 109801e..c00d378 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -121,6 +121,9 @@ type Options struct {
 	}
 	// ClaimsFromCtx returns jwt claims for the current user.
 	ClaimsFromCtx func(context.Context) jwt.MapClaims
+	// Previous is a PKI manager with the same Name and Store that is
+	// already in use. What one of them changes is visible to the other.
+	Previous *PKIManager
 }
 
 // New returns a new initialized PKI manager. The Certificate Authority's key
@@ -132,7 +135,12 @@ func New(opts Options) (*PKIManager, error) {
 	m := &PKIManager{
 		opts:    opts,
 		pkiFile: "pki-" + url.PathEscape(opts.Name),
+		state:   &state{},
 	}
+	if p := opts.Previous; p != nil && p.pkiFile == m.pkiFile {
+		m.state = p.state
+	}
+	m.opts.Previous = nil
 	if m.opts.KeyType == "" {
 		m.opts.KeyType = "ecdsa-p256"
 	}
@@ -148,8 +156,12 @@ func New(opts Options) (*PKIManager, error) {
 type PKIManager struct {
 	opts    Options
 	pkiFile string
-	mu      sync.Mutex
-	db      *certificateAuthority
+	*state
+}
+
+type state struct {
+	mu sync.Mutex
+	db *certificateAuthority
 }
 
 type certificateAuthority struct {
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 227fdad..143a36f 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -404,6 +404,7 @@ func (p *Proxy) Reconfigure(cfg *Config) error {
 			Store:                 p.store,
 			EventRecorder:         er,
 			ClaimsFromCtx:         claimsFromCtx,
+			Previous:              p.pkis[pp.Name],
 		}
 		m, err := pki.New(opts)
 		if err != nil {
-- 
2.43.0


From dc2b30c6b72dcd7af2e7f062e6fd4d95868e5569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 23/36] fix: accept OCSP GET requests whose encoding has a
 slash

---
 proxy/internal/pki/http.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/pki/http.go b/proxy/internal/pki/http.go
index dadb055..9693906 100644
--- a/proxy/internal/pki/http.go
+++ b/proxy/internal/pki/http.go
@@ -128,12 +128,14 @@ func (m *PKIManager) ServeOCSP(w http.ResponseWriter, req *http.Request) {
 	switch req.Method {
 	case http.MethodGet:
 		// https://www.rfc-editor.org/rfc/rfc6960.html#page-30
-		off := strings.LastIndex(req.URL.Path, "/")
+		// The slashes of the base64 encoding are escaped.
+		path := req.URL.EscapedPath()
+		off := strings.LastIndex(path, "/")
 		if off < 0 {
 			http.Error(w, "invalid request", http.StatusBadRequest)
 			return
 		}
-		data, err := url.PathUnescape(req.URL.Path[off+1:])
+		data, err := url.PathUnescape(path[off+1:])
 		if err != nil {
 			m.opts.Logger.Errorf("ERR url.PathUnescape: %v", err)
 			http.Error(w, "invalid request", http.StatusBadRequest)
-- 
2.43.0


From 15d923b69349236ec410fd0cc5ca3a1d2998fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 24/36] fix: don't hold a CA's lock while a client reads the
 response

---
 proxy/internal/pki/http.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/proxy/internal/pki/http.go b/proxy/internal/pki/http.go
index 9693906..3ac7788 100644
--- a/proxy/internal/pki/http.go
+++ b/proxy/internal/pki/http.go
@@ -26,6 +26,7 @@
 package pki
 
 import (
+	"bytes"
 	"compress/bzip2"
 	"crypto/sha256"
 	"crypto/x509"
@@ -43,6 +44,7 @@ import (
 	"path/filepath"
 	"slices"
 	"strings"
+	"sync"
 	"time"
 
 	"golang.org/x/crypto/ocsp"
@@ -75,25 +77,29 @@ func init() {
 
 // ServeCACert sends the CA's certificate.
 func (m *PKIManager) ServeCACert(w http.ResponseWriter, req *http.Request) {
+	// The lock must not be held while the client reads the response.
 	m.mu.Lock()
-	defer m.mu.Unlock()
-	if m.db == nil || m.db.CACert == nil {
+	var certs []*certificate
+	if m.db != nil && m.db.CACert != nil {
+		certs = append([]*certificate{m.db.CACert}, m.db.DelegateCerts...)
+	}
+	m.mu.Unlock()
+	if len(certs) == 0 {
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
 	}
 	w.Header().Set("cache-control", "public, max-age=86400")
+	var out []byte
 	if strings.HasSuffix(req.URL.Path, ".pem") {
 		w.Header().Set("content-type", "application/x-pem-file")
-		out := m.db.CACert.pem()
-		for _, c := range m.db.DelegateCerts {
+		for _, c := range certs {
 			out = append(out, c.pem()...)
 		}
 		etag(w, req, out)
 		return
 	}
 	w.Header().Set("content-type", "application/x-x509-ca-cert")
-	out := m.db.CACert.Raw
-	for _, c := range m.db.DelegateCerts {
+	for _, c := range certs {
 		out = append(out, c.Raw...)
 	}
 	etag(w, req, out)
@@ -223,7 +229,8 @@ func (m *PKIManager) ServeCertificateManagement(w http.ResponseWriter, req *http
 	ownerFilter := strings.ToLower(req.Form.Get("owner"))
 
 	m.mu.Lock()
-	defer m.mu.Unlock()
+	unlock := sync.OnceFunc(m.mu.Unlock)
+	defer unlock()
 
 	var currentSN string
 	if req.TLS != nil && len(req.TLS.PeerCertificates) > 0 {
@@ -339,8 +346,14 @@ func (m *PKIManager) ServeCertificateManagement(w http.ResponseWriter, req *http
 		CASubjectKeyId: bytesToHex(caCert.SubjectKeyId),
 		Certs:          certs,
 	}
+	// The lock must not be held while the client reads the page.
+	var out bytes.Buffer
+	if err := certsTemplate.Execute(&out, data); err != nil {
+		m.opts.Logger.Errorf("ERR certsTemplate: %v", err)
+	}
+	unlock()
 	w.Header().Set("X-Frame-Options", "DENY")
-	certsTemplate.Execute(w, data)
+	w.Write(out.Bytes())
 }
 
 func (m *PKIManager) handleRequestCert(w http.ResponseWriter, req *http.Request) {
-- 
2.43.0


From 5531455893e6b38c05981e58f8971c058c82a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 25/36] fix: read a CA's delegate certificate with the lock
 held

---
 proxy/internal/pki/pki.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/proxy/internal/pki/pki.go b/proxy/internal/pki/pki.go
index c00d378..598342a 100644
--- a/proxy/internal/pki/pki.go
+++ b/proxy/internal/pki/pki.go
@@ -409,13 +409,14 @@ func (m *PKIManager) parseKeyBytes(b []byte) (any, error) {
 	return x509.ParsePKCS8PrivateKey(b)
 }
 
-func (m *PKIManager) maybeRotateDelegateCert() error {
+// delegateStatus returns the CA's certificate and whether the delegate
+// certificate needs to be replaced.
+func (m *PKIManager) delegateStatus(now time.Time) (caCert *x509.Certificate, needUpdate bool, err error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	if m.db == nil {
-		return errors.New("no ca")
+		return nil, false, errors.New("no ca")
 	}
-	now := time.Now().UTC()
-
-	var needUpdate bool
 	if len(m.db.DelegateCerts) == 0 {
 		needUpdate = true
 	} else {
@@ -424,12 +425,14 @@ func (m *PKIManager) maybeRotateDelegateCert() error {
 			needUpdate = true
 		}
 	}
-	if !needUpdate {
-		return nil
-	}
+	caCert, err = m.db.CACert.parse()
+	return caCert, needUpdate, err
+}
 
-	caCert, err := m.db.CACert.parse()
-	if err != nil {
+func (m *PKIManager) maybeRotateDelegateCert() error {
+	now := time.Now().UTC()
+	caCert, needUpdate, err := m.delegateStatus(now)
+	if err != nil || !needUpdate {
 		return err
 	}
 
-- 
2.43.0


From b70281461ef44a84cf74d9e17d61e69ee838f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 26/36] fix: don't hold the SSH CA's lock while a client sends
 its request

---
 proxy/internal/sshca/sshca.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/proxy/internal/sshca/sshca.go b/proxy/internal/sshca/sshca.go
index d3e4efa..8d26938 100644
--- a/proxy/internal/sshca/sshca.go
+++ b/proxy/internal/sshca/sshca.go
@@ -241,14 +241,21 @@ func (ca *SSHCA) parseKeyBytes(b []byte) (any, error) {
 	return x509.ParsePKCS8PrivateKey(b)
 }
 
-func (ca *SSHCA) ServePublicKey(w http.ResponseWriter, req *http.Request) {
+// getSigner returns the CA's signer. The lock must not be held while a client
+// sends its request or reads the response.
+func (ca *SSHCA) getSigner() ssh.Signer {
 	ca.mu.Lock()
 	defer ca.mu.Unlock()
-	if ca.signer == nil {
+	return ca.signer
+}
+
+func (ca *SSHCA) ServePublicKey(w http.ResponseWriter, req *http.Request) {
+	signer := ca.getSigner()
+	if signer == nil {
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
 	}
-	out := ssh.MarshalAuthorizedKey(ca.signer.PublicKey())
+	out := ssh.MarshalAuthorizedKey(signer.PublicKey())
 	w.Header().Set("cache-control", "public, max-age=86400")
 	w.Header().Set("content-type", "text/plain")
 	w.Header().Set("content-length", fmt.Sprintf("%d", len(out)))
@@ -256,9 +263,8 @@ func (ca *SSHCA) ServePublicKey(w http.ResponseWriter, req *http.Request) {
 }
 
 func (ca *SSHCA) ServeCertificate(w http.ResponseWriter, req *http.Request) {
-	ca.mu.Lock()
-	defer ca.mu.Unlock()
-	if ca.signer == nil {
+	signer := ca.getSigner()
+	if signer == nil {
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
 	}
@@ -326,7 +332,7 @@ func (ca *SSHCA) ServeCertificate(w http.ResponseWriter, req *http.Request) {
 			},
 		},
 	}
-	if err := cert.SignCert(rand.Reader, ca.signer); err != nil {
+	if err := cert.SignCert(rand.Reader, signer); err != nil {
 		ca.opts.Logger.Errorf("ERR SignCert: %v", err)
 		http.Error(w, "internal error", http.StatusInternalServerError)
 		return
-- 
2.43.0


From e7ccadc8dcf073cd713b8b0768413ade8335aadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:39 +0000
Subject: [PATCH 27/36] fix: don't clean the encoded request in the path of an
 OCSP GET request

---
 proxy/backend-http.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 286da57..35e02a5 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -465,7 +465,8 @@ func (be *Backend) handleLocalEndpointsAndAuthorize(w http.ResponseWriter, req *
 		if !be.localHandlers[hi].ssoBypass && !be.enforceSSOPolicy(w, req) {
 			return false
 		}
-		if cleanPath != req.URL.Path {
+		// What follows the prefix isn't necessarily a path.
+		if cleanPath != req.URL.Path && !be.localHandlers[hi].matchPrefix {
 			be.redirectPermanently(w, req, cleanPath)
 			return false
 		}
-- 
2.43.0


From 5900e60347b6427c60a3a76f61413316d03b5db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 28/36] fix: load token keys that were stored by a rotation
 that seemed to fail

---
 proxy/internal/tokenmanager/tokenmanager.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/proxy/internal/tokenmanager/tokenmanager.go b/proxy/internal/tokenmanager/tokenmanager.go
index 2fef2eb..0fbbb63 100644
--- a/proxy/internal/tokenmanager/tokenmanager.go
+++ b/proxy/internal/tokenmanager/tokenmanager.go
@@ -115,13 +115,18 @@ func New(store *storage.Storage, tpm *tpm.TPM, logger logger) (*TokenManager, er
 
 // KeyRotationLoop takes care of key rotation. It runs until ctx is canceled.
 func (tm *TokenManager) KeyRotationLoop(ctx context.Context) {
+	wait := time.Hour
 	for {
 		select {
 		case <-ctx.Done():
 			return
-		case <-time.After(time.Hour):
+		case <-time.After(wait):
+			wait = time.Hour
 			if err := tm.rotateKeys(); err != nil && err != storage.ErrRolledBack {
 				tm.logger.Errorf("ERR tokenManager.rotateKeys(): %v", err)
+				// The new keys might have been saved anyway. Don't wait
+				// long to find out.
+				wait = time.Minute
 			}
 		}
 	}
@@ -166,7 +171,9 @@ func (tm *TokenManager) rotateKeys() (retErr error) {
 		keys.Keys = keys.Keys[1:]
 		changed = true
 	}
-	if !changed && len(tm.keys.Keys) > 0 {
+	// The keys in the file can differ from the ones in memory if saving them
+	// appeared to fail the last time.
+	if !changed && slices.EqualFunc(keys.Keys, tm.keys.Keys, func(a, b *tokenKey) bool { return a.ID == b.ID }) {
 		return nil
 	}
 
-- 
2.43.0


From 585d833b6373a568ac43316e265262f9eb474546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 29/36] fix: don't keep passkey changes that could not be saved

---
 proxy/internal/passkeys/manager.go | 64 +++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index dba74a4..a026c63 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -127,10 +127,9 @@ func NewManager(cfg Config) (*Manager, error) {
 		challenges: make(map[string]*challenge),
 		nonces:     make(map[string]*nonceData),
 	}
-	m.db.Handles = make(map[string]*user)
-	m.db.Subjects = make(map[string]string)
-	m.cfg.Store.CreateEmptyFile(passkeyFile, &m.db)
-	if err := m.cfg.Store.ReadDataFile(passkeyFile, &m.db); err != nil {
+	m.db = newDatabase()
+	m.cfg.Store.CreateEmptyFile(passkeyFile, m.db)
+	if err := m.cfg.Store.ReadDataFile(passkeyFile, m.db); err != nil {
 		return nil, err
 	}
 	return m, nil
@@ -138,10 +137,7 @@ func NewManager(cfg Config) (*Manager, error) {
 
 type Manager struct {
 	cfg Config
-	db  struct {
-		Handles  map[string]*user
-		Subjects map[string]string
-	}
+	db  *database
 	acl *[]string
 
 	mu         sync.Mutex
@@ -151,6 +147,36 @@ type Manager struct {
 	nonces   map[string]*nonceData
 }
 
+type database struct {
+	Handles  map[string]*user
+	Subjects map[string]string
+}
+
+func newDatabase() *database {
+	return &database{
+		Handles:  make(map[string]*user),
+		Subjects: make(map[string]string),
+	}
+}
+
+// openForUpdate reads a copy of the database that the caller can change. The
+// changes are visible to others only after they are successfully committed.
+// m.mu must be held.
+func (m *Manager) openForUpdate() (*database, func(bool, *error) error, error) {
+	db := newDatabase()
+	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, db)
+	if err != nil {
+		return nil, nil, err
+	}
+	return db, func(c bool, errp *error) error {
+		err := commit(c, errp)
+		if c && err == nil {
+			m.db = db
+		}
+		return err
+	}, nil
+}
+
 type challenge struct {
 	created time.Time
 	claims  map[string]any
@@ -719,17 +745,17 @@ func (m *Manager) deleteKey(email string, id Bytes) (retErr error) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 
-	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, &m.db)
+	db, commit, err := m.openForUpdate()
 	if err != nil {
 		return err
 	}
 	defer commit(false, &retErr)
 
-	h, ok := m.db.Subjects[email]
+	h, ok := db.Subjects[email]
 	if !ok {
 		return errors.New("not found")
 	}
-	u, ok := m.db.Handles[h]
+	u, ok := db.Handles[h]
 	if !ok {
 		return errors.New("not found")
 	}
@@ -882,15 +908,15 @@ func (m *Manager) processAttestation(claims map[string]any, host, jsargs string,
 		return nil, errors.New("no attested credentials")
 	}
 
-	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, &m.db)
+	db, commit, err := m.openForUpdate()
 	if err != nil {
 		return nil, err
 	}
 	defer commit(false, &retErr)
 
 	var u *user
-	if h, ok := m.db.Subjects[email]; ok {
-		u = m.db.Handles[h]
+	if h, ok := db.Subjects[email]; ok {
+		u = db.Handles[h]
 	}
 	if u == nil {
 		u = &user{
@@ -898,8 +924,8 @@ func (m *Manager) processAttestation(claims map[string]any, host, jsargs string,
 			Claims: challenge.claims,
 		}
 		uids := base64.RawURLEncoding.EncodeToString(challenge.uid)
-		m.db.Handles[uids] = u
-		m.db.Subjects[email] = uids
+		db.Handles[uids] = u
+		db.Subjects[email] = uids
 	}
 	if !allowNewKey && len(u.Keys) > 0 {
 		return nil, errors.New("email is already registered")
@@ -991,7 +1017,7 @@ func (m *Manager) processAssertion(jsargs string, token *jwt.Token) (claims map[
 	}
 	delete(m.challenges, cd.Challenge)
 
-	commit, err := m.cfg.Store.OpenForUpdate(passkeyFile, &m.db)
+	db, commit, err := m.openForUpdate()
 	if err != nil {
 		return nil, err
 	}
@@ -999,11 +1025,11 @@ func (m *Manager) processAssertion(jsargs string, token *jwt.Token) (claims map[
 
 	userHandle := base64.RawURLEncoding.EncodeToString(args.UserHandle)
 	if userHandle == "" && args.LoginID != "" {
-		if h, ok := m.db.Subjects[args.LoginID]; ok {
+		if h, ok := db.Subjects[args.LoginID]; ok {
 			userHandle = h
 		}
 	}
-	u, ok := m.db.Handles[userHandle]
+	u, ok := db.Handles[userHandle]
 	if !ok {
 		return nil, errors.New("invalid userHandle")
 	}
-- 
2.43.0


From d11ccf59d11b64974674ae7413d5bd2c0efe6c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 30/36] fix: don't report success when a passkey could not be
 deleted

---
 proxy/internal/passkeys/manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/internal/passkeys/manager.go b/proxy/internal/passkeys/manager.go
index a026c63..966ab92 100644
--- a/proxy/internal/passkeys/manager.go
+++ b/proxy/internal/passkeys/manager.go
@@ -653,6 +653,8 @@ func (m *Manager) ManageKeys(w http.ResponseWriter, req *http.Request) {
 		}
 		if err := m.deleteKey(email, id); err != nil {
 			m.cfg.Logger.Errorf("ERR deleteKey(%q, %v): %v", email, id, err)
+			http.Error(w, "internal error", http.StatusInternalServerError)
+			return
 		}
 		w.Header().Set("content-type", "application/json")
 		json.NewEncoder(w).Encode(map[string]string{
-- 
2.43.0


From 65606be99a0be2ae37f655e61721e21435093571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 31/36] fix: accept only OCSP responses that are about the
 certificate, authorized and fresh

Responses fetched from a responder were accepted when they were about another
certificate, expired, or signed by any certificate of the same CA, e.g. the
revoked certificate itself, and URLs that can't be parsed disabled the check.
---
 proxy/internal/ocspcache/ocsp.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index be2bc54..8f3621e 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -32,6 +32,7 @@ import (
 	"errors"
 	"io"
 	"net/http"
+	"slices"
 	"time"
 
 	"github.com/c2FmZQ/storage"
@@ -42,6 +43,7 @@ import (
 const (
 	ocspCacheSize = 200
 	ocspFile      = "ocsp-cache"
+	maxClockSkew  = 5 * time.Minute
 )
 
 var (
@@ -134,7 +136,7 @@ func (c *OCSPCache) flush() error {
 func (c *OCSPCache) VerifyChains(chains [][]*x509.Certificate, stapled []byte) error {
 	if stapled != nil && len(chains) > 0 && len(chains[0]) > 1 {
 		cert, issuer := chains[0][0], chains[0][1]
-		if resp, err := ocsp.ParseResponseForCert(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
+		if resp, err := parseResponse(stapled, cert, issuer); err == nil && time.Now().Before(resp.NextUpdate) && resp.Status == ocsp.Good {
 			hash := certHash(cert.Raw)
 			if resp, ok := c.cache.Get(hash); ok && resp.Status == ocsp.Revoked {
 				// Someone is playing tricks on us.
@@ -155,9 +157,6 @@ nextChain:
 				issuer = chain[i+1]
 			}
 			resp, err := c.Response(cert, issuer, 0)
-			if err == errOCSPInternal {
-				continue
-			}
 			if err != nil {
 				lastError = err
 				continue nextChain
@@ -243,10 +242,33 @@ func (c *OCSPCache) fetchOneOCSP(cert, issuer *x509.Certificate, ocspReq []byte,
 		c.logger.Errorf("ERR body: %v", err)
 		return nil, errOCSPProtocol
 	}
-	ocspResp, err := ocsp.ParseResponse(body, issuer)
+	ocspResp, err := parseResponse(body, cert, issuer)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.ParseResponse for %s from %s: %v", cert.Subject, server, err)
 		return nil, errOCSPProtocol
 	}
 	return ocspResp, nil
 }
+
+// parseResponse parses a response, and verifies that it is about cert, that it
+// is signed by issuer or by a responder that issuer authorized, and that it is
+// not outdated.
+func parseResponse(raw []byte, cert, issuer *x509.Certificate) (*ocsp.Response, error) {
+	resp, err := ocsp.ParseResponseForCert(raw, cert, issuer)
+	if err != nil {
+		return nil, err
+	}
+	// ParseResponseForCert verifies that the embedded certificate was issued
+	// by issuer, but not what it can be used for. RFC 6960 4.2.2.2.
+	if d := resp.Certificate; d != nil && !d.Equal(issuer) && !slices.Contains(d.ExtKeyUsage, x509.ExtKeyUsageOCSPSigning) {
+		return nil, errors.New("responder is not authorized to sign")
+	}
+	now := time.Now()
+	if resp.ThisUpdate.After(now.Add(maxClockSkew)) {
+		return nil, errors.New("response is not valid yet")
+	}
+	if !resp.NextUpdate.IsZero() && now.After(resp.NextUpdate) {
+		return nil, errors.New("response is expired")
+	}
+	return resp, nil
+}
-- 
2.43.0


From 94c139e45d3b0c23d5d59b87aec025888cb8b2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:05 +0000
Subject: [PATCH 32/36] fix: serve certificates that have no OCSP server

---
 proxy/internal/ocspcache/ocsp.go | 4 ++++
 proxy/proxy.go                   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/proxy/internal/ocspcache/ocsp.go b/proxy/internal/ocspcache/ocsp.go
index 8f3621e..0769a70 100644
--- a/proxy/internal/ocspcache/ocsp.go
+++ b/proxy/internal/ocspcache/ocsp.go
@@ -51,6 +51,7 @@ var (
 	errOCSPUnknown  = errors.New("unknown cert")
 	errOCSPProtocol = errors.New("protocol error")
 	errOCSPInternal = errors.New("internal error")
+	errOCSPNoServer = errors.New("no OCSP server")
 )
 
 type logger interface {
@@ -203,6 +204,9 @@ func (c *OCSPCache) Response(cert, issuer *x509.Certificate, margin time.Duratio
 }
 
 func (c *OCSPCache) fetchOCSP(cert, issuer *x509.Certificate) (*ocsp.Response, error) {
+	if len(cert.OCSPServer) == 0 {
+		return nil, errOCSPNoServer
+	}
 	ocspReq, err := ocsp.CreateRequest(cert, issuer, nil)
 	if err != nil {
 		c.logger.Errorf("ERR ocsp.CreateRequest: %v", err)
diff --git a/proxy/proxy.go b/proxy/proxy.go
index 143a36f..22a7bf6 100644
--- a/proxy/proxy.go
+++ b/proxy/proxy.go
@@ -1081,6 +1081,9 @@ func (p *Proxy) baseTLSConfig() *tls.Config {
 			}
 			cert.Leaf = c
 		}
+		if len(cert.Leaf.OCSPServer) == 0 {
+			return cert, nil
+		}
 		issuer, err := x509.ParseCertificate(cert.Certificate[1])
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 870f058beb0003139a06b13a665b3e415126ef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:08 +0000
Subject: [PATCH 33/36] fix: delete each certificate from the cache as soon as
 it is revoked

---
 proxy/revoke.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/proxy/revoke.go b/proxy/revoke.go
index ad7897c..91dfd1d 100644
--- a/proxy/revoke.go
+++ b/proxy/revoke.go
@@ -89,17 +89,25 @@ func (p *Proxy) RevokeAllCertificates(ctx context.Context, reason string) error
 	time.Sleep(10 * time.Second)
 
 	now := time.Now()
+	cache := p.certManager.(*autocert.Manager).Cache
+	var errs []error
 	for _, key := range toRevoke {
 		if now.After(certs[key].Leaf.NotAfter) {
 			p.logErrorF("!!! Expired: %s", key)
+		} else if err := client.RevokeCert(ctx, certs[key].PrivateKey.(crypto.Signer), certs[key].Certificate[0], reasonCode); err != nil {
+			p.logErrorF("!!! NOT revoked: %s: %v", key, err)
+			errs = append(errs, fmt.Errorf("%s: %w", key, err))
 			continue
+		} else {
+			p.logErrorF("!!! Revoked: %s", key)
 		}
-		if err := client.RevokeCert(ctx, certs[key].PrivateKey.(crypto.Signer), certs[key].Certificate[0], reasonCode); err != nil {
-			return err
+		// A certificate that is revoked must not be used again, whatever
+		// happens with the other ones.
+		if err := cache.Delete(ctx, key); err != nil {
+			errs = append(errs, fmt.Errorf("%s: %w", key, err))
 		}
-		p.logErrorF("!!! Revoked: %s", key)
 	}
-	return p.certManager.(*autocert.Manager).Cache.(*autocertcache.Cache).DeleteKeys(ctx, toRevoke)
+	return errors.Join(errs...)
 }
 
 func (p *Proxy) revokeUnusedCertificates(ctx context.Context) error {
@@ -150,17 +158,25 @@ L:
 		UserAgent:    "tlsproxy",
 	}
 	now := time.Now()
+	cache := p.certManager.(*autocert.Manager).Cache
+	var errs []error
 	for _, key := range toRevoke {
 		if now.After(certs[key].Leaf.NotAfter) {
 			p.logErrorF("INF Expired certificate: %s", key)
+		} else if err := client.RevokeCert(ctx, certs[key].PrivateKey.(crypto.Signer), certs[key].Certificate[0], acme.CRLReasonUnspecified); err != nil {
+			p.logErrorF("ERR Unused certificate not revoked: %s: %v", key, err)
+			errs = append(errs, fmt.Errorf("%s: %w", key, err))
 			continue
+		} else {
+			p.logErrorF("INF Revoked unused certificate: %s", key)
 		}
-		if err := client.RevokeCert(ctx, certs[key].PrivateKey.(crypto.Signer), certs[key].Certificate[0], acme.CRLReasonUnspecified); err != nil {
-			return err
+		// A certificate that is revoked must not be used again, whatever
+		// happens with the other ones.
+		if err := cache.Delete(ctx, key); err != nil {
+			errs = append(errs, fmt.Errorf("%s: %w", key, err))
 		}
-		p.logErrorF("INF Revoked unused certificate: %s", key)
 	}
-	return p.certManager.(*autocert.Manager).Cache.(*autocertcache.Cache).DeleteKeys(ctx, toRevoke)
+	return errors.Join(errs...)
 }
 
 func (p *Proxy) acmeAccountKey(ctx context.Context) (crypto.Signer, error) {
-- 
2.43.0


From a5f147cd63d3c938699be0987d2b2155e1d21382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:09 +0000
Subject: [PATCH 34/36] fix: don't try to revoke tls-alpn-01 challenge
 certificates

---
 proxy/revoke.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/proxy/revoke.go b/proxy/revoke.go
index 91dfd1d..afddab5 100644
--- a/proxy/revoke.go
+++ b/proxy/revoke.go
@@ -40,7 +40,11 @@ import (
 	"golang.org/x/crypto/acme/autocert"
 )
 
-const acmeAccountKey = "acme_account+key"
+const (
+	acmeAccountKey = "acme_account+key"
+	// The suffix of the self-signed certificates used by tls-alpn-01.
+	acmeTokenSuffix = "+token"
+)
 
 // RevokeAllCertificates revokes all the certificates in the cache.
 func (p *Proxy) RevokeAllCertificates(ctx context.Context, reason string) error {
@@ -219,7 +223,7 @@ func (p *Proxy) acmeAllCerts(ctx context.Context) (map[string]*tls.Certificate,
 	out := make(map[string]*tls.Certificate)
 L:
 	for _, k := range keys {
-		if k == acmeAccountKey {
+		if k == acmeAccountKey || strings.HasSuffix(k, acmeTokenSuffix) {
 			continue
 		}
 		data, err := cache.Get(ctx, k)
-- 
2.43.0


From 0733623a8eee20d0f0438d81773b64ab7f47f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 35/36] fix: don't revoke certificates that are in use again

---
 proxy/revoke.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/proxy/revoke.go b/proxy/revoke.go
index afddab5..69fcd4f 100644
--- a/proxy/revoke.go
+++ b/proxy/revoke.go
@@ -31,6 +31,7 @@ import (
 	"encoding/pem"
 	"errors"
 	"fmt"
+	"slices"
 	"sort"
 	"strings"
 	"time"
@@ -117,25 +118,26 @@ func (p *Proxy) RevokeAllCertificates(ctx context.Context, reason string) error
 func (p *Proxy) revokeUnusedCertificates(ctx context.Context) error {
 	actuallyRevoke := p.cfg.RevokeUnusedCertificates == nil || *p.cfg.RevokeUnusedCertificates
 
-	names := make(map[string]bool)
-	p.mu.Lock()
-	for _, be := range p.cfg.Backends {
-		for _, n := range be.ServerNames {
-			names[n] = true
+	inUse := func(cert *tls.Certificate) bool {
+		p.mu.RLock()
+		defer p.mu.RUnlock()
+		for _, be := range p.cfg.Backends {
+			for _, n := range be.ServerNames {
+				if slices.Contains(cert.Leaf.DNSNames, n) {
+					return true
+				}
+			}
 		}
+		return false
 	}
-	p.mu.Unlock()
 	certs, err := p.acmeAllCerts(ctx)
 	if err != nil {
 		return err
 	}
 	var toRevoke []string
-L:
 	for k, cert := range certs {
-		for _, n := range cert.Leaf.DNSNames {
-			if names[n] {
-				continue L
-			}
+		if inUse(cert) {
+			continue
 		}
 		if len(cert.Leaf.DNSNames) > 0 {
 			n := idnaToUnicode(cert.Leaf.DNSNames[0])
@@ -161,13 +163,23 @@ L:
 		Key:          accountKey,
 		UserAgent:    "tlsproxy",
 	}
+	// Without a limit, the client would keep trying for as long as the server
+	// has problems, even when the certificate is in use again.
+	revoke := func(cert *tls.Certificate) error {
+		ctx, cancel := context.WithTimeout(ctx, time.Minute)
+		defer cancel()
+		return client.RevokeCert(ctx, cert.PrivateKey.(crypto.Signer), cert.Certificate[0], acme.CRLReasonUnspecified)
+	}
 	now := time.Now()
 	cache := p.certManager.(*autocert.Manager).Cache
 	var errs []error
 	for _, key := range toRevoke {
 		if now.After(certs[key].Leaf.NotAfter) {
 			p.logErrorF("INF Expired certificate: %s", key)
-		} else if err := client.RevokeCert(ctx, certs[key].PrivateKey.(crypto.Signer), certs[key].Certificate[0], acme.CRLReasonUnspecified); err != nil {
+		} else if inUse(certs[key]) {
+			// The config changed in the meantime.
+			continue
+		} else if err := revoke(certs[key]); err != nil {
 			p.logErrorF("ERR Unused certificate not revoked: %s: %v", key, err)
 			errs = append(errs, fmt.Errorf("%s: %w", key, err))
 			continue
-- 
2.43.0


From da2dcea546f9bfaef9d5735c6ce73b922218a415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 36/36] fix: do not negotiate compression with HTTP/1 backends

The reverse proxy asked HTTP/1 backends for gzip on behalf of clients that
had not, and then undid it: the Accept-Encoding header of the request and the
Content-Encoding and Content-Length headers of the response were rewritten.
The HTTP/2 transport already disables this.
---
 proxy/backend-http.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/backend-http.go b/proxy/backend-http.go
index 35e02a5..8435ee0 100644
--- a/proxy/backend-http.go
+++ b/proxy/backend-http.go
@@ -514,6 +514,7 @@ func (be *Backend) reverseProxyTransport() http.RoundTripper {
 		DialTLSContext: func(ctx context.Context, network, addr string) (net.Conn, error) {
 			return be.dial(ctx)
 		},
+		DisableCompression:    true,
 		MaxIdleConns:          100,
 		IdleConnTimeout:       10 * time.Second,
 		ExpectContinueTimeout: 1 * time.Second,
-- 
2.43.0

