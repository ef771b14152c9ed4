#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over.split(), "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files.split(), "mechanism": [{"name": a, "where": b} for a, b in mech],
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "observe_at": list(obs), "hook_needed": hook}})

p("P01", "IP access rules decide every connection, before and after reconfiguration",
  "A client whose address is denied by the deny list, or missing from the allow list, of the backend that its server name selects never exchanges application data with that backend and gets the same TLS unrecognized-name alert as for an unknown server name; an allowed client is served. The address is the TCP peer's, or the source in a PROXY protocol header if and only if the peer is in the list of trusted proxies. After a reconfiguration returns, open connections whose address the new rules deny are closed within a short time, and open stream connections that both the old and the new rules allow are left alone.",
  "inputs configurations schedules fault_sequences", "every client address, PROXY header, IP rule set and sequence of reconfigurations, at every interleaving of connection set-up with reconfiguration",
  "tests use one client address and static rules; none races connection set-up or open connections against a rule change",
  "proxy/proxy.go proxy/backend.go", [("checkIP", "proxy/backend.go Backend.checkIP"), ("reAuthorize", "proxy/proxy.go Proxy.reAuthorize"), ("acceptProxyHeader", "proxy/proxy.go")],
  [("inConns", "open incoming connections", "proxy/conntracker.go")], ["TLS alert seen by the client", "connections accepted by backend servers"])
p("P02", "TLS client certificates are enforced on every connection",
  "When a backend requires client certificates, only a client that proves possession of a currently valid certificate issued by one of the configured CAs, not revoked by a CA the proxy itself runs, and matching the ACL when there is one, ever exchanges application data with it; every such client is admitted. A TLS session opened under one configuration or server name never lets a client bypass the requirement of another. After a reconfiguration returns, open connections are closed within a short time if their certificate is not one that the new ACL admits, or if they presented none and one is now required.",
  "inputs configurations schedules histories", "every certificate, ACL, server name, TLS version, resumption attempt and sequence of reconfigurations and revocations",
  "tests try a few certificates against one static configuration",
  "proxy/proxy.go proxy/backend.go proxy/internal/pki/pki.go", [("VerifyConnection", "proxy/proxy.go Reconfigure"), ("authorize", "proxy/backend.go Backend.authorize"), ("reAuthorize", "proxy/proxy.go")],
  (), ["TLS handshake outcome", "connections and requests seen by backend servers"])
p("P03", "Connections reach the backend selected by SNI and ALPN; reconfigure is atomic",
  "Every connection and HTTP request reaches only an address of the backend that its server name and offered ALPN protocols select under one configuration that was in force while it was set up (the default server name stands in when the client sends none), and unknown names get an unrecognized-name alert. A reconfiguration either takes effect as a whole or, when it is rejected, changes nothing; a request in flight when a reconfiguration happens still gets its complete response, and connections opened after it returns use the new configuration.",
  "inputs configurations schedules histories", "every set of backends, server names and ALPN lists, and every interleaving of connections, requests and (valid or rejected) reconfigurations",
  "TestReconfigure checks three configurations with no traffic in flight",
  "proxy/proxy.go proxy/hello.go proxy/config.go", [("backend lookup", "proxy/proxy.go Proxy.backend"), ("Reconfigure", "proxy/proxy.go"), ("peekClientHello", "proxy/hello.go")],
  [("backends", "active routing table", "proxy/proxy.go Proxy.backends")], ["which backend server received the connection key sent by the client"])
p("P04", "Forwarded byte streams are complete, in order, unaltered and never mixed",
  "In TCP, TLS and TLS-passthrough modes each end receives exactly a prefix of what the other end of the same connection sent, and all of it when both ends close cleanly and the network does not fail. Half-close follows the configuration: a client that has finished sending still gets the rest of the server's answer (up to the half-close timeout), and a connection is torn down on both sides once one side has closed as configured or the timeout has passed. A PROXY protocol header sent to a backend names that very client's address and precedes all of its data.",
  "inputs schedules fault_sequences", "every split of the data into segments, message size, closing order, buffer size, reset, stall and concurrent mix of connections",
  "tests send one short message per connection and never half-close",
  "proxy/backend.go proxy/internal/netw/netw.go", [("bridgeConns", "proxy/backend.go"), ("forward", "proxy/backend.go"), ("Peek buffer", "proxy/internal/netw/netw.go Conn.Read"), ("writeProxyHeader", "proxy/backend.go")],
  (), ["bytes received by clients and by backend servers"])
p("P05", "A reachable backend address is always found, in round-robin order",
  "A connection or request for a backend with several addresses is served as long as at least one of the addresses accepts connections, whatever other connections are being dialled at the same time; each address is tried at most once per connection, within the forward timeout each. While all the addresses are healthy, successive connections are spread evenly over them.",
  "schedules fault_sequences configurations", "every number of addresses, set of refusing, hanging or slow addresses and interleaving of concurrent dials",
  "TestProxyBackends dials sequentially with all addresses up",
  "proxy/backend.go", [("dial", "proxy/backend.go Backend.dial")], [("next", "round-robin cursor", "proxy/config.go backendState.next")], ["connections accepted by backend servers", "client outcome"])
p("P06", "HTTP requests and responses are matched, isolated and not rewritten",
  "Every HTTP/1.1 or HTTP/2 request that is forwarded gets the response that the selected backend produced for that very request, with method, path, body and end-to-end headers intact in both directions, or an error; no request is delivered to a backend more times than the client sent it unless it is idempotent. Requests of different clients never share state: each backend with the PROXY protocol enabled sees only requests of the client named in the connection's PROXY header, and client-supplied X-Forwarded-For and X-Forwarded-Client-Cert headers never reach a backend. A request for a host that the connection's backend does not serve is refused as misdirected, path overrides go to their own addresses only, and forwarding loops are detected.",
  "inputs schedules fault_sequences", "every mix of concurrent requests, connection reuse, protocols, path overrides, bodies, resets and slow backends",
  "tests issue requests one at a time and check only the status and a short body",
  "proxy/backend-http.go proxy/backend.go", [("reverseProxy", "proxy/backend-http.go"), ("hostKey", "proxy/backend-http.go reverseProxy"), ("reverseProxyDirector", "proxy/backend-http.go")], (), ["requests recorded by backend servers, keyed by a unique request id", "responses seen by clients"])
p("P07", "Graceful shutdown finishes what is in flight, stops, and releases everything",
  "After a graceful shutdown begins no new connection is served; HTTP requests already in flight get their complete response unless the deadline expires first; the call returns as soon as no HTTP connection, or connection still being set up, is left and no later than shortly after its deadline. When it returns or shortly after, the proxy has closed every listener and every incoming and outgoing connection. A connection that ends for any reason frees what it held: once all clients are gone the proxy holds no incoming connection, and no outgoing one beyond the idle timeout.",
  "schedules fault_sequences histories", "every mix of connections and requests in every phase at the moment of the shutdown, and every failure of either peer",
  "TestShutdown style checks have one idle or active connection; leaks are not looked for",
  "proxy/proxy.go proxy/backend.go proxy/http.go proxy/conntracker.go", [("Shutdown", "proxy/proxy.go"), ("Stop", "proxy/proxy.go"), ("close", "proxy/backend.go Backend.close"), ("OnClose", "proxy/proxy.go handleConnection")],
  [("inFlight", "connections attributed to a backend", "proxy/config.go backendState")], ["simulated sockets the proxy still holds", "return time of Shutdown"])
p("P08", "Connection, request-rate and bandwidth limits are never exceeded",
  "Over any time interval the proxy forwards no more connections and requests to a backend than its forward rate limit times the interval plus one burst (counting what was set up under one configuration: a reconfiguration starts afresh), moves no more bytes with the clients of a bandwidth group than the group's limit times the interval plus one burst, per direction, and serves no more connections at once than the configured maximum (connections above it are refused, and room is made again when connections end). The limits hold across all the backends, connections and streams that share them, after limits are reconfigured, and whatever the letter case of the group's name; the limits never corrupt or permanently stall a stream.",
  "schedules configurations histories", "every arrival pattern, number of parallel connections, group membership and reconfiguration",
  "TestBWLimit measures one transfer with a wide tolerance",
  "proxy/proxy.go proxy/internal/netw/netw.go proxy/backend-http.go", [("SetLimiters", "proxy/internal/netw/netw.go"), ("connLimit", "proxy/proxy.go, proxy/backend-http.go"), ("MaxOpen", "proxy/proxy.go handleConnection")], (), ["bytes and connections per interval of simulated time"])
p("P09", "Slow, silent, broken or hostile clients cannot take the proxy down",
  "Whatever a client sends, and however slowly or incompletely, the proxy keeps running and keeps serving other clients; a client that has not sent a whole ClientHello after about 30 seconds or not completed the TLS handshake after about 2 minutes is disconnected. When the disturbance stops, including accept errors, dropped connections, stalled peers and network partitions, new connections are served normally within a bounded time and nothing of the disturbed connections is left over.",
  "inputs schedules fault_sequences", "every prefix, corruption and timing of client input and every sequence of network faults, together with reconfigurations",
  "tests only use well-behaved clients",
  "proxy/proxy.go proxy/hello.go proxy/internal/netw/netw.go", [("Peek deadline", "proxy/internal/netw/netw.go Peek"), ("handshake timeout", "proxy/proxy.go authorizeTLSConnection"), ("recover", "proxy/proxy.go handleConnection")], (), ["probe connections", "time of disconnection in simulated time", "process state"])
p("P10", "Protected resources are served only to authenticated and authorized users",
  "A request for a path covered by a backend's single sign-on policy reaches the backend or a protected local handler only with an identity token issued by this proxy's identity provider for that domain, unexpired at that time, matching the user ACL, and as recent as the forced re-authentication interval demands; an authorized user is admitted. The user id the backend sees is the authenticated one whatever headers the client sends, the identity token it is given is that user's of that session, and the proxy's own authentication cookie is never forwarded. Logging out, and a clock that moves past expiry, end access.",
  "inputs histories schedules", "every cookie and header forged, replayed, mixed or expired, every path spelling, every user and ACL, every clock change and reconfiguration",
  "TestSSOEnforce tries a fixed list of requests at one point in time",
  "proxy/backend-sso.go proxy/internal/cookiemanager/cookiemanager.go proxy/internal/tokenmanager/tokenmanager.go", [("enforceSSOPolicy", "proxy/backend-sso.go"), ("authenticateUser", "proxy/backend-sso.go"), ("ValidateAuthTokenCookie", "proxy/internal/cookiemanager/cookiemanager.go")], (), ["requests recorded by backend servers", "HTTP status seen by clients"])
p("P11", "An OIDC login completes once, in the browser that started it, in time",
  "A login response from the identity provider yields an identity cookie only if it carries a state that this proxy issued to that same browser less than about five minutes earlier and that has not been used before, and the provider redeemed the code for a verified identity; concurrent, replayed, swapped, late or cross-browser responses never do. A login is only started by the browser that was asked to log in. When the provider is slow, fails or returns an unverified email the user gets an error and no cookie, and a login started by the user and answered properly and in time, with no configuration change in between, always succeeds and leads back to the original URL.",
  "histories schedules fault_sequences", "every order, duplication, delay and mixing of login attempts over several browsers, and every failure of the identity provider",
  "tests run one login at a time",
  "proxy/internal/oidc/client.go", [("state table", "proxy/internal/oidc/client.go")], (), ["Set-Cookie of callback responses", "requests seen by the simulated identity provider"])
p("P12", "Codes and tokens of the local OIDC server are single-use and bound",
  "The local OpenID Connect server gives an authorization code only to an authenticated and authorized user, for a configured client and one of its redirect URIs; the code can be redeemed at most once, within about two minutes, with that client's id and secret and that redirect URI, for a token that names that user, that client and the request's nonce. No interleaving of concurrent redemptions yields two tokens for one code, and an access token is good for one use of the user-information endpoint, until it expires.",
  "histories schedules inputs", "every interleaving of authorizations and redemptions by right and wrong clients, at every delay",
  "TestOIDCServer walks through one sequential flow",
  "proxy/internal/oidc/server.go", [("codes table", "proxy/internal/oidc/server.go")], (), ["responses of the token endpoint"])
p("P13", "Passkeys are durable, belong to one user, and challenges are single-use",
  "A passkey whose registration was acknowledged lets its owner, and only its owner, log in from then on, across restarts and crashes at any point, until it is deleted; one whose deletion was acknowledged never does again. A login or registration succeeds only with a correct answer, of a still allowed user, to a challenge issued less than about five minutes earlier and not answered before, whatever requests race with it. A user who has a passkey gets another one, or loses one, only through a session that was opened with a passkey in the last ten minutes. A storage failure is reported to the user and leaves the previous state in force.",
  "crash_points schedules histories fault_sequences", "every crash point, storage fault, replay, interleaving and delay over registrations, logins and deletions",
  "tests run the happy path without restart or failing storage",
  "proxy/internal/passkeys/manager.go", [("commit", "proxy/internal/passkeys/manager.go")], [("db", "registered keys", "proxy/internal/passkeys/manager.go")], ["HTTP responses", "set-cookie", "behaviour after restart"])
p("P14", "ACME certificates are obtained, renewed and revoked exactly when they should be",
  "Certificates are asked for only for names that are configured and terminated here, under one account for the life of the data directory and only when the terms of service are accepted; a certificate obtained once is used after every restart and is not asked for again before its renewal is due, and it is renewed before it expires. A configured name whose certificate authority works can be connected to, with a certificate that verifies for it and has not been revoked. Certificates are revoked when their names are out of use, or all are when asked for, and never while a name is in use; one revocation that fails does not keep the others from being revoked. Challenge connections never see a certificate that is meant for users.",
  "histories schedules fault_sequences crash_points", "every misbehaviour of the certificate authority, crash point, storage fault, reconfiguration and clock",
  "the tests use a certificate manager that signs locally",
  "proxy/proxy.go proxy/revoke.go", [("New", "proxy/proxy.go"), ("revokeUnusedCertificates, RevokeAllCertificates", "proxy/revoke.go")], [("cache", "account key and certificates", "autocert file")], ["requests that the certificate authority receives", "certificates that clients are given"])
p("P15", "Identity tokens stay verifiable until they expire and are never accepted later",
  "Every token the proxy signs is accepted by the proxy, by its restarted successor and by anybody using its published key set, from the moment it is issued until it expires, across key rotations, crashes at any point and storage faults; it is never accepted after that, and a token not signed by one of the proxy's keys is never accepted. A key is published well before it is first used to sign, so that a verifier which refreshes the key set every hour or so never meets an unknown key.",
  "crash_points histories schedules fault_sequences", "every sequence of issue, rotate, restart, crash and storage fault, and every token age",
  "TestTokenManager rotates keys a few times by hand, with no crash and no fault",
  "proxy/internal/tokenmanager/tokenmanager.go", [("rotateKeys", "proxy/internal/tokenmanager/tokenmanager.go"), ("ValidateToken", "proxy/internal/tokenmanager/tokenmanager.go"), ("ServeJWKS", "proxy/internal/tokenmanager/tokenmanager.go")], [("keys", "signing keys", "token-keys file")], ["token acceptance over time"])
p("P16", "The certificate authority keeps its identity and every certificate it issued",
  "Across restarts, reconfigurations, crashes at any point and storage faults the proxy's certificate authority keeps the same key and CA certificate; every certificate whose issue was acknowledged stays known and verifies against that CA until it expires, has a serial number no other certificate has, and names only what the requester was entitled to. A failed issue or revocation is reported and changes nothing; concurrent operations are all recorded, and a client that is slow to send or read never keeps others from being served.",
  "crash_points schedules fault_sequences histories", "every crash point, storage fault and interleaving of issue and revoke operations",
  "TestPKI uses one manager, sequentially, with a healthy disk",
  "proxy/internal/pki/pki.go proxy/internal/pki/http.go", [("IssueCertificate", "proxy/internal/pki/pki.go"), ("RevokeCertificate", "proxy/internal/pki/pki.go")], [("db", "issued certificates and CA key", "pki file")], ["issued certificates", "management endpoint after restart"])
p("P17", "A revocation takes effect at once everywhere and is never forgotten",
  "From the moment a revocation is acknowledged the certificate is refused by every backend that trusts the CA, the OCSP responder answers revoked, and every CRL served lists it, across restarts, reconfigurations, CRL and OCSP refreshes, crashes at any point and storage faults, for as long as the certificate would be valid. A certificate that was never revoked is never reported as revoked, served CRLs and OCSP responses are current at the time they are served and verify against the CA, and CRL numbers never go back.",
  "crash_points schedules histories", "every interleaving of revocation, CRL/OCSP requests, TLS handshakes, delegate rotation and restart, at every age",
  "tests revoke one certificate and look once",
  "proxy/internal/pki/pki.go proxy/internal/pki/http.go", [("RevocationList", "proxy/internal/pki/pki.go"), ("OCSP", "proxy/internal/pki/http.go"), ("IsRevoked", "proxy/internal/pki/pki.go")], (), ["CRL and OCSP responses", "TLS handshakes"])
p("P18", "SSH certificates come from a stable CA, for the authenticated user, short-lived",
  "The SSH certificate authority keeps the same key across restarts, reconfigurations, crashes at any point and storage faults, and the published public key is the one that signs. A certificate is issued only to an authenticated and authorized user, for exactly the public key submitted and exactly that user's principals, valid from about now and for no longer than the configured maximum; a client that is slow to send its request never keeps others from being served.",
  "crash_points inputs histories", "every submitted key, user, requested lifetime, restart and crash point",
  "TestSSHCA issues one certificate",
  "proxy/internal/sshca/sshca.go", [("ServeCertificate", "proxy/internal/sshca/sshca.go")], (), ["issued certificates"])
p("P19", "OCSP answers are verified, fresh and fail closed",
  "A client or backend certificate that names an OCSP responder is accepted only with a good answer that is signed by its issuer or the issuer's delegate, is about that certificate, and is within its validity at that moment; when the responder says revoked, answers garbage, answers for another certificate or cannot be reached and there is no such answer at hand, the certificate is refused. Cached answers survive a restart but are never used after they expire, and a certificate with a good fresh answer is accepted.",
  "fault_sequences histories schedules", "every responder behaviour, response age, cache state, restart and clock",
  "TestOCSPCache uses one responder that always answers properly",
  "proxy/internal/ocspcache/ocsp.go", [("VerifyChains", "proxy/internal/ocspcache/ocsp.go"), ("Response", "proxy/internal/ocspcache/ocsp.go")], [("cache", "verified responses", "ocsp-cache file")], ["TLS handshake outcome"])
p("P20", "Secrets never reach the disk unencrypted",
  "Nothing the proxy writes to its data directory, at any time, including temporary files, partial writes and rewritten files, contains a private key, a passkey record, a token key, an OCSP answer or an issued certificate in clear, and a stored file that was corrupted, truncated or swapped with another is detected: it is never used as valid data nor silently replaced by an empty one (the OCSP cache, which can be fetched again, may be).",
  "histories crash_points fault_sequences", "every history of operations and every byte that reaches the disk, every tampering of a stored file",
  "no test looks at the files, or damages them",
  "proxy/proxy.go proxy/internal/tokenmanager/tokenmanager.go proxy/internal/pki/pki.go", [("storage.New with the master key", "proxy/proxy.go New")], (), ["every write to the simulated disk"])
p("P21", "The WebSocket bridge carries bytes intact and only for authorized users",
  "A WebSocket connection to a configured endpoint is bridged to its TCP address only after the backend's access policy has admitted the request and its origin is acceptable; each side then receives exactly the bytes the other sent, in order, until one side closes, after which both sides are closed and nothing is left over.",
  "inputs schedules fault_sequences", "every message size and fragmentation, closing order, reset and stall, and every requester",
  "TestWebSocket echoes one message",
  "proxy/websocket.go", [("webSocketHandler", "proxy/websocket.go")], (), ["bytes at both ends", "sockets left over"])
p("P30", "Static files are served only from the configured directory",
  "For every request path a static-file backend serves only regular files below its document root, never a dot file or anything outside.",
  "inputs", "every request path", "tests try a list of paths",
  "proxy/backend-http.go", [("serveStaticFiles", "proxy/backend-http.go")])
p("P31", "An invalid configuration is rejected and a valid one accepted",
  "For every configuration, the check accepts it if and only if it satisfies the documented constraints.",
  "configurations", "every configuration", "tests try a few configurations",
  "proxy/config.go", [("Check", "proxy/config.go")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/properties.jsonl", "w") as f:
    for x in sorted(P, key=lambda x: x["id"]):
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
