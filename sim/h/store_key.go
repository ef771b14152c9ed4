package main

// Passkeys (P13): authenticators, flows and checks.

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"slices"
	"strings"
	"time"

	cbor "github.com/fxamacker/cbor/v2"
)

const pkHost = "pk.example.com"

type keyModel struct {
	acl  *[]string
	acls []aclVer
	keys []*pkKey
	try  []*pkTry
	toks map[string]*pkTok
	chal map[string]*pkChal
	list []*pkTry
	opts []*pkTry
	oidc []int64 // when identities were confirmed by the provider, per user
}

type aclVer struct {
	from, until time.Duration
	acl         *[]string
}

type pkKey struct {
	id   []byte
	user int
	key  *ecdsa.PrivateKey
	uid  []byte
	rp   string
	n    uint32
}

type pkTok struct {
	user int
	key  *pkKey
	iat  int64
	exp  int64
	at   time.Duration
}

type pkChal struct {
	b    []byte
	kind string
	r    *aReq
	user int
	node uint32
	ok   int
}

// pkTry is an attempt to log in with a key, add one or delete one.
type pkTry struct {
	kind  string // login, reg, add, del, list
	r     *aReq
	key   *pkKey
	chal  *pkChal
	good  bool // the answer is correct
	out   int
	user  int // of the session
	tok   *pkTok
	res   string
	fresh bool // the identity was confirmed for this attempt
	own   bool // the only one with this challenge
	node  uint32
}

func numArr(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func (k *pkKey) authData(rp string, flags byte, attest bool) []byte {
	var b bytes.Buffer
	h := sha256.Sum256([]byte(rp))
	b.Write(h[:])
	if attest {
		flags |= 1 << 6
	}
	b.WriteByte(flags)
	k.n++
	binary.Write(&b, binary.BigEndian, k.n)
	if attest {
		b.Write(make([]byte, 16))
		binary.Write(&b, binary.BigEndian, uint16(len(k.id)))
		b.Write(k.id)
		c, _ := cbor.Marshal(struct {
			KTY   int    `cbor:"1,keyasint"`
			ALG   int    `cbor:"3,keyasint"`
			Curve int    `cbor:"-1,keyasint"`
			X     []byte `cbor:"-2,keyasint"`
			Y     []byte `cbor:"-3,keyasint"`
		}{2, -7, 1, k.key.X.FillBytes(make([]byte, 32)), k.key.Y.FillBytes(make([]byte, 32))})
		b.Write(c)
	}
	return b.Bytes()
}

// forget removes a cookie from the browser.
func (b *browser) forget(name string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for k := range b.jar {
		if k[1] == name {
			delete(b.jar, k)
		}
	}
}

func (s *store) pkGet(b *browser, u string) *aReq {
	return s.do(b, u, reqOpt{kind: "pk"})
}

func (s *store) pkPost(b *browser, u string, form url.Values, raw ...*http.Cookie) *aReq {
	o := reqOpt{kind: "pk", method: "POST", hdr: http.Header{"X-Csrf-Check": {"1"}, "Content-Type": {"application/x-www-form-urlencoded"}}}
	o.body = form.Encode()
	if raw != nil {
		o.noJar = true
		o.raw = raw
	}
	return s.do(b, u, o)
}

// open leads a browser that is not logged in to the login page. It returns
// the token of the page's URL.
func (s *store) open(b *browser, path string) string {
	from := s.w.since()
	bad := func(what string, r *aReq) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if r.err == nil && s.quiet(from, r.done) && !s.reconfed(from, r.done) && s.most(from, r.done) < 4*time.Minute {
			s.w.violate("P13", "login-page", "%s was answered with status %d (%.80s)", what, r.status, strings.TrimSpace(r.body))
		}
	}
	b.forget("TLSPROXYAUTH")
	r := s.pkGet(b, "https://"+pkHost+path)
	if r.err != nil || r.status != 302 || !strings.HasPrefix(r.loc, "/.sso/login") {
		bad("a request that is not logged in", r)
		return ""
	}
	r = s.pkGet(b, "https://"+pkHost+r.loc)
	if r.err != nil || r.status != 302 || !strings.HasPrefix(r.loc, "https://"+pkHost+"/passkey?") {
		bad("the login request", r)
		return ""
	}
	r = s.pkGet(b, r.loc)
	if r.err != nil || r.status != 302 {
		bad("the login page", r)
		return ""
	}
	u, err := url.Parse(r.loc)
	if err != nil || u.Query().Get("redirect") == "" {
		return ""
	}
	tok := u.Query().Get("redirect")
	if r = s.pkGet(b, s.pkURL("Login", tok)); r.err != nil || r.status != 200 {
		bad("the login page", r)
		return ""
	}
	return tok
}

func (s *store) pkURL(mode, tok string) string {
	return "https://" + pkHost + "/passkey?get=" + mode + "&redirect=" + url.QueryEscape(tok)
}

// identify gets the user's identity from the identity provider, if asked to.
func (s *store) identify(b *browser, u string, user int) bool {
	sent := s.w.since()
	s.mu.Lock()
	ver := len(s.vers)
	s.mu.Unlock()
	for i := 0; i < 2; i++ {
		r := s.pkGet(b, u)
		if r.err != nil {
			return false
		}
		if r.status == 200 {
			return true
		}
		if r.status != 302 {
			return false
		}
		st := s.noteState(b, r, u, sent, ver)
		if st == nil {
			return false
		}
		prov, cb, _ := s.authorize(r.loc, user, "", 0)
		if cb == nil {
			return false
		}
		c := s.callback(b, cb, prov, reqOpt{})
		if c.req.err != nil || c.req.status != 302 || c.req.loc != u {
			return false
		}
		s.mu.Lock()
		_, hi := s.wall(c.req.sent, c.req.done)
		s.km.oidc[user] = max(s.km.oidc[user], int64(hi))
		s.mu.Unlock()
	}
	return false
}

type pkOptions struct {
	Challenge []int `json:"challenge"`
	User      struct {
		ID   []int  `json:"id"`
		Name string `json:"name"`
	} `json:"user"`
	RP struct {
		ID string `json:"id"`
	} `json:"rp"`
	Allow []struct {
		ID []int `json:"id"`
	} `json:"allowCredentials"`
	Exclude []struct {
		ID []int `json:"id"`
	} `json:"excludeCredentials"`
}

func unArr(l []int) []byte {
	b := make([]byte, len(l))
	for i, x := range l {
		b[i] = byte(x)
	}
	return b
}

// options asks for a challenge.
func (s *store) options(b *browser, u, kind string, user int, form url.Values) (*pkChal, *pkOptions) {
	s.mu.Lock()
	node := s.node
	s.mu.Unlock()
	r := s.pkPost(b, u, form)
	if r.err != nil || r.status != 200 {
		s.mu.Lock()
		_, hi := s.wall(r.sent, r.done)
		if r.err == nil && r.status >= 500 && len(r.auth) > 0 && hi-float64(s.km.oidc[user]) < 19*3600 && s.quiet(r.sent, r.done) && !s.reconfed(r.sent, r.done) {
			s.w.violate("P13", "options", "a request for %s options was answered with status %d (%.80s)", kind, r.status, strings.TrimSpace(r.body))
		}
		s.mu.Unlock()
		return nil, nil
	}
	var o pkOptions
	if err := json.Unmarshal([]byte(r.body), &o); err != nil || len(o.Challenge) < 16 {
		if r.ctype == "application/json" {
			s.w.violate("P13", "options", "bad options: %.200s", r.body)
		}
		return nil, nil
	}
	c := &pkChal{b: unArr(o.Challenge), kind: kind, r: r, user: user, node: node}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.km.chal[string(c.b)] != nil {
		s.w.violate("P13", "challenge-reuse", "a challenge was issued twice")
		return nil, nil
	}
	s.km.chal[string(c.b)] = c
	return c, &o
}

// create answers an attestation challenge.
func (s *store) create(c *pkChal, o *pkOptions, user int, v string) (*pkKey, bool, url.Values) {
	k := &pkKey{id: make([]byte, 32), user: user, key: genKey(0).(*ecdsa.PrivateKey), uid: unArr(o.User.ID), rp: o.RP.ID}
	rand.Read(k.id)
	good := true
	chal, typ, origin, rp, flags := c.b, "webauthn.create", "https://"+pkHost, pkHost, byte(5)
	switch v {
	case "badorigin":
		origin, good = "https://evil.example.net", false
	case "badrp":
		rp, good = "evil.example.net", false
	case "badtype":
		typ, good = "webauthn.get", false
	case "nouv":
		flags, good = 1, false
	case "noup":
		flags, good = 4, false
	case "badchal":
		chal, good = append([]byte{c.b[0] ^ 1}, c.b[1:]...), false
	}
	cd, _ := json.Marshal(map[string]any{"type": typ, "challenge": b64(chal), "origin": origin})
	att, _ := cbor.Marshal(map[string]any{"fmt": "none", "attStmt": map[string]any{}, "authData": k.authData(rp, flags, true)})
	a, _ := json.Marshal(map[string]any{"clientDataJSON": numArr(cd), "attestationObject": numArr(att), "transports": []string{"internal"}})
	return k, good, url.Values{"args": {string(a)}}
}

// assert answers an assertion challenge with a key.
func (s *store) assert(c *pkChal, k *pkKey, v string, loginID string) (bool, url.Values) {
	good := true
	chal, typ, rp, flags, uid := c.b, "webauthn.get", pkHost, byte(5), k.uid
	id := k.id
	switch v {
	case "badrp":
		rp, good = "evil.example.net", false
	case "badtype":
		typ, good = "webauthn.create", false
	case "nouv":
		flags, good = 1, false
	case "noup":
		flags, good = 4, false
	case "badchal":
		chal, good = append([]byte{c.b[0] ^ 1}, c.b[1:]...), false
	case "wronguser": // another user's handle
		s.mu.Lock()
		for _, x := range s.km.keys {
			if x.user != k.user && !bytes.Equal(x.uid, k.uid) {
				uid, good = x.uid, false
			}
		}
		s.mu.Unlock()
	case "otherkey": // another user's key id
		s.mu.Lock()
		for _, x := range s.km.keys {
			if x.user != k.user && !bytes.Equal(x.uid, k.uid) {
				uid, id, good = x.uid, x.id, false
			}
		}
		s.mu.Unlock()
	}
	if loginID != "" {
		uid = nil
		if v == "wronguser" || v == "otherkey" {
			for i, u := range auUsers {
				if i != k.user {
					loginID, good = u.email, false
				}
			}
		}
	}
	cd, _ := json.Marshal(map[string]any{"type": typ, "challenge": b64(chal), "origin": "https://" + pkHost})
	ad := k.authData(rp, flags, false)
	h := sha256.Sum256(cd)
	sum := sha256.Sum256(append(append([]byte(nil), ad...), h[:]...))
	sig, _ := k.key.Sign(rand.Reader, sum[:], crypto.SHA256)
	switch v {
	case "badsig":
		sig[len(sig)-3] ^= 1
		good = false
	case "swapdata": // sign something else
		ad[33]++
		good = false
	}
	a, _ := json.Marshal(map[string]any{"id": b64(id), "clientDataJSON": numArr(cd), "authenticatorData": numArr(ad), "signature": numArr(sig), "userHandle": numArr(uid), "loginId": loginID})
	return good, url.Values{"args": {string(a)}}
}

// submit sends an answer and records what comes of it.
func (s *store) submit(b *browser, t *pkTry, u string, form url.Values, raw []*http.Cookie) {
	s.mu.Lock()
	t.node = s.node
	if t.kind != "login" {
		s.km.try = append(s.km.try, t)
		t.out = outUnknown
		t.r = &aReq{sent: s.w.since(), done: 1 << 62}
	}
	s.mu.Unlock()
	r := s.pkPost(b, u, form, raw...)
	var res struct{ Result, Redirect, URL string }
	if r.err == nil && r.status == 200 && strings.HasPrefix(r.ctype, "application/json") {
		json.Unmarshal([]byte(r.body), &res)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	t.r = r
	t.res = res.Result
	if t.kind == "login" {
		s.km.try = append(s.km.try, t)
	}
	switch {
	case r.err == nil && (res.Result == "ok" || res.Result == "refresh"):
		t.out = outAck
	case r.err != nil || s.ambiguous(r.sent, r.done):
		t.out = outUnknown
	default:
		t.out = outNone
	}
	s.w.ev("pk %s %s result %q", t.kind, r.id, res.Result)
	if t.out == outAck {
		s.w.probe("pk-" + t.kind)
	} else {
		s.w.probe("pk-" + t.kind + "-refused")
	}
	if k := r.set["TLSPROXYAUTH"]; k != nil && k.Value != "" && k.MaxAge >= 0 && t.kind != "del" {
		m := jwtClaims(k.Value)
		x := &pkTok{user: s.userOf(str(m["email"])), key: t.key, iat: num(m["iat"]), exp: num(m["exp"]), at: r.done}
		t.tok = x
		s.km.toks[k.Value] = x
		h := sha256.Sum256(t.key.id)
		s.w.check()
		if x.user != t.key.user || str(m["sub"]) != auUsers[x.user].sub || str(m["passkey_hash"]) != hex.EncodeToString(h[:]) || str(m["provider"]) != "pk" {
			s.w.violate("P13", "wrong-identity", "%s with a key of %s yielded the identity %v (%v)", t.kind, auUsers[t.key.user].email, m["email"], m["passkey_hash"])
		}
	}
}

// register goes through the registration of a user's first key.
func (s *store) register(b *browser, user int, op *Op) {
	tok := s.open(b, "/reg")
	if tok == "" || !s.identify(b, s.pkURL("RegisterNewID", tok), user) {
		return
	}
	s.addKey(b, user, op, s.pkURL("AttestationOptions", tok), s.pkURL("AddKey", tok), "reg")
}

func (s *store) addKey(b *browser, user int, op *Op, ou, au, kind string) {
	c, o := s.options(b, ou, "att", user, nil)
	if c == nil {
		return
	}
	if o.User.Name != auUsers[user].email {
		s.w.violate("P13", "wrong-identity", "attestation options for %s name %q", auUsers[user].email, o.User.Name)
		return
	}
	time.Sleep(time.Duration(op.D) * time.Millisecond)
	k, good, form := s.create(c, o, user, op.S)
	s.mu.Lock()
	s.km.keys = append(s.km.keys, k)
	s.mu.Unlock()
	if op.S == "otherchal" { // another user answers
		for _, x := range s.brs {
			if s.user(x) != user && x != b {
				if t2 := s.open(x, "/o"); t2 != "" && s.identify(x, s.pkURL("RegisterNewID", t2), s.user(x)) {
					b, au, k.user = x, s.pkURL("AddKey", t2), s.user(x)
					good = false
				}
				break
			}
		}
	}
	n := 1
	if op.S == "dup" {
		n = 2
	}
	jar := b.cookies(pkHost)
	s.parallel(func() {
		s.submit(b, &pkTry{kind: kind, key: k, chal: c, good: good, user: user, own: n == 1}, au, form, nil)
	}, func() {
		if n == 2 {
			s.submit(b, &pkTry{kind: kind, key: k, chal: c, good: good, user: user}, au, form, jar)
		}
	})
	if op.S == "replay" {
		time.Sleep(time.Duration(op.D) * time.Millisecond)
		s.submit(b, &pkTry{kind: kind, key: k, chal: c, good: good, user: user}, au, form, jar)
	}
}

// mine picks one of a user's keys.
func (s *store) mine(user int, n int64) *pkKey {
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []*pkKey
	for _, k := range s.km.keys {
		if k.user == user {
			l = append(l, k)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[int(n)%len(l)]
}

// newest picks the newest of a user's keys that should work.
func (s *store) newest(user int) *pkKey {
	s.mu.Lock()
	defer s.mu.Unlock()
	now := s.w.since()
	for i := len(s.km.keys) - 1; i >= 0; i-- {
		if k := s.km.keys[i]; k.user == user && s.mustAlive(k, now, now) {
			return k
		}
	}
	return nil
}

// pkLogin logs in with a key. It reports whether that succeeded.
func (s *store) pkLogin(b *browser, k *pkKey, op *Op) bool {
	tok := s.open(b, fmt.Sprintf("/app%d", op.B))
	if tok == "" {
		return false
	}
	return s.pkCheck(b, k, op, tok, true)
}

func (s *store) pkCheck(b *browser, k *pkKey, op *Op, tok string, again bool) bool {
	loginID := ""
	form := url.Values{}
	if op.C&1 != 0 {
		loginID = auUsers[k.user].email
		form.Set("loginId", loginID)
	}
	if op.S == "mixed" { // someone else is known to the identity provider
		other := (k.user + 1 + int(op.B)) % len(auUsers)
		if other == k.user || !s.identify(b, s.pkURL("RegisterNewID", tok), other) {
			return false
		}
	}
	c, o := s.options(b, s.pkURL("AssertionOptions", tok), "ass", k.user, form)
	if c == nil {
		return false
	}
	if loginID != "" {
		t := &pkTry{kind: "opts", r: c.r, key: k, user: k.user, node: c.node}
		for _, x := range o.Allow {
			if bytes.Equal(unArr(x.ID), k.id) {
				t.good = true
			}
		}
		s.mu.Lock()
		s.km.opts = append(s.km.opts, t)
		s.mu.Unlock()
	}
	time.Sleep(time.Duration(op.D) * time.Millisecond)
	good, args := s.assert(c, k, op.S, loginID)
	n := 1
	if op.S == "dup" {
		n = 2 + int(op.B)%2
	}
	u := s.pkURL("Check", tok)
	jar := b.cookies(pkHost)
	t := &pkTry{kind: "login", key: k, chal: c, good: good, user: k.user, own: n == 1, fresh: op.S == "fresh"}
	var fs []func()
	fs = append(fs, func() { s.submit(b, t, u, args, nil) })
	for i := 1; i < n; i++ {
		fs = append(fs, func() {
			s.submit(b, &pkTry{kind: "login", key: k, chal: c, good: good, user: k.user}, u, args, jar)
		})
	}
	s.parallel(fs...)
	if op.S == "replay" {
		t.own = true
		s.submit(b, &pkTry{kind: "login", key: k, chal: c, good: good, user: k.user}, u, args, jar)
	}
	if t.res == "refresh" && again {
		var res struct{ URL string }
		json.Unmarshal([]byte(t.r.body), &res)
		if s.identify(b, res.URL, k.user) {
			if op.S != "mixed" && op.S != "shared" {
				return s.pkCheck(b, k, &Op{B: op.B, S: "fresh"}, tok, false)
			}
			return s.pkCheck(b, k, &Op{B: op.B}, tok, false)
		}
		return false
	}
	if t.out == outAck {
		s.pkApp(b, op.B)
	}
	return t.out == outAck
}

func (s *store) pkApp(b *browser, n int64) {
	s.do(b, fmt.Sprintf("https://%s/app%d", pkHost, n), reqOpt{kind: "pkapp"})
}

const manageURL = "https://" + pkHost + "/.sso/passkeys"

func (s *store) doKey(b *browser, op *Op) {
	user := s.user(b)
	switch op.K {
	case "reg":
		s.register(b, user, op)
	case "login":
		k := s.mine(user, op.A)
		if op.A >= 100 {
			k = s.newest(user)
		}
		if k != nil {
			s.pkLogin(b, k, op)
		} else if op.A%3 == 0 {
			s.register(b, user, &Op{})
		}
	case "app":
		s.pkApp(b, op.B)
	case "add":
		if s.enter(b, user, op) {
			s.addKey(b, user, op, manageURL+"?get=AttestationOptions", manageURL+"?get=AddKey", "add")
		}
	case "del":
		k := s.mine(user, op.A)
		if op.S == "other" {
			for _, x := range s.brs {
				if u := s.user(x); u != user {
					k = s.mine(u, op.A)
				}
			}
		}
		if k == nil || !s.enter(b, user, op) {
			return
		}
		time.Sleep(time.Duration(op.D) * time.Millisecond)
		s.submit(b, &pkTry{kind: "del", key: k, user: user, good: k.user == user}, manageURL+"?get=DeleteKey&id="+hex.EncodeToString(k.id), nil, nil)
	case "list":
		if s.enter(b, user, op) {
			s.list1(b, user)
		}
	case "jsess": // requests without a session
		k := s.mine(user, op.A)
		if k == nil {
			return
		}
		b.forget("TLSPROXYAUTH")
		switch op.B % 3 {
		case 0:
			s.submit(b, &pkTry{kind: "del", key: k, user: -1}, manageURL+"?get=DeleteKey&id="+hex.EncodeToString(k.id), nil, nil)
		case 1:
			s.pkPost(b, s.pkURL("AttestationOptions", "x"), nil)
		case 2:
			s.pkApp(b, 0)
		}
	}
}

func (s *store) list1(b *browser, user int) {
	s.mu.Lock()
	node := s.node
	s.mu.Unlock()
	r := s.pkGet(b, manageURL)
	s.mu.Lock()
	s.km.list = append(s.km.list, &pkTry{kind: "list", r: r, user: user, node: node})
	s.mu.Unlock()
}

// enter opens a session with a working key, if there is none.
func (s *store) enter(b *browser, user int, op *Op) bool {
	s.mu.Lock()
	now := s.w.since()
	_, hi := s.wall(now, now)
	for _, c := range b.cookies(pkHost) {
		if c.Name == "TLSPROXYAUTH" {
			if t := s.km.toks[c.Value]; t != nil && t.user == user && (hi-float64(t.iat) < 570 || op.C&2 != 0) {
				s.mu.Unlock()
				return true
			}
		}
	}
	s.mu.Unlock()
	k := s.newest(user)
	if k == nil {
		return false
	}
	return s.pkLogin(b, k, &Op{B: op.B})
}

func (s *store) finalKeys() {
	s.mu.Lock()
	keys := append([]*pkKey(nil), s.km.keys...)
	s.mu.Unlock()
	for i, k := range keys {
		for _, b := range s.brs {
			if s.user(b) == k.user {
				s.pkLogin(b, k, &Op{B: int64(i), C: int64(i & 1)})
				if i%2 == 0 || i == len(keys)-1 {
					if len(b.cookies(pkHost)) > 0 {
						s.list1(b, k.user)
					}
				}
				break
			}
		}
	}
}

// mayAlive and mustAlive tell whether a key may or must be registered in an
// interval.
func (s *store) mayAlive(k *pkKey, from, to time.Duration) bool {
	reg := false
	var last time.Duration
	for _, t := range s.km.try {
		if t.key == k && (t.kind == "reg" || t.kind == "add") && t.out != outNone && t.r.sent <= to {
			reg = true
			last = max(last, t.r.done)
			if t.out == outUnknown {
				last = 1 << 62
			}
		}
	}
	for _, t := range s.km.try {
		if t.key == k && t.kind == "del" && t.good && t.out == outAck && t.r.done <= from && t.r.sent >= last {
			return false
		}
	}
	return reg
}

func (s *store) mustAlive(k *pkKey, from, to time.Duration) bool {
	reg := false
	for _, t := range s.km.try {
		if t.key != k {
			continue
		}
		switch t.kind {
		case "reg", "add":
			reg = reg || t.out == outAck && t.r.done <= from
		case "del":
			if t.good && t.out != outNone && t.r.sent <= to {
				return false
			}
		}
	}
	return reg
}

// allowed reports whether a user may and must be let in.
func (s *store) allowed(user int, from, to time.Duration) (may, must bool) {
	must = true
	for _, v := range s.km.acls {
		if v.from <= to && v.until+15*time.Second >= from {
			x := aclHas(v.acl, user)
			may = may || x
			must = must && x
		}
	}
	return
}

func (s *store) judgeKeys() {
	w := s.w
	s.mu.Lock()
	defer s.mu.Unlock()
	okBy := map[*pkChal]int{}
	for _, t := range s.km.try {
		r := t.r
		if r.id == "" {
			continue
		}
		w.check()
		email := auUsers[t.key.user].email
		desc := fmt.Sprintf("%s %s with a key of %s", t.kind, r.id, email)
		_, calm := 0, s.quiet(r.sent, r.done) && !s.reconfed(r.sent, r.done) && r.err == nil
		if t.kind == "del" {
			if t.out == outAck && t.user < 0 {
				w.violate("P13", "no-session", "%s succeeded without a session", desc)
			}
			if calm && t.good && t.out != outAck && s.freshSession(r, t.user) && !s.current(r, t.key) {
				w.violate("P13", "refused", "%s was refused with status %d", desc, r.status)
			}
			if t.out == outAck && s.staleSession(r) {
				w.violate("P13", "stale-session", "%s succeeded with a session older than ten minutes", desc)
			}
			continue
		}
		c := t.chal
		age, ageMax := s.least(c.r.done, r.sent), s.most(c.r.sent, r.done)
		if t.out == outAck {
			okBy[c]++
			switch {
			case !t.good:
				w.violate("P13", "wrong-answer", "%s succeeded with a wrong answer", desc)
			case okBy[c] > 1:
				w.violate("P13", "challenge-twice", "%s: a challenge was answered twice with success", desc)
			case age > 5*time.Minute+2*time.Second:
				w.violate("P13", "late", "%s succeeded %v after the challenge was issued", desc, age)
			case t.kind == "login" && !s.mayAlive(t.key, r.sent, r.done):
				w.violate("P13", "dead-key", "%s succeeded although the key is not registered (%s)", desc, s.history(t.key))
			case t.kind != "login":
				if may, _ := s.allowed(t.key.user, r.sent, r.done); !may && t.kind == "reg" {
					w.violate("P13", "not-allowed", "%s succeeded although the user is not allowed", desc)
				}
				if t.kind == "add" && s.staleSession(r) {
					w.violate("P13", "stale-session", "%s succeeded with a session older than ten minutes", desc)
				}
				if t.kind == "reg" {
					for _, k := range s.km.keys {
						if k != t.key && k.user == t.key.user && s.mustAlive(k, r.sent, r.done) {
							w.violate("P13", "second-registration", "%s succeeded although the user has a key already", desc)
							break
						}
					}
				}
			}
			if t.kind == "login" && s.ss.RefreshS > 0 && t.res == "ok" {
				lo, _ := s.wall(r.sent, r.done)
				if lo-float64(s.km.oidc[t.key.user]) > float64(s.ss.RefreshS)+2 {
					w.violate("P13", "refresh", "%s succeeded although the identity was last confirmed %.0fs ago", desc, lo-float64(s.km.oidc[t.key.user]))
				}
			}
			if t.kind == "login" && t.res == "refresh" && t.fresh {
				_, hi := s.wall(c.r.sent, r.done)
				if len(r.auth) > 0 && s.session(r) == nil && hi-float64(s.km.oidc[t.key.user]) < float64(s.ss.RefreshS)-60 && s.quiet(c.r.sent-time.Minute, r.done) && !s.reconfed(c.r.sent-time.Minute, r.done) {
					w.violate("P13", "refresh", "%s has to refresh an identity that was just confirmed", desc)
				}
			}
			if t.kind == "login" && t.res == "refresh" && s.ss.RefreshS == 0 {
				w.violate("P13", "refresh", "%s: the identity has to be refreshed for no reason", desc)
			}
			if t.res == "ok" && t.kind != "add" && t.tok == nil {
				w.violate("P13", "no-cookie", "%s was acknowledged without a cookie", desc)
			}
			continue
		}
		// Refused.
		if r.set["TLSPROXYAUTH"] != nil && r.set["TLSPROXYAUTH"].Value != "" {
			w.violate("P13", "refused-cookie", "%s was refused with status %d but yielded a cookie", desc, r.status)
		}
		if !calm || !t.good || !t.own || ageMax > 5*time.Minute-2*time.Second || !s.quiet(c.r.sent, r.done) || s.reconfed(c.r.sent, r.done) || t.node != c.node {
			continue
		}
		switch t.kind {
		case "login":
			if s.mustAlive(t.key, r.sent, r.done) {
				w.violate("P13", "refused", "%s was refused with status %d (%s)", desc, r.status, s.history(t.key))
			}
		case "add":
			if s.freshSession(r, t.user) && slices.Equal(r.auth, c.r.auth) {
				w.violate("P13", "refused", "%s was refused with status %d", desc, r.status)
			}
		case "reg":
			_, must := s.allowed(t.key.user, r.sent, r.done)
			must = must && len(r.auth) > 0 && slices.Equal(r.auth, c.r.auth)
			for _, k := range s.km.keys {
				if k != t.key && k.user == t.key.user && s.mayAlive(k, r.sent, r.done) {
					must = false
				}
			}
			if must {
				w.violate("P13", "refused", "%s was refused with status %d although the user has no key", desc, r.status)
			}
		}
	}
	for _, t := range s.km.opts {
		w.check()
		r := t.r
		if !t.good && s.mustAlive(t.key, r.sent, r.done) && s.quiet(r.sent, r.done) && !s.reconfed(r.sent, r.done) {
			w.violate("P13", "not-offered", "the options %s for %s do not list a key that is registered (%s)", r.id, auUsers[t.key.user].email, s.history(t.key))
		}
		if t.good && !s.mayAlive(t.key, r.sent, r.done) && s.quiet(r.sent, r.done) && !s.reconfed(r.sent, r.done) {
			w.violate("P13", "offered", "the options %s for %s list a key that is not registered (%s)", r.id, auUsers[t.key.user].email, s.history(t.key))
		}
	}
	for _, t := range s.km.list {
		r := t.r
		if r.err != nil || r.status != 200 {
			continue
		}
		w.check()
		w.probe("pk-list")
		for _, k := range s.km.keys {
			in := strings.Contains(r.body, "<div>"+hex.EncodeToString(k.id)[:8]+"</div>")
			switch {
			case in && k.user != t.user:
				w.violate("P13", "list", "the list %s of %s has a key of %s", r.id, auUsers[t.user].email, auUsers[k.user].email)
			case in && !s.mayAlive(k, r.sent, r.done):
				w.violate("P13", "list", "the list %s of %s has a key that is not registered (%s)", r.id, auUsers[t.user].email, s.history(k))
			case !in && k.user == t.user && s.mustAlive(k, r.sent, r.done) && s.quiet(r.sent, r.done) && !s.reconfed(r.sent, r.done):
				w.violate("P13", "list", "the list %s of %s lacks a registered key (%s)", r.id, auUsers[t.user].email, s.history(k))
			}
		}
	}
	for _, r := range s.reqs {
		if r.kind == "pk" || r.kind == "pkapp" {
			s.slow(r, "P13", 0)
		}
		if r.host != pkHost {
			continue
		}
		lo, hi := s.wall(r.sent, r.done)
		var tk *pkTok
		for _, c := range r.auth {
			if x := s.km.toks[c]; x != nil {
				tk = x
			}
		}
		for _, x := range r.seen {
			w.check()
			uid := x.hdr.Values("X-Tlsproxy-User-Id")
			if tk == nil || lo > float64(tk.exp)+1 {
				w.violate("P13", "unauthorized", "request %s reached the backend without having logged in", r.id)
			} else if may, _ := s.allowed(tk.user, r.sent, r.done); !may {
				w.violate("P13", "unauthorized", "request %s of %s reached the backend although the user is not allowed", r.id, auUsers[tk.user].email)
			} else if len(uid) != 1 || uid[0] != auUsers[tk.user].email {
				w.violate("P13", "wrong-identity", "request %s of %s reached the backend as %q", r.id, auUsers[tk.user].email, uid)
			}
		}
		if r.kind == "pkapp" && r.err == nil && tk != nil && len(r.auth) == 1 && tk.at <= r.sent && hi < float64(tk.exp)-1 && len(r.seen) == 0 {
			if _, must := s.allowed(tk.user, r.sent, r.done); must {
				w.violate("P13", "refused", "request %s of %s, who is logged in, was refused with status %d", r.id, auUsers[tk.user].email, r.status)
			}
		}
	}
}

// session returns the session that a request was sent with.
func (s *store) session(r *aReq) *pkTok {
	if len(r.auth) != 1 {
		return nil
	}
	return s.km.toks[r.auth[0]]
}

func (s *store) freshSession(r *aReq, user int) bool {
	t := s.session(r)
	_, hi := s.wall(r.sent, r.done)
	if t == nil || t.user != user || hi-float64(t.iat) > 598 {
		return false
	}
	_, must := s.allowed(user, r.sent, r.done)
	return must
}

func (s *store) staleSession(r *aReq) bool {
	t := s.session(r)
	lo, _ := s.wall(r.sent, r.done)
	return t == nil || lo-float64(t.iat) > 602
}

func (s *store) current(r *aReq, k *pkKey) bool {
	t := s.session(r)
	return t != nil && t.key == k
}

func (s *store) history(k *pkKey) string {
	var l []string
	for _, t := range s.km.try {
		if t.key == k && t.kind != "login" {
			l = append(l, fmt.Sprintf("%s %s from %.3fs to %.3fs: %s", t.kind, t.r.id, t.r.sent.Seconds(), t.r.done.Seconds(), []string{"no", "acknowledged", "uncertain"}[t.out]))
		}
	}
	return strings.Join(l, ", ")
}

func runKey(w *World) {
	s := newStore(w)
	s.km = &keyModel{toks: map[string]*pkTok{}, chal: map[string]*pkChal{}, oidc: make([]int64, len(auUsers))}
	acls := []*[]string{nil, {"alice@example.com", "bob@example.com", "@other.org"}, {"@example.com"}}
	set := func(n int64) {
		s.km.acl = acls[int(n)%len(acls)]
	}
	set(s.ss.ACL)
	s.km.acls = []aclVer{{0, 1 << 62, s.km.acl}}
	s.onReconf = func(op *Op) func() {
		if op.B == 0 {
			return func() {}
		}
		s.mu.Lock()
		set(op.B - 1)
		s.km.acls = append(s.km.acls, aclVer{w.since(), 1 << 62, s.km.acl})
		i := len(s.km.acls) - 1
		s.mu.Unlock()
		return func() {
			s.mu.Lock()
			s.km.acls[i-1].until = w.since()
			s.mu.Unlock()
		}
	}
	if !s.boot() {
		return
	}
	w.ev("started")
	w.perturb()
	s.start()
	if !s.run(s.doKey) {
		return
	}
	s.finalKeys()
	s.end()
	s.judgeAll()
	s.judgeKeys()
}

func genKeys(r rng, tier string) *Plan {
	p := &Plan{Sched: r.randSched(), Net: r.randNet()}
	nb := r.between(2, 4)
	p.Auth, p.Store = storeBase(r, nb)
	p.Auth.Cfgs[0].Be = append(p.Auth.Cfgs[0].Be[:2], AuthBe{Hosts: []string{pkHost}, Mode: "HTTP", Srv: 1})
	s := p.Store
	s.Passkey = true
	s.ACL = int64(r.pick(0, 0, 1, 1, 2))
	s.RefreshS = int64(r.pick(0, 0, 0, 600, 3600*24))
	gaps := []int{0, 0, 5, 50, 300, 1000, 5000, 30000, 120000}
	if r.p(30) {
		gaps = []int{0, 0, 0, 1, 5, 20}
	}
	if s.RefreshS > 0 && r.p(50) {
		gaps = append(gaps, int(s.RefreshS)*1000+5000)
	}
	add := func(w int, k string, f func(o *Op)) {
		o := Op{K: k, W: w, At: int64(gaps[r.n(len(gaps))]), A: int64(r.pick(0, 1, 2, 3, 4, 5, 100, 100, 100, 100)), B: int64(r.n(4))}
		if f != nil {
			f(&o)
		}
		p.Ops = append(p.Ops, o)
	}
	for w := 0; w < nb; w++ {
		add(w, "reg", func(o *Op) {
			if r.p(20) {
				o.S = r.picks("dup", "replay")
			}
		})
	}
	n := r.between(5, 18)
	if tier == "thorough" {
		n = r.between(5, 40)
	}
	for i := 0; i < n; i++ {
		w := r.n(nb)
		k := r.picks("login", "login", "login", "login", "add", "add", "add", "del", "del", "del", "list", "app", "reg", "reg", "jsess")
		add(w, k, func(o *Op) {
			switch k {
			case "login":
				o.C = int64(r.n(2))
				if r.p(35) {
					o.S = r.picks("dup", "dup", "replay", "badsig", "swapdata", "badrp", "badtype", "nouv", "noup", "badchal", "wronguser", "otherkey", "mixed", "mixed")
				}
			case "reg", "add":
				if r.p(35) {
					o.S = r.picks("dup", "replay", "badorigin", "badrp", "badtype", "nouv", "noup", "badchal", "otherchal")
				}
			case "del":
				if r.p(15) {
					o.S = "other"
				}
			}
			if r.p(30) {
				o.C |= 2
			}
			if r.p(12) {
				o.D = int64(r.pick(100, 2000, 60000, 290000, 297000, 303000, 310000, 595000, 605000))
			}
		})
	}
	tot := map[int]int64{}
	span := int64(0)
	var aim []int64
	for _, o := range p.Ops {
		tot[o.W] += o.At
		if o.K == "del" || o.K == "reg" || o.K == "add" {
			aim = append(aim, tot[o.W])
		}
		tot[o.W] += o.D + 100
		span = max(span, tot[o.W])
	}
	span = span*5/4 + 200
	gl := r.globals(span, true)
	for i := range gl {
		if gl[i].K == "reconf" && r.p(40) {
			gl[i].B = int64(r.between(1, 3))
		}
		if gl[i].K == "jump" && r.p(60) && gl[i].A > 0 {
			gl[i].A = int64(r.pick(1, 60, 280, 299, 301, 400, 700)) * 1000
		}
	}
	p.Ops = append(p.Ops, gl...)
	p.Faults = r.fsFaults(span, "passkeys", "passkeys", "passkeys", ".lock", "token-keys")
	for i, n := 0, r.pick(0, 0, 1, 2, 4); i < n; i++ { // at the time of a change
		f := Fault{K: "fs", A: aim[r.n(len(aim))] + int64(r.n(200)), N: int64(r.pick(1, 1, 1, 2, 3)), B: int64(r.n(5000))}
		f.S = r.picks("err", "err", "err", "err", "part", "after", "crash0", "crash1", "torn") + "|" + r.picks("rename /simdisk/auth/test/passkeys", "write /simdisk/auth/test/passkeys", "create /simdisk/auth/test/passkeys")
		p.Faults = append(p.Faults, f)
	}
	return p
}

func init() {
	register(&Scenario{Name: "st-p13", Gen: func(r rng, tier string) *Plan { return genKeys(r, tier) }, Run: runKey, Horizon: 60 * 24 * time.Hour})
}
