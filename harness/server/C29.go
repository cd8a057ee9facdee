package server

import (
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"errors"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:use rsa
//vp:bound four fixed 2048-bit RSA keys; user names up to 1 byte, passwords up to 3 bytes (quick) or 8 bytes (thorough), one or two RSA blocks; six security policies for the channel and for the token
//vp:assume RSA is ideal: a signature verifies exactly if the key made it over the digest with the same scheme; a ciphertext decrypts exactly if it was made for the key with the same scheme
//vp:assume random nonces are concrete and distinct from every earlier one
//vp:outside the secrecy of the random numbers, validation of certificate chains, timing of the checks

var vpPolicies = []string{
	ua.SecurityPolicyURINone, ua.SecurityPolicyURIBasic128Rsa15, ua.SecurityPolicyURIBasic256,
	ua.SecurityPolicyURIBasic256Sha256, ua.SecurityPolicyURIAes128Sha256RsaOaep, ua.SecurityPolicyURIAes256Sha256RsaPss,
}

// vpSign signs like the policy prescribes.
func vpSign(policy string, key *rsa.PrivateKey, msg []byte) ua.ByteString {
	var s []byte
	switch policy {
	case ua.SecurityPolicyURIBasic128Rsa15, ua.SecurityPolicyURIBasic256:
		h := sha1.Sum(msg)
		s, _ = rsa.SignPKCS1v15(rand.Reader, key, crypto.SHA1, h[:])
	case ua.SecurityPolicyURIBasic256Sha256, ua.SecurityPolicyURIAes128Sha256RsaOaep:
		h := sha256.Sum256(msg)
		s, _ = rsa.SignPKCS1v15(rand.Reader, key, crypto.SHA256, h[:])
	case ua.SecurityPolicyURIAes256Sha256RsaPss:
		h := sha256.Sum256(msg)
		s, _ = rsa.SignPSS(rand.Reader, key, crypto.SHA256, h[:], &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
	}
	return ua.ByteString(s)
}

// vpSeal encrypts one block like the policy prescribes.
func vpSeal(policy string, key *rsa.PublicKey, msg []byte) []byte {
	var s []byte
	var err error
	switch policy {
	case ua.SecurityPolicyURIBasic128Rsa15:
		s, err = rsa.EncryptPKCS1v15(rand.Reader, key, msg)
	case ua.SecurityPolicyURIBasic256, ua.SecurityPolicyURIBasic256Sha256, ua.SecurityPolicyURIAes128Sha256RsaOaep:
		s, err = rsa.EncryptOAEP(sha1.New(), rand.Reader, key, msg, []byte{})
	case ua.SecurityPolicyURIAes256Sha256RsaPss:
		s, err = rsa.EncryptOAEP(sha256.New(), rand.Reader, key, msg, []byte{})
	}
	if err != nil {
		panic(err)
	}
	return s
}

func vpWrap(policy string) string {
	switch policy {
	case ua.SecurityPolicyURIBasic128Rsa15:
		return ua.RsaV15KeyWrap
	case ua.SecurityPolicyURIBasic256, ua.SecurityPolicyURIBasic256Sha256, ua.SecurityPolicyURIAes128Sha256RsaOaep:
		return ua.RsaOaepKeyWrap
	case ua.SecurityPolicyURIAes256Sha256RsaPss:
		return ua.RsaOaepSha256KeyWrap
	}
	return ""
}

func vpConcat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

const vpNonce0 = "0123456789abcdefghijklmnopqrstuv"
const vpNonceOld = "vutsrqponmlkjihgfedcba9876543210"

// vpVerdict is what the application's authenticator says: nil, a status code, or an error of another type.
func vpVerdict() (error, bool) {
	switch vp.Choice("verdict", 3) {
	case 0:
		return nil, true
	case 1:
		return ua.BadUserAccessDenied, false
	}
	return errors.New("no"), false
}

type vpActivation struct {
	srv     *Server
	conn    *vpConn
	ch      *serverSecureChannel
	session *Session
	policy  string // of the channel
	asked   []any  // identities the authenticator was asked about
	yes     bool   // what it says
	first   bool   // the session was not active before
}

// vpActivate is a server with a session that is new or was activated before by another user on another channel, and
// a channel of any policy. Unless full, the authenticator accepts everyone.
func vpActivate(policy string, serverKey int, full bool, tokens ...ua.UserTokenPolicy) *vpActivation {
	vp.Limit("rand", 1)
	vp.Limit("steps", 20000000)
	srv := vpServer()
	a := &vpActivation{srv: srv, policy: policy}
	srv.localCertificate = vpCert(serverKey)
	srv.localPrivateKey = vpKey(serverKey)
	var err error
	a.yes = true
	if full {
		err, a.yes = vpVerdict()
	}
	ask := func(id any) error {
		a.asked = append(a.asked, id)
		return err
	}
	if !full || vp.Choice("authenticators", 2) == 0 {
		srv.anonymousIdentityAuthenticator = AuthenticateAnonymousIdentityFunc(func(id ua.AnonymousIdentity, _, _ string) error { return ask(id) })
		srv.userNameIdentityAuthenticator = AuthenticateUserNameIdentityFunc(func(id ua.UserNameIdentity, _, _ string) error { return ask(id) })
		srv.x509IdentityAuthenticator = AuthenticateX509IdentityFunc(func(id ua.X509Identity, _, _ string) error { return ask(id) })
		srv.issuedIdentityAuthenticator = AuthenticateIssuedIdentityFunc(func(id ua.IssuedIdentity, _, _ string) error { return ask(id) })
	} else {
		a.yes = false
	}
	a.conn, a.ch = vpSrvChannel(srv, 7)
	a.ch.securityPolicyURI = policy
	a.ch.remoteCertificate = vpCert(1)
	a.ch.remotePublicKey = &vpKey(1).PublicKey
	a.ch.localEndpoint = ua.EndpointDescription{SecurityPolicyURI: policy, UserIdentityTokens: tokens}
	var cert []byte
	if policy != ua.SecurityPolicyURINone {
		cert = vpCert(1)
	}
	a.session = NewSession(srv, vpN(501), "s", vpN(1), vpNonce0, 3600000, ua.ApplicationDescription{ApplicationURI: "urn:client"}, "", "", ua.ByteString(cert), 0)
	srv.sessionManager.Add(a.session)
	a.first = vp.Choice("active", 2) == 0
	if !a.first {
		a.session.SetUserIdentity(ua.UserNameIdentity{UserName: "before"})
		a.session.SetSecureChannelId(6)
	}
	return a
}

func (a *vpActivation) signature(n string) ua.SignatureData {
	if a.policy == ua.SecurityPolicyURINone {
		return ua.SignatureData{}
	}
	return ua.SignatureData{Signature: vpSign(a.policy, vpKey(1), vpConcat(a.srv.localCertificate, []byte(n)))}
}

// do sends the request and checks that the session is activated for want if ok, and left alone otherwise.
func (a *vpActivation) do(req *ua.ActivateSessionRequest, ok bool, want any, either bool) {
	req.RequestHeader = ua.RequestHeader{AuthenticationToken: vpN(1), RequestHandle: 77}
	var res ua.ActivateSessionResponse
	var st ua.StatusCode
	if err := a.srv.handleRequest(a.ch, req, 4000); err != nil {
		// the channel is closed without an answer
		st = ua.BadUnexpectedError
		vp.Assert(len(a.conn.out) == 0, "a request that ends the channel is not answered")
	} else {
		st = vpReply(a.conn, 0, 4000, &res)
		vp.Assert(len(a.conn.out) == 1, "the request is answered once")
	}
	if ok && !either {
		vp.Assert(st == ua.Good, "a session is activated for a proven identity")
	}
	if !ok {
		vp.Assert(st != ua.Good, "a session is activated for a proven identity only")
	}
	s := a.session
	if st == ua.Good {
		vp.Reach("activated")
		vp.Assert(len(a.asked) == 1, "the identity is authenticated once")
		vp.Assert(vpSameIdentity(a.asked[0], want), "the identity authenticated is the one proven")
		vp.Assert(vpSameIdentity(s.UserIdentity(), want), "the session belongs to the proven identity")
		vp.Assert(s.SecureChannelId() == 7, "the session moves to the channel it was activated on")
		vp.Assert(s.SecurityPolicyURI() == a.policy, "the session has the policy of its channel")
		vp.Assert(s.SecurityMode() == a.ch.securityMode, "the session has the security mode of its channel")
		vp.Assert(s.SessionNonce() != vpNonce0 && len(s.SessionNonce()) == 32, "each activation gives a new nonce")
		vp.Assert(res.ServerNonce == s.SessionNonce(), "the client is told the new nonce")
		return
	}
	vp.Reach("refused")
	vp.Assert(s.SessionNonce() == vpNonce0, "a refused activation leaves the session as it was")
	if a.first {
		vp.Assert(s.UserIdentity() == nil && s.SecureChannelId() == 0, "a refused activation leaves the session as it was")
	} else {
		id, is := s.UserIdentity().(ua.UserNameIdentity)
		vp.Assert(is && id.UserName == "before" && s.SecureChannelId() == 6, "a refused activation leaves the session as it was")
	}
	_, found := a.srv.sessionManager.Get(vpN(1))
	vp.Assert(found, "a refused activation leaves the session as it was")
}

func vpSameIdentity(a, b any) bool {
	switch x := a.(type) {
	case ua.AnonymousIdentity:
		_, ok := b.(ua.AnonymousIdentity)
		return ok
	case ua.UserNameIdentity:
		y, ok := b.(ua.UserNameIdentity)
		return ok && x == y
	case ua.X509Identity:
		y, ok := b.(ua.X509Identity)
		return ok && x.Certificate == y.Certificate
	case ua.IssuedIdentity:
		y, ok := b.(ua.IssuedIdentity)
		return ok && x == y
	}
	return false
}

// VP_C29_channel: the client proves that it holds the key of the channel's certificate, by signing the server's
// certificate and the nonce the session handed out last.
func VP_C29_channel() {
	p := vpPolicies[vp.Choice("policy", 6)]
	fault := vp.Choice("fault", 6)
	a := vpActivate(p, 0, fault == 0, ua.UserTokenPolicy{PolicyID: "a", TokenType: ua.UserTokenTypeAnonymous})
	sp := p
	good := true
	key, cert, nonce := 1, 0, vpNonce0
	switch fault {
	case 1:
		key, good = 2, false
	case 2:
		cert, good = 1, false
	case 3:
		nonce, good = vpNonceOld, false
	case 4:
		nonce, good = "", false
	case 5:
		// another policy's scheme
		sp = vpPolicies[vp.Choice("scheme", 6)]
		switch {
		case sp == p:
		case vp.Or(p == vpPolicies[1], p == vpPolicies[2]) && vp.Or(sp == vpPolicies[1], sp == vpPolicies[2]):
		case vp.Or(p == vpPolicies[3], p == vpPolicies[4]) && vp.Or(sp == vpPolicies[3], sp == vpPolicies[4]):
		default:
			good = false
		}
	}
	sig := []byte(vpSign(sp, vpKey(key), vpConcat(vpCert(cert), []byte(nonce))))
	if len(sig) > 0 && vp.Bool("flip") {
		i, m := vp.Choice("at", 2)*255, vp.U8("mask")
		sig[i] ^= m
		good = good && m == 0
	}
	a.do(&ua.ActivateSessionRequest{
		ClientSignature:   ua.SignatureData{Signature: ua.ByteString(sig)},
		UserIdentityToken: ua.AnonymousIdentityToken{PolicyID: "a"},
	}, a.yes && (p == ua.SecurityPolicyURINone || good), ua.AnonymousIdentity{}, false)
}

// VP_C29_foreign: a session cannot be moved to a channel of another application, or to one without security.
func VP_C29_foreign() {
	p := vpPolicies[vp.Choice("policy", 6)]
	a := vpActivate(p, 0, false, ua.UserTokenPolicy{PolicyID: "a", TokenType: ua.UserTokenTypeAnonymous})
	p2 := vpPolicies[vp.Choice("policy", 6)]
	a.policy = p2
	a.ch.securityPolicyURI = p2
	k := 1 + vp.Choice("who", 2)
	a.ch.remoteCertificate = vpCert(k)
	a.ch.remotePublicKey = &vpKey(k).PublicKey
	secured := p != ua.SecurityPolicyURINone
	a.do(&ua.ActivateSessionRequest{
		ClientSignature:   ua.SignatureData{Signature: vpSign(p2, vpKey(k), vpConcat(vpCert(0), []byte(vpNonce0)))},
		UserIdentityToken: ua.AnonymousIdentityToken{PolicyID: "a"},
	}, secured == (p2 != ua.SecurityPolicyURINone) && (k == 1 || !secured), ua.AnonymousIdentity{}, false)
}

// VP_C29_create: on a secured channel a session is created only for the application that opened the channel, and the
// server proves that it holds the key of its certificate.
func VP_C29_create() {
	vp.Limit("rand", 1)
	vp.Limit("steps", 20000000)
	p := vpPolicies[vp.Choice("policy", 6)]
	srv := vpServer()
	srv.localCertificate = vpCert(0)
	srv.localPrivateKey = vpKey(0)
	other := vpSession(srv, 1, 6, nil)
	conn, ch := vpSrvChannel(srv, 7)
	ch.sendBufferSize, ch.sendBuffer = 65536, make([]byte, 65536)
	ch.securityPolicyURI = p
	ch.remotePublicKey = &vpKey(1).PublicKey
	ch.remoteCertificate = vpCert(1)
	chain := vp.Choice("channel sends chain", 2) == 1
	if chain {
		ch.remoteCertificate = vpConcat(vpCert(1), vpCert(0))
	}
	cert := vpCert(1)
	good := true
	switch vp.Choice("certificate", 5) {
	case 1:
		cert = vpConcat(vpCert(1), vpCert(0))
	case 2:
		cert, good = vpCert(0), false
	case 3:
		cert, good = nil, false
	case 4:
		cert, good = vpConcat(vpCert(0), vpCert(1)), false
	}
	uri := "urn:client"
	switch vp.Choice("uri", 4) {
	case 1:
		uri, good = "", false
	case 2:
		uri = "urn:" + vp.Str("uri", 6)
		good = good && uri == "urn:client"
	case 3:
		uri, good = "urn:server", false
	}
	nonce := []byte("0123456789012345678901234567890123456789")[:[]int{0, 31, 32, 40}[vp.Choice("noncelen", 4)]]
	good = good && len(nonce) >= 32
	req := &ua.CreateSessionRequest{
		RequestHeader:     ua.RequestHeader{RequestHandle: 77},
		ClientDescription: ua.ApplicationDescription{ApplicationURI: uri}, SessionName: "n",
		ClientNonce: ua.ByteString(nonce), ClientCertificate: ua.ByteString(cert), RequestedSessionTimeout: 60000,
	}
	var res ua.CreateSessionResponse
	st := vpDo(srv, conn, ch, req, &res)
	if p == ua.SecurityPolicyURINone || good {
		vp.Assert(st == ua.Good, "the application that opened the channel gets a session")
	} else {
		vp.Assert(st != ua.Good, "only the application that opened the channel gets a session")
	}
	if st != ua.Good {
		vp.Reach("refused")
		vp.Assert(srv.sessionManager.Len() == 1, "a refused request creates no session")
		return
	}
	vp.Reach("created")
	s, ok := srv.sessionManager.Get(res.AuthenticationToken)
	vp.Assert(ok && s != other && srv.sessionManager.Len() == 2, "a session is created")
	vp.Assert(s.SessionId() == res.SessionID && s.SessionNonce() == res.ServerNonce && len(res.ServerNonce) == 32, "the client is told about its session")
	vp.Assert(s.UserIdentity() == nil && s.SecureChannelId() == 0, "a session is not active until it is activated")
	vp.Assert(string(res.ServerCertificate) == string(vpCert(0)), "the client is told the certificate of the server")
	if p != ua.SecurityPolicyURINone {
		key := &vpKey(0).PublicKey
		msg := vpConcat(cert, nonce)
		sig := []byte(res.ServerSignature.Signature)
		var err error
		switch p {
		case ua.SecurityPolicyURIBasic128Rsa15, ua.SecurityPolicyURIBasic256:
			h := sha1.Sum(msg)
			err = rsa.VerifyPKCS1v15(key, crypto.SHA1, h[:], sig)
		case ua.SecurityPolicyURIAes256Sha256RsaPss:
			h := sha256.Sum256(msg)
			err = rsa.VerifyPSS(key, crypto.SHA256, h[:], sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
		default:
			h := sha256.Sum256(msg)
			err = rsa.VerifyPKCS1v15(key, crypto.SHA256, h[:], sig)
		}
		vp.Assert(err == nil, "the server signs the client's certificate and nonce")
	}
}

// VP_C29_policy: a token is accepted under a policy id the endpoint offers for that type of token only.
func VP_C29_policy() {
	types := []ua.UserTokenType{ua.UserTokenTypeAnonymous, ua.UserTokenTypeUserName, ua.UserTokenTypeCertificate, ua.UserTokenTypeIssuedToken}
	var tokens []ua.UserTokenPolicy
	n := vp.Choice("offered", 3)
	for i := 0; i < n; i++ {
		t := types[vp.Choice("type", 4)]
		uri := ua.SecurityPolicyURINone
		if t == ua.UserTokenTypeCertificate {
			// the server offers no certificate logins without signature
			uri = ua.SecurityPolicyURIBasic256Sha256
		}
		tokens = append(tokens, ua.UserTokenPolicy{PolicyID: vp.Str("id", 1), TokenType: t, SecurityPolicyURI: uri})
	}
	a := vpActivate(ua.SecurityPolicyURINone, 0, true, tokens...)
	id := vp.Str("used", 1)
	t := vp.Choice("token", 6)
	offered := false
	for i := range tokens {
		if t < 4 && tokens[i].TokenType == types[t] && tokens[i].PolicyID == id {
			offered = true
		}
		if t == 3 && tokens[i].TokenType == ua.UserTokenTypeCertificate && tokens[i].PolicyID == id {
			offered = true
		}
	}
	req := &ua.ActivateSessionRequest{}
	var want any
	either := false
	switch t {
	case 0:
		req.UserIdentityToken = ua.AnonymousIdentityToken{PolicyID: id}
		want = ua.AnonymousIdentity{}
	case 1:
		u := vp.Str("user", vp.Choice("userlen", 2))
		req.UserIdentityToken = ua.UserNameIdentityToken{PolicyID: id, UserName: u, Password: "pw"}
		want = ua.UserNameIdentity{UserName: u, Password: "pw"}
		if u == "" {
			offered = false
		}
	case 2:
		// nothing proves that the client holds the key of the certificate
		req.UserIdentityToken = ua.X509IdentityToken{PolicyID: id, CertificateData: ua.ByteString(vpCert(2))}
		offered = false
	case 3:
		// the server offers no policy for issued tokens: whether it takes one is left open
		either = true
		req.UserIdentityToken = ua.IssuedIdentityToken{PolicyID: id, TokenData: "td"}
		want = ua.IssuedIdentity{TokenData: "td"}
	case 4:
	case 5:
		req.UserIdentityToken = "x"
	}
	a.do(req, offered && a.yes, want, either)
}

// vpTokenPolicy is a policy for the channel and one for the token, or none to use the channel's.
func vpTokenPolicy() (channel, token, effective string) {
	if vp.Choice("own policy", 2) == 0 {
		channel = vpPolicies[vp.Choice("policy", 6)]
		return channel, "", channel
	}
	token = vpPolicies[vp.Choice("policy", 6)]
	return ua.SecurityPolicyURINone, token, token
}

// VP_C29_x509: a user certificate is accepted only with a signature of its key over the server's certificate and the
// session's nonce.
func VP_C29_x509() {
	p, tp, ep := vpTokenPolicy()
	vp.Assume(ep != ua.SecurityPolicyURINone) // the server offers no certificate logins without signature
	fault := vp.Choice("fault", 8)
	a := vpActivate(p, 0, fault == 0, ua.UserTokenPolicy{PolicyID: "c", TokenType: ua.UserTokenTypeCertificate, SecurityPolicyURI: tp})
	sp := ep
	good := true
	user := vpCert(2)
	key, cert, nonce := 2, 0, vpNonce0
	switch fault {
	case 1:
		key, good = 1, false
	case 2:
		cert, good = 2, false
	case 3:
		nonce, good = vpNonceOld, false
	case 4:
		nonce, good = "", false
	case 5:
		user, good = vpCert(1), false
	case 6:
		user, good = []byte(vpEdCert), false
	case 7:
		user, good = vpCert(2)[:vp.Choice("cut", 2)*40], false
	}
	sig := []byte(vpSign(sp, vpKey(key), vpConcat(vpCert(cert), []byte(nonce))))
	if len(sig) > 0 && vp.Bool("flip") {
		i, m := vp.Choice("at", 2)*255, vp.U8("mask")
		sig[i] ^= m
		good = good && m == 0
	}
	a.do(&ua.ActivateSessionRequest{
		ClientSignature:    a.signature(vpNonce0),
		UserIdentityToken:  ua.X509IdentityToken{PolicyID: "c", CertificateData: ua.ByteString(user)},
		UserTokenSignature: ua.SignatureData{Signature: ua.ByteString(sig)},
	}, good && a.yes, ua.X509Identity{Certificate: ua.ByteString(vpCert(2))}, false)
}

// VP_C29_password: a password is accepted only as encrypted for the server together with the session's nonce, and the
// authenticator sees the password the client encrypted.
func VP_C29_password() {
	p, tp, ep := vpTokenPolicy()
	fault := vp.Choice("fault", 9)
	serverKey, pad := 0, 0
	if fault == 0 {
		serverKey = vp.Choice("server key", 2) * 3
		pad = vp.Choice("pad", 2) * 9
	}
	a := vpActivate(p, serverKey, fault == 0, ua.UserTokenPolicy{PolicyID: "u", TokenType: ua.UserTokenTypeUserName, SecurityPolicyURI: tp})
	pw := vp.Bytes("password", vp.Choice("passwordlen", vp.Bound(4, 9)))
	if ep == ua.SecurityPolicyURINone {
		a.do(&ua.ActivateSessionRequest{
			ClientSignature:   a.signature(vpNonce0),
			UserIdentityToken: ua.UserNameIdentityToken{PolicyID: "u", UserName: "me", Password: ua.ByteString(pw)},
		}, a.yes, ua.UserNameIdentity{UserName: "me", Password: string(pw)}, false)
		return
	}
	good := true
	nonce := []byte(vpNonce0)
	n := len(pw) + 32
	wrap := vpWrap(ep)
	seal := ep
	pub := &vpKey(serverKey).PublicKey
	split := 0
	switch fault {
	case 1:
		nonce, good = []byte(vpNonceOld), false
	case 2:
		i := vp.Choice("at", 2) * 31
		nonce[i] ^= vp.U8("mask")
		good = nonce[i] == vpNonce0[i]
	case 3:
		nonce, good = nonce[:vp.Choice("short", 2)*31], false
	case 4:
		// any length field: still good if it says where the nonce is
		k := int(vp.U32("length"))
		good = k == n
		n = k
	case 5:
		wrap, good = ua.RsaV15KeyWrap+"x", false
	case 6:
		pub, good = &vpKey(1).PublicKey, false
	case 7:
		seal = vpPolicies[1+vp.Choice("scheme", 5)]
		good = vpWrap(seal) == vpWrap(ep)
	case 8:
		split = 20
	}
	plain := vpConcat([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, pw, nonce, make([]byte, pad))
	var ct []byte
	if split > 0 {
		ct = vpConcat(vpSeal(seal, pub, plain[:split]), vpSeal(seal, pub, plain[split:]))
	} else {
		ct = vpSeal(seal, pub, plain)
	}
	a.do(&ua.ActivateSessionRequest{
		ClientSignature:   a.signature(vpNonce0),
		UserIdentityToken: ua.UserNameIdentityToken{PolicyID: "u", UserName: "me", Password: ua.ByteString(ct), EncryptionAlgorithm: wrap},
	}, good && a.yes, ua.UserNameIdentity{UserName: "me", Password: string(pw)}, false)
}

// VP_C29_garbage: whatever a client sends as encrypted password without the server's key is refused.
func VP_C29_garbage() {
	p, tp, ep := vpTokenPolicy()
	vp.Assume(ep != ua.SecurityPolicyURINone)
	a := vpActivate(p, 0, false, ua.UserTokenPolicy{PolicyID: "u", TokenType: ua.UserTokenTypeUserName, SecurityPolicyURI: tp})
	var ct []byte
	switch vp.Choice("garbage", 5) {
	case 1:
		ct = vp.Bytes("x", 1)
	case 2:
		ct = make([]byte, 256)
		ct[255] = vp.U8("x")
	case 3:
		ct = vpSeal(ep, &vpKey(0).PublicKey, vp.Bytes("x", vp.Choice("n", 5)))
	case 4:
		ct = vpSeal(ep, &vpKey(0).PublicKey, vpConcat([]byte{32, 0, 0, 0}, []byte(vpNonce0)))
		ct[255] ^= 1
	}
	a.do(&ua.ActivateSessionRequest{
		ClientSignature:   a.signature(vpNonce0),
		UserIdentityToken: ua.UserNameIdentityToken{PolicyID: "u", UserName: "me", Password: ua.ByteString(ct), EncryptionAlgorithm: vpWrap(ep)},
	}, false, nil, false)
}
