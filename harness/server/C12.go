package server

import (
	"bytes"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use chanrecv
//vp:bound any bytes: after opening, messages of up to 57 (quick) / 63 (thorough) bytes in every mode, from a peer that holds the keys (every signature may verify); before opening, any first message of up to 33 / 37 bytes followed by an OpenSecureChannel request with any mode, any requested lifetime, any request type, on every set of the endpoints none, sign, sign-and-encrypt
//vp:bound 2^32 starting values for token ids and sequence numbers
//vp:assume lengths of strings in error, open and hello messages are small or far beyond the buffer
//vp:assume policies other than None are not exercised when opening (RSA and X.509 are outside)
//vp:outside longer messages, RSA protected messages, certificate validation, memory exhaustion

type vpAnyMAC struct{ size int }

func (s *vpAnyMAC) Write(p []byte) (int, error) { return len(p), nil }
func (s *vpAnyMAC) Reset()                      {}
func (s *vpAnyMAC) Size() int                   { return s.size }
func (s *vpAnyMAC) BlockSize() int              { return 64 }
func (s *vpAnyMAC) Sum(b []byte) []byte         { return append(b, vp.Bytes("anytag", s.size)...) }

func vpGarbage() (*vpConn, *serverSecureChannel) {
	mode := vpMode("mode")
	conn := &vpConn{}
	ch := vpChannel(conn, mode, 64, 64)
	ch.channelID, ch.tokenID = 1, 1
	ch.pendingTokenID = 1
	ch.lastTokenID = 1
	if mode != ua.MessageSecurityModeNone {
		ch.securityPolicyURI = "vp"
		ch.securityPolicy = &vpPolicy{sig: 4, block: 16}
		ch.symVerifyHMAC = &vpAnyMAC{size: 4}
		ch.symDecryptingBlockCipher = &vpCipher{make([]byte, 16)}
		ch.remoteInitializationVector = make([]byte, 16)
	}
	return conn, ch
}

// any chunk of a service message
func VP_C12_garbage() {
	conn, ch := vpGarbage()
	n := 8 + vp.Choice("n", vp.Bound(50, 56))
	conn.in = vp.Bytes("wire", n)
	copy(conn.in, []string{"MSG", "CLO"}[vp.Choice("kind", 2)])
	copy(conn.in[4:], vpPut32(uint32(n)))
	if n >= 28 {
		// an unknown type of request: the decoders of the others are the subject of another property
		copy(conn.in[24:], []byte{1, 0, 0, 0})
	}
	if _, _, err := ch.readRequest(); err == nil {
		vp.Assert(false, "a request of unknown type is refused")
	}
}

// any other message, any length field
func VP_C12_garbage2() {
	conn, ch := vpGarbage()
	n := vp.Choice("n", vp.Bound(30, 36))
	conn.in = vp.Bytes("wire", n)
	if n > 24 {
		vp.Assume(vp.And(conn.in[0] != 'M', conn.in[0] != 'C'))
	}
	if _, _, err := ch.readRequest(); err == nil {
		vp.Assert(false, "a request of unknown type is refused")
	}
}

func vpOpenServer(mask int) (*vpConn, *serverSecureChannel) {
	conn := &vpConn{}
	ch := vpChannel(conn, ua.MessageSecurityModeNone, 0, 0)
	srv := ch.srv
	srv.maxBufferSize = 8192
	srv.localDescription = ua.ApplicationDescription{DiscoveryURLs: []string{"opc.tcp://h:1"}}
	for i, m := range []ua.MessageSecurityMode{ua.MessageSecurityModeNone, ua.MessageSecurityModeSign, ua.MessageSecurityModeSignAndEncrypt} {
		if mask&(1<<i) != 0 {
			pol := ua.SecurityPolicyURINone
			if i > 0 {
				pol = ua.SecurityPolicyURIBasic256Sha256
			}
			srv.endpoints = append(srv.endpoints, ua.EndpointDescription{EndpointURL: "opc.tcp://h:1", TransportProfileURI: ua.TransportProfileURIUaTcpTransport, SecurityMode: m, SecurityPolicyURI: pol})
		}
	}
	return conn, newServerSecureChannel(srv, conn, false)
}

func vpHello(rcv, snd uint32, url []byte) []byte {
	b := append([]byte("HELF"), vpPut32(uint32(32+len(url)))...)
	for _, v := range []uint32{0, rcv, snd, vp.U32("maxmsg"), vp.U32("maxchunk")} {
		b = append(b, vpPut32(v)...)
	}
	b = append(b, vpPut32(uint32(len(url)))...)
	return append(b, url...)
}

func vpOPN(ch *serverSecureChannel, channel uint32, policy string, req *ua.OpenSecureChannelRequest, seq, id uint32) []byte {
	var body bytes.Buffer
	e := ua.NewBinaryEncoder(&body, ch)
	e.WriteNodeID(ua.NodeIDNumeric{ID: 446})
	e.Encode(req)
	n := 12 + 4 + len(policy) + 8 + 8 + body.Len()
	b := append([]byte("OPNF"), vpPut32(uint32(n))...)
	b = append(b, vpPut32(channel)...)
	b = append(b, vpPut32(uint32(len(policy)))...)
	b = append(b, policy...)
	b = append(b, 255, 255, 255, 255, 255, 255, 255, 255)
	b = append(b, vpPut32(seq)...)
	b = append(b, vpPut32(id)...)
	return append(b, body.Bytes()...)
}

// any first message
func VP_C12_hello() {
	conn, ch := vpOpenServer(1)
	n := vp.Choice("n", vp.Bound(34, 38))
	conn.in = vp.Bytes("wire", n)
	for k := 28; n < 32 && k < n; k++ {
		vp.Assume(conn.in[k] == 0)
	}
	if n >= 32 {
		vp.Assume(vp.Or(vpLE32(conn.in[28:]) <= 16, vp.Or(vpLE32(conn.in[28:]) == 0xFFFFFFFF, vpLE32(conn.in[28:]) == 0x7FFFFFFF)))
	}
	err := ch.Open()
	// only the Hello arrived: opening cannot succeed, whatever it says
	vp.Assert(err != nil, "a channel does not open without an OpenSecureChannel request")
}

// any negotiation, any open request without security
func VP_C12_open() {
	mask := vp.Choice("endpoints", 8)
	conn, ch := vpOpenServer(mask)
	ch.srv.endpoints = append(ch.srv.endpoints[:0:0], ch.srv.endpoints...)
	ch.lastTokenID = vp.U32("lasttoken")
	rcv, snd := vp.U32("rcv"), vp.U32("snd")
	vp.Assume(rcv > 8192-100 && snd > 8192-100)
	mode := ua.MessageSecurityMode(vp.I32("mode"))
	req := &ua.OpenSecureChannelRequest{
		RequestHeader:     ua.RequestHeader{RequestHandle: vp.U32("handle")},
		RequestType:       ua.SecurityTokenRequestType(vp.I32("type")),
		SecurityMode:      mode,
		RequestedLifetime: vp.U32("lifetime"),
	}
	ch.lastTokenID = 0
	conn.in = append(vpHello(rcv, snd, []byte("u")), vpOPN(ch, 0, ua.SecurityPolicyURINone, req, 51, 1)...)
	err := ch.Open()
	if err != nil {
		vp.Reach("refused")
		if rcv >= 8192 && snd >= 8192 && mode == ua.MessageSecurityModeNone && ch.maxResponseMessageSize == 0 && ch.maxResponseChunkCount == 0 {
			vp.Assert(false, "a channel without security opens")
		}
		return
	}
	vp.Reach("opened")
	vp.Assert(vp.And(rcv >= 8192, snd >= 8192), "a client with buffers below the protocol minimum is refused")
	vp.Assert(vp.And(ch.sendBufferSize <= rcv, ch.receiveBufferSize <= snd), "chunks fit the buffers the client announced")
	vp.Assert(vp.And(ch.sendBufferSize <= 8192, ch.receiveBufferSize <= 8192), "chunks fit the server's own buffers")
	vp.Assert(mode == ua.MessageSecurityModeNone, "without a security policy the only mode that opens is none")
	vp.Assert(ch.discoveryOnly == (mask&1 == 0), "without an endpoint that allows it an unsecured channel serves discovery only")
	vp.Assert(len(conn.out) == 2, "the client gets an acknowledge and a response")
	ack, res := conn.out[0], conn.out[1]
	vp.Assert(len(ack) == 28 && string(ack[:4]) == "ACKF" && vpLE32(ack[4:]) == 28, "the acknowledge is well-formed")
	vp.Assert(vp.And(vpLE32(ack[12:]) == ch.receiveBufferSize, vpLE32(ack[16:]) == ch.sendBufferSize), "the acknowledge announces the sizes in force")
	vp.Assert(string(res[:4]) == "OPNF", "the response is an OpenSecureChannel message")
	// response: header 12, policy uri, 8, sequence header 8, type id 4, response header 24, protocol version 4, channel 4, token 4, created 8, lifetime 4
	o := 12 + 4 + len(ua.SecurityPolicyURINone) + 8
	vp.Assert(vpLE32(res[o:]) == 1 && vpLE32(res[o+4:]) == 1, "the response carries the request id")
	o += 8 + 4 + 24 + 4
	lifetime := vpLE32(res[o+16:])
	vp.Assert(vp.And(vpLE32(res[o:]) == ch.channelID, vpLE32(res[o+4:]) == ch.pendingTokenID), "the response names the channel and the new token")
	vp.Assert(vpLE32(res[o+4:]) != 0, "a token id is never zero")
	vp.Assert(vp.And(lifetime >= 300000, lifetime <= 3600000), "the token lifetime stays within the limits")
	want := req.RequestedLifetime
	if want < 300000 {
		want = 300000
	}
	if want > 3600000 {
		want = 3600000
	}
	vp.Assert(lifetime == want, "the token lifetime is the requested one where that is within the limits")
}

// renewing keeps the policy and issues a fresh token
func VP_C12_renew() {
	conn := &vpConn{}
	ch := vpChannel(conn, ua.MessageSecurityModeNone, 512, 512)
	secured := vp.Bool("secured")
	if secured {
		ch.securityMode = ua.MessageSecurityModeSignAndEncrypt
		ch.securityPolicyURI = ua.SecurityPolicyURIBasic256Sha256
		ch.securityPolicy = new(ua.SecurityPolicyBasic256Sha256)
		ch.remoteCertificate = []byte{1, 2, 3}
	}
	ch.channelID, ch.tokenID, ch.lastTokenID = vp.U32("channel"), vp.U32("token"), vp.U32("last")
	vp.Assume(ch.lastTokenID != 0)
	ch.pendingTokenID = ch.tokenID
	last := ch.lastTokenID
	req := &ua.OpenSecureChannelRequest{RequestType: ua.SecurityTokenRequestType(vp.I32("type")), RequestedLifetime: vp.U32("lifetime"), SecurityMode: ua.MessageSecurityMode(vp.I32("mode"))}
	conn.in = vpOPN(ch, ch.channelID, ua.SecurityPolicyURINone, req, vp.U32("seq"), vp.U32("id"))
	got, id, err := ch.readRequest()
	if secured {
		vp.Assert(err != nil, "a secured channel does not accept an unsecured renewal")
		vp.Assert(ch.securityPolicyURI == ua.SecurityPolicyURIBasic256Sha256, "the policy of an open channel never changes")
		return
	}
	vp.Assert(err == nil, "a renewal is read")
	r, ok := got.(*ua.OpenSecureChannelRequest)
	vp.Assert(ok, "a renewal is read as such")
	err = ch.handleOpenSecureChannel(id, r)
	vp.Assert((err == nil) == (r.RequestType == ua.SecurityTokenRequestTypeRenew), "an open channel accepts renewals only")
	vp.Assert(ch.securityMode == ua.MessageSecurityModeNone, "a renewal does not change the mode")
	if err != nil {
		return
	}
	want := last + 1
	if want == 0 {
		want = 1
	}
	vp.Assert(ch.pendingTokenID == want, "token ids increase by one and skip zero")
	res := conn.out[0]
	o := 12 + 4 + len(ua.SecurityPolicyURINone) + 8 + 8 + 4 + 24 + 4
	lifetime := vpLE32(res[o+16:])
	vp.Assert(vp.And(vpLE32(res[o:]) == ch.channelID, vpLE32(res[o+4:]) == want), "the response names the channel and the new token")
	vp.Assert(vp.And(lifetime >= 300000, lifetime <= 3600000), "the token lifetime stays within the limits")
}
