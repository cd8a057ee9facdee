package server

import (
	"bytes"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use chanrecv
//vp:bound one or two genuine chunks of a read request (every content), then any bytes of any length from 8 to the genuine length +17; modes sign, sign and encrypt; signature sizes 4 and 20; every id, token and sequence number
//vp:assume an attacker cannot produce the signature of a message that was not signed (ideal MAC)
//vp:outside forging by breaking the cryptography; denial of service

func vpBody(ch *serverSecureChannel, req *ua.ReadRequest) []byte {
	var body bytes.Buffer
	e := ua.NewBinaryEncoder(&body, ch)
	e.WriteNodeID(ua.NodeIDNumeric{ID: 631})
	e.Encode(req)
	return body.Bytes()
}

// whatever arrives in place of the genuine message is accepted only if it is the genuine message
func VP_C11_tamper() {
	mode := []ua.MessageSecurityMode{ua.MessageSecurityModeSign, ua.MessageSecurityModeSignAndEncrypt}[vp.Choice("mode", 2)]
	sig := []int{4, 20}[vp.Choice("sig", 2)]
	conn := &vpConn{}
	ch := vpChannel(conn, mode, 256, 256)
	ch.channelID, ch.tokenID = vp.U32("channel"), vp.U32("token")
	ch.pendingTokenID = ch.tokenID
	p := vpSetRecv(ch, mode, sig)
	genuine := p.chunk("MSGF", vp.U32("seq"), vp.U32("id"), vpBody(ch, vpReadRequest(2)), 0)
	n := 8 + vp.Choice("n", len(genuine)+10)
	if vp.Tier() == 0 {
		vp.Assume(n < 48 || n%16 == 0 || n == len(genuine) || n > len(genuine)-2)
	}
	conn.in = vp.Bytes("wire", n)
	copy(conn.in[4:], vpPut32(uint32(n)))
	// security header of a message of this channel and token; C12 covers the others
	copy(conn.in[8:], vpPut32(ch.channelID))
	if n >= 16 {
		copy(conn.in[12:], vpPut32(ch.tokenID))
	}
	// asymmetric messages are another matter
	vp.Assume(string(conn.in[:3]) != "OPN")
	wire := append([]byte(nil), conn.in...)
	_, _, err := ch.readRequest()
	if err == nil {
		vp.Assert(len(wire) == len(genuine) && vp.EqBytes(wire, genuine), "only a message signed by the peer is accepted")
		vp.Reach("accepted")
	} else {
		vp.Reach("refused")
	}
}

// a chunk recorded from the same channel is not accepted again, nor out of order
func VP_C11_replay() {
	mode := vpMode("mode")
	sig := 0
	if mode != ua.MessageSecurityModeNone {
		sig = 4
	}
	conn := &vpConn{}
	ch := vpChannel(conn, mode, 256, 256)
	ch.channelID, ch.tokenID = vp.U32("channel"), vp.U32("token")
	ch.pendingTokenID = ch.tokenID
	p := vpSetRecv(ch, mode, sig)
	body := vpBody(ch, vpReadRequest(1))
	seq := vp.U32("seq")
	vp.Assume(seq < 0xFFFFFFFF-1024)
	m := [][]byte{}
	for i := 0; i < 3; i++ {
		m = append(m, p.chunk("MSGF", seq+uint32(i), vp.U32("id"), body, 0))
	}
	conn.in = append([]byte(nil), m[0]...)
	_, _, err := ch.readRequest()
	vp.Assert(err == nil, "the first message is accepted")
	k := 1
	if vp.Bool("more") {
		conn.in = append([]byte(nil), m[1]...)
		_, _, err = ch.readRequest()
		vp.Assert(err == nil, "the next message is accepted")
		k = 2
	}
	j := vp.Choice("again", 3)
	conn.in = append([]byte(nil), m[j]...)
	_, _, err = ch.readRequest()
	vp.Assert((err == nil) == (j == k), "a message is accepted exactly once and in order")
}

// a message of another channel or under an unknown token is refused; a pending token becomes the one in force
func VP_C11_token() {
	conn := &vpConn{}
	ch := vpChannel(conn, ua.MessageSecurityModeNone, 256, 256)
	ch.channelID, ch.tokenID, ch.pendingTokenID = vp.U32("channel"), vp.U32("token"), vp.U32("pending")
	old := ch.tokenID
	p := vpSetRecv(ch, ua.MessageSecurityModeNone, 0)
	body := vpBody(ch, vpReadRequest(1))
	p.channel, p.token = vp.U32("wirechannel"), vp.U32("wiretoken")
	kind := []string{"MSGF", "CLOF"}[vp.Choice("kind", 2)]
	conn.in = p.chunk(kind, 1, 3, body, 0)
	_, _, err := ch.readRequest()
	good := vp.And(p.channel == ch.channelID, vp.Or(p.token == old, p.token == ch.pendingTokenID))
	vp.Assert((err == nil) == good, "a message is accepted under the current or the pending token of its own channel only")
	if err == nil {
		vp.Assert(ch.tokenID == p.token, "the token of the last message is the one in force")
	} else {
		vp.Assert(ch.tokenID == old, "a refused message does not change the token in force")
	}
}
