package client

import (
	"context"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:bound client: any bytes from the server of up to 57 (quick) / 63 (thorough) bytes in every mode, before or after the first token, from a server that holds the keys

type vpAnyMAC struct{ size int }

func (s *vpAnyMAC) Write(p []byte) (int, error) { return len(p), nil }
func (s *vpAnyMAC) Reset()                      {}
func (s *vpAnyMAC) Size() int                   { return s.size }
func (s *vpAnyMAC) BlockSize() int              { return 64 }
func (s *vpAnyMAC) Sum(b []byte) []byte         { return append(b, vp.Bytes("anytag", s.size)...) }

func vpGarbage() (*vpConn, *clientSecureChannel) {
	mode := vpMode("mode")
	conn := &vpConn{}
	ch := vpChannel(conn, mode, 64, 64)
	opened := vp.Bool("opened")
	if opened {
		ch.channelID, ch.tokenID = 1, 1
		ch.receivingTokenID = 1
	}
	if mode != ua.MessageSecurityModeNone {
		ch.securityPolicyURI = "vp"
		ch.securityPolicy = &vpPolicy{sig: 4, block: 16}
		if opened {
			ch.symVerifyHMAC = &vpAnyMAC{size: 4}
			ch.symDecryptingBlockCipher = &vpCipher{make([]byte, 16)}
			ch.remoteInitializationVector = make([]byte, 16)
		}
	}
	return conn, ch
}

func VP_C12_cgarbage() {
	conn, ch := vpGarbage()
	n := 8 + vp.Choice("n", vp.Bound(50, 56))
	conn.in = vp.Bytes("wire", n)
	copy(conn.in, "MSG")
	copy(conn.in[4:], vpPut32(uint32(n)))
	if n >= 28 {
		copy(conn.in[24:], []byte{1, 0, 0, 0})
	}
	if _, st := ch.readResponse(); st == ua.Good {
		vp.Assert(false, "a response of unknown type is refused")
	}
}

func VP_C12_cgarbage2() {
	conn, ch := vpGarbage()
	n := vp.Choice("n", vp.Bound(30, 36))
	conn.in = vp.Bytes("wire", n)
	if n > 24 {
		vp.Assume(conn.in[0] != 'M')
	}
	vp.Assume(vp.Or(ch.securityMode == ua.MessageSecurityModeNone, n < 3 || conn.in[0] != 'O'))
	if _, st := ch.readResponse(); st == ua.Good {
		vp.Assert(false, "a response of unknown type is refused")
	}
	_ = context.Background
}
