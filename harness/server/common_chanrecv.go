package server

import (
	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

type vpPeer struct {
	mode    ua.MessageSecurityMode
	sig     int
	key, iv []byte
	v       *vpVerifier
	channel uint32
	token   uint32
}

// vpSetRecv installs the stand-ins for receiving and returns the genuine sender.
func vpSetRecv(ch *serverSecureChannel, mode ua.MessageSecurityMode, sig int) *vpPeer {
	p := &vpPeer{mode: mode, sig: sig, channel: ch.channelID, token: ch.tokenID}
	if mode == ua.MessageSecurityModeNone {
		return p
	}
	ch.securityPolicyURI = "vp"
	ch.securityPolicy = &vpPolicy{sig: sig, block: 16}
	p.v = &vpVerifier{size: sig}
	ch.symVerifyHMAC = p.v
	p.key, p.iv = vp.Bytes("key", 16), vp.Bytes("iv", 16)
	ch.symDecryptingBlockCipher = &vpCipher{p.key}
	ch.remoteInitializationVector = p.iv
	return p
}

// plain is a chunk before encryption, as Part 6 prescribes; extra is the number of additional whole blocks of padding.
func (p *vpPeer) plain(kind string, seq, id uint32, body []byte, extra int) []byte {
	n := 24 + len(body)
	pad := 0
	if p.mode == ua.MessageSecurityModeSignAndEncrypt {
		pad = (16-(8+len(body)+1+p.sig)%16)%16 + 16*extra
		n += 1 + pad
	}
	n += p.sig
	b := append([]byte(kind), vpPut32(uint32(n))...)
	b = append(b, vpPut32(p.channel)...)
	b = append(b, vpPut32(p.token)...)
	b = append(b, vpPut32(seq)...)
	b = append(b, vpPut32(id)...)
	b = append(b, body...)
	if p.mode == ua.MessageSecurityModeSignAndEncrypt {
		for i := 0; i <= pad; i++ {
			b = append(b, byte(pad))
		}
	}
	if p.mode != ua.MessageSecurityModeNone {
		tag := vp.Bytes("tag", p.sig)
		p.v.msgs = append(p.v.msgs, append([]byte(nil), b...))
		p.v.tags = append(p.v.tags, tag)
		b = append(b, tag...)
	}
	return b
}

func (p *vpPeer) seal(b []byte) []byte {
	if p.mode != ua.MessageSecurityModeSignAndEncrypt {
		return b
	}
	return append(append([]byte(nil), b[:16]...), vpCBCEncrypt(p.key, p.iv, b[16:])...)
}

func (p *vpPeer) chunk(kind string, seq, id uint32, body []byte, extra int) []byte {
	return p.seal(p.plain(kind, seq, id, body, extra))
}

// vpReadRequest is an arbitrary small ReadRequest; its encoding has 4+29+8+4+4+13+... bytes.
func vpReadRequest(n int) *ua.ReadRequest {
	return &ua.ReadRequest{
		RequestHeader:      ua.RequestHeader{RequestHandle: vp.U32("handle"), TimeoutHint: vp.U32("hint"), ReturnDiagnostics: vp.U32("diag")},
		MaxAge:             vp.F64("maxage"),
		TimestampsToReturn: ua.TimestampsToReturn(vp.I32("ts")),
		NodesToRead:        []ua.ReadValueID{{NodeID: ua.NodeIDString{NamespaceIndex: vp.U16("ns"), ID: vp.Str("sid", n)}, AttributeID: vp.U32("attr")}},
	}
}

func vpSameReadRequest(a, b *ua.ReadRequest) bool {
	if len(a.NodesToRead) != 1 || len(b.NodesToRead) != 1 {
		return false
	}
	x, ok1 := a.NodesToRead[0].NodeID.(ua.NodeIDString)
	y, ok2 := b.NodesToRead[0].NodeID.(ua.NodeIDString)
	if !ok1 || !ok2 || len(x.ID) != len(y.ID) {
		return false
	}
	return vp.And(vp.And(a.RequestHandle == b.RequestHandle, a.TimeoutHint == b.TimeoutHint),
		vp.And(vp.And(a.ReturnDiagnostics == b.ReturnDiagnostics, a.TimestampsToReturn == b.TimestampsToReturn),
			vp.And(vp.And(x.NamespaceIndex == y.NamespaceIndex, vp.EqBytes([]byte(x.ID), []byte(y.ID))),
				vp.And(a.NodesToRead[0].AttributeID == b.NodesToRead[0].AttributeID, vp.Or(a.MaxAge == b.MaxAge, vp.And(a.MaxAge != a.MaxAge, b.MaxAge != b.MaxAge))))))
}
