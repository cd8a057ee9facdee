package client

import (
	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

type vpPeer struct {
	mode    ua.MessageSecurityMode
	sig     int
	key, iv []byte
	v       *vpVerifier
	channel uint32
	token   uint32
}

// vpSetRecv installs the stand-ins for receiving and returns the genuine sender.
func vpSetRecv(ch *clientSecureChannel, mode ua.MessageSecurityMode, sig int) *vpPeer {
	p := &vpPeer{mode: mode, sig: sig, channel: ch.channelID, token: ch.tokenID}
	if mode == ua.MessageSecurityModeNone {
		return p
	}
	ch.securityPolicyURI = "vp"
	ch.securityPolicy = &vpPolicy{sig: sig, block: 16}
	p.v = &vpVerifier{size: sig}
	ch.symVerifyHMAC = p.v
	p.key, p.iv = vp.Bytes("key", 16), vp.Bytes("iv", 16)
	ch.symDecryptingBlockCipher = &vpCipher{p.key}
	ch.remoteInitializationVector = p.iv
	return p
}

// plain is a chunk before encryption, as Part 6 prescribes; extra is the number of additional whole blocks of padding.
func (p *vpPeer) plain(kind string, seq, id uint32, body []byte, extra int) []byte {
	n := 24 + len(body)
	pad := 0
	if p.mode == ua.MessageSecurityModeSignAndEncrypt {
		pad = (16-(8+len(body)+1+p.sig)%16)%16 + 16*extra
		n += 1 + pad
	}
	n += p.sig
	b := append([]byte(kind), vpPut32(uint32(n))...)
	b = append(b, vpPut32(p.channel)...)
	b = append(b, vpPut32(p.token)...)
	b = append(b, vpPut32(seq)...)
	b = append(b, vpPut32(id)...)
	b = append(b, body...)
	if p.mode == ua.MessageSecurityModeSignAndEncrypt {
		for i := 0; i <= pad; i++ {
			b = append(b, byte(pad))
		}
	}
	if p.mode != ua.MessageSecurityModeNone {
		tag := vp.Bytes("tag", p.sig)
		p.v.msgs = append(p.v.msgs, append([]byte(nil), b...))
		p.v.tags = append(p.v.tags, tag)
		b = append(b, tag...)
	}
	return b
}

func (p *vpPeer) seal(b []byte) []byte {
	if p.mode != ua.MessageSecurityModeSignAndEncrypt {
		return b
	}
	return append(append([]byte(nil), b[:16]...), vpCBCEncrypt(p.key, p.iv, b[16:])...)
}

func (p *vpPeer) chunk(kind string, seq, id uint32, body []byte, extra int) []byte {
	return p.seal(p.plain(kind, seq, id, body, extra))
}

func vpReadResponse(n int) *ua.ReadResponse {
	return &ua.ReadResponse{
		ResponseHeader: ua.ResponseHeader{RequestHandle: vp.U32("handle"), ServiceResult: ua.StatusCode(vp.U32("result"))},
		Results:        []ua.DataValue{{Value: ua.ByteString(vp.Str("value", n))}},
	}
}

func vpSameReadResponse(a, b *ua.ReadResponse) bool {
	if len(a.Results) != 1 || len(b.Results) != 1 {
		return false
	}
	x, ok1 := a.Results[0].Value.(ua.ByteString)
	y, ok2 := b.Results[0].Value.(ua.ByteString)
	if !ok1 || !ok2 || len(x) != len(y) {
		return false
	}
	return vp.And(vp.And(a.RequestHandle == b.RequestHandle, a.ServiceResult == b.ServiceResult), vp.EqBytes([]byte(x), []byte(y)))
}
