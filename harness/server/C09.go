package server

import (
	"bytes"
	"reflect"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:bound response bodies of 42..42+N bytes (N=0..39 in steps of 4 quick, every N to 89 thorough) with every content; every negotiated send buffer from the smallest that fits one body byte up to 17 (quick) / 63 (thorough) bytes more; security modes none, sign, sign and encrypt; signature sizes 4 and 20 bytes, block size 16; every channel id, token id, request id and last sequence number
//vp:assume MAC and block cipher are ideal stand-ins (arbitrary tags per distinct message; xor block cipher inside real CBC); the standard library's HMAC and AES are trusted
//vp:outside bodies longer than the bound; asymmetric (OpenSecureChannel) encryption

// vpSetSend installs the stand-ins for sending.
func vpSetSend(ch *serverSecureChannel, mode ua.MessageSecurityMode, sig int) (*vpSigner, []byte, []byte) {
	if mode == ua.MessageSecurityModeNone {
		return nil, nil, nil
	}
	ch.securityPolicyURI = "vp"
	ch.securityPolicy = &vpPolicy{sig: sig, block: 16}
	s := &vpSigner{size: sig}
	ch.symSignHMAC = s
	key, iv := vp.Bytes("key", 16), vp.Bytes("iv", 16)
	ch.symEncryptingBlockCipher = &vpCipher{key}
	ch.localInitializationVector = iv
	return s, key, iv
}

// vpReceive plays the receiver of Part 6: it checks every chunk and returns the concatenated bodies.
func vpReceive(ch *serverSecureChannel, conn *vpConn, mode ua.MessageSecurityMode, sig int, s *vpSigner, key, iv []byte, token, id, lastSeq uint32, max uint32) []byte {
	var body []byte
	seq := lastSeq
	for i, c := range conn.out {
		vp.Assert(len(c) <= int(max), "no chunk is larger than the negotiated buffer")
		vp.Assert(len(c) >= 24, "a chunk holds its headers")
		final := i == len(conn.out)-1
		want := "MSGC"
		if final {
			want = "MSGF"
		}
		vp.Assert(string(c[:4]) == want, "only the last chunk is marked final")
		vp.Assert(vpLE32(c[4:]) == uint32(len(c)), "the size field is the size of the chunk")
		vp.Assert(vpLE32(c[8:]) == ch.channelID, "the chunk names the channel")
		vp.Assert(vpLE32(c[12:]) == token, "the chunk names the security token in force")
		p := c
		if mode == ua.MessageSecurityModeSignAndEncrypt {
			vp.Assert((len(c)-16)%16 == 0, "the encrypted part is a whole number of blocks")
			p = append(append([]byte(nil), c[:16]...), vpCBCDecrypt(key, iv, c[16:])...)
		}
		end := len(p)
		if mode != ua.MessageSecurityModeNone {
			end -= sig
			vp.Assert(i < len(s.msgs) && vp.EqBytes(p[:end], s.msgs[i]), "the signature covers the whole chunk before it")
			vp.Assert(vp.EqBytes(p[end:], s.tags[i]), "the chunk ends with its signature")
		}
		if mode == ua.MessageSecurityModeSignAndEncrypt {
			pad := vp.Concretize(int(p[end-1]))
			vp.Assert(pad+1 <= end-24, "the padding lies inside the chunk")
			for k := end - 1 - pad; k < end; k++ {
				vp.Assert(p[k] == byte(pad), "every padding byte holds the padding size")
			}
			vp.Assert(pad < 16, "padding is shorter than a block")
			end -= pad + 1
		}
		if seq == 0xFFFFFFFF {
			seq = 0
		}
		seq++
		vp.Assert(vpLE32(p[16:]) == seq, "sequence numbers increase by one and skip zero")
		vp.Assert(vpLE32(p[20:]) == id, "every chunk carries the request id")
		vp.Assert(end > 24, "no chunk has an empty body")
		body = append(body, p[24:end]...)
	}
	return body
}

func vpReadResponse(n int) *ua.ReadResponse {
	return &ua.ReadResponse{
		ResponseHeader: ua.ResponseHeader{RequestHandle: vp.U32("handle"), ServiceResult: ua.StatusCode(vp.U32("result"))},
		Results:        []ua.DataValue{{Value: ua.ByteString(vp.Str("value", n))}},
	}
}

func VP_C09_chunks() {
	mode := vpMode("mode")
	sig := 0
	min := 25
	if mode != ua.MessageSecurityModeNone {
		sig = []int{4, 20}[vp.Choice("sig", 2)]
		min += sig
	}
	if mode == ua.MessageSecurityModeSignAndEncrypt {
		min = 16 + (8+1+1+sig+15)/16*16
	}
	min += 8
	max := uint32(min + vp.Choice("extra", vp.Bound(18, 64)))
	n := vp.Choice("n", vp.Bound(40, 90))
	if vp.Tier() == 0 {
		vp.Assume(n%4 == 1)
	}
	conn := &vpConn{}
	ch := vpChannel(conn, mode, max, max)
	s, key, iv := vpSetSend(ch, mode, sig)
	ch.channelID, ch.tokenID = vp.U32("channel"), vp.U32("token")
	last := vp.U32("seq")
	ch.lastSequenceNumber = last
	id := vp.U32("id")
	res := vpReadResponse(n)
	if err := ch.Write(res, id); err != nil {
		vp.Assert(false, "a response within the limits is sent")
	}
	body := vpReceive(ch, conn, mode, sig, s, key, iv, ch.tokenID, id, last, max)
	var want bytes.Buffer
	e := ua.NewBinaryEncoder(&want, ch)
	e.WriteNodeID(ua.NodeIDNumeric{ID: 634})
	e.Encode(res)
	vp.Assert(len(body) == want.Len() && vp.EqBytes(body, want.Bytes()), "the bodies of the chunks concatenate to the message")
	vp.Reach("sent")
}

func VP_C09_limits() {
	max := uint32(40 + vp.Choice("extra", 40))
	conn := &vpConn{}
	ch := vpChannel(conn, ua.MessageSecurityModeNone, max, max)
	ch.maxResponseMessageSize, ch.maxResponseChunkCount = vp.U32("maxsize"), vp.U32("maxchunks")
	res := vpReadResponse(8)
	err := ch.Write(res, 1)
	var want bytes.Buffer
	e := ua.NewBinaryEncoder(&want, ch)
	e.WriteNodeID(ua.NodeIDNumeric{ID: 634})
	e.Encode(res)
	size := want.Len()
	chunks := (size + int(max) - 25) / (int(max) - 24)
	tooLarge := vp.Or(vp.And(ch.maxResponseMessageSize > 0, uint64(size) > uint64(ch.maxResponseMessageSize)),
		vp.And(ch.maxResponseChunkCount > 0, uint64(chunks) > uint64(ch.maxResponseChunkCount)))
	if err != nil {
		vp.Assert(err == ua.BadResponseTooLarge, "a response that is too large is reported as such")
		vp.Assert(tooLarge, "a response within the client's limits is sent")
		vp.Assert(len(conn.out) == 0, "nothing of a refused response is sent")
		vp.Reach("too large")
	} else {
		vp.Assert(!tooLarge, "the client's message size and chunk count limits are respected")
		vp.Assert(len(conn.out) == chunks, "the message is sent in as few chunks as the buffer allows")
		vp.Reach("sent")
	}
}

var vpResponses = []ua.ServiceResponse{
	new(ua.PublishResponse), new(ua.ReadResponse), new(ua.BrowseResponse), new(ua.BrowseNextResponse), new(ua.TranslateBrowsePathsToNodeIDsResponse),
	new(ua.WriteResponse), new(ua.CallResponse), new(ua.HistoryReadResponse), new(ua.GetEndpointsResponse), new(ua.CreateSessionResponse),
	new(ua.ActivateSessionResponse), new(ua.CloseSessionResponse), new(ua.CreateMonitoredItemsResponse), new(ua.DeleteMonitoredItemsResponse),
	new(ua.CreateSubscriptionResponse), new(ua.DeleteSubscriptionsResponse), new(ua.SetPublishingModeResponse), new(ua.ServiceFault),
	new(ua.ModifyMonitoredItemsResponse), new(ua.SetMonitoringModeResponse), new(ua.SetTriggeringResponse), new(ua.ModifySubscriptionResponse),
	new(ua.RepublishResponse), new(ua.TransferSubscriptionsResponse), new(ua.FindServersResponse), new(ua.FindServersOnNetworkResponse),
	new(ua.RegisterServerResponse), new(ua.RegisterServer2Response), new(ua.CancelResponse), new(ua.AddNodesResponse), new(ua.AddReferencesResponse),
	new(ua.DeleteNodesResponse), new(ua.DeleteReferencesResponse), new(ua.RegisterNodesResponse), new(ua.UnregisterNodesResponse),
	new(ua.QueryFirstResponse), new(ua.QueryNextResponse), new(ua.HistoryUpdateResponse),
}

// every response type goes out under its own encoding id
func VP_C09_types() {
	res := vpResponses[vp.Choice("type", len(vpResponses))]
	typ := reflect.TypeOf(res).Elem()
	conn := &vpConn{}
	ch := vpChannel(conn, ua.MessageSecurityModeNone, 512, 512)
	hdr := ua.ResponseHeader{RequestHandle: vp.U32("handle"), ServiceResult: ua.StatusCode(vp.U32("result"))}
	reflect.ValueOf(res).Elem().FieldByName("ResponseHeader").Set(reflect.ValueOf(hdr))
	if err := ch.Write(res, 7); err != nil {
		vp.Assert(false, "every response type is sent")
	}
	id, ok := ua.FindBinaryEncodingIDForType(typ)
	vp.Assert(ok, "the type is registered")
	var want bytes.Buffer
	e := ua.NewBinaryEncoder(&want, ch)
	e.WriteNodeID(id.NodeID)
	e.Encode(res)
	body := vpReceive(ch, conn, ua.MessageSecurityModeNone, 0, nil, nil, nil, 0, 7, 0, 512)
	vp.Assert(len(body) == want.Len() && vp.EqBytes(body, want.Bytes()), "a response is sent under the encoding id of its type")
}
