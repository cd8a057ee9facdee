package client

import (
	"bytes"
	"reflect"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use chanrecv
//vp:bound client: a read response of every content cut into 1..3 chunks at every position on a grid of 5 bytes (thorough: every position), otherwise as on the server

func vpRespBody(ch *clientSecureChannel, res *ua.ReadResponse) []byte {
	var body bytes.Buffer
	e := ua.NewBinaryEncoder(&body, ch)
	e.WriteNodeID(ua.NodeIDNumeric{ID: 634})
	e.Encode(res)
	return body.Bytes()
}

func VP_C10_creassembly() {
	mode := vpMode("mode")
	sig := 0
	if mode != ua.MessageSecurityModeNone {
		sig = []int{4, 20}[vp.Choice("sig", 2)]
	}
	conn := &vpConn{frag: []int{0, 7, 1}[vp.Choice("frag", vp.Bound(2, 3))]}
	ch := vpChannel(conn, mode, 256, 256)
	ch.channelID, ch.tokenID = vp.U32("channel"), vp.U32("token")
	ch.receivingTokenID = ch.tokenID
	p := vpSetRecv(ch, mode, sig)
	res := vpReadResponse(5)
	b := vpRespBody(ch, res)
	cuts := vp.Choice("chunks", 3)
	step := vp.Bound(5, 1)
	var at []int
	last := 0
	for i := 0; i < cuts; i++ {
		c := last + step*(1+vp.Choice("cut", (len(b)-last)/step))
		vp.Assume(c < len(b))
		at = append(at, c)
		last = c
	}
	id, seq := vp.U32("id"), vp.U32("seq")
	last = 0
	extra, extraC := 0, 0
	if mode == ua.MessageSecurityModeSignAndEncrypt {
		extra = vp.Choice("extra", 2)
		if cuts > 0 {
			extraC = vp.Choice("extra of the other chunks", 2)
		}
	}
	for _, c := range at {
		conn.in = append(conn.in, p.chunk("MSGC", seq, id, b[last:c], extraC)...)
		last, seq = c, seq+1
	}
	conn.in = append(conn.in, p.chunk("MSGF", seq, id, b[last:], extra)...)
	got, st := ch.readResponse()
	vp.Assert(st == ua.Good, "a well-formed chunked response is accepted")
	if st != ua.Good {
		return
	}
	r, ok := got.(*ua.ReadResponse)
	vp.Assert(ok, "the response arrives with its type")
	if ok {
		vp.Assert(vpSameReadResponse(r, res), "the response arrives with its contents")
	}
	vp.Assert(len(conn.in) == 0, "exactly the message is consumed")
}

func VP_C10_climits() {
	conn := &vpConn{}
	ch := vpChannel(conn, ua.MessageSecurityModeNone, 256, 256)
	p := vpSetRecv(ch, ua.MessageSecurityModeNone, 0)
	b := vpRespBody(ch, vpReadResponse(5))
	n := 1 + vp.Choice("chunks", 4)
	seq := uint32(1)
	for i := 0; i < n-1; i++ {
		conn.in = append(conn.in, p.chunk("MSGC", seq, 9, b[10*i:10*i+10], 0)...)
		seq++
	}
	conn.in = append(conn.in, p.chunk("MSGF", seq, 9, b[10*(n-1):], 0)...)
	ch.maxResponseMessageSize, ch.maxResponseChunkCount = vp.U32("maxsize"), vp.U32("maxchunks")
	_, st := ch.readResponse()
	tooLarge := vp.Or(vp.And(ch.maxResponseMessageSize > 0, uint64(len(b)) > uint64(ch.maxResponseMessageSize)),
		vp.And(ch.maxResponseChunkCount > 0, uint64(n) > uint64(ch.maxResponseChunkCount)))
	if st == ua.Good {
		vp.Assert(!tooLarge, "a response over the message size or chunk count limit is refused")
	} else {
		vp.Assert(vp.And(tooLarge, st == ua.BadResponseTooLarge), "a response within the limits is accepted")
	}
}

var vpResponses = []ua.ServiceResponse{
	new(ua.PublishResponse), new(ua.ReadResponse), new(ua.BrowseResponse), new(ua.BrowseNextResponse), new(ua.TranslateBrowsePathsToNodeIDsResponse),
	new(ua.WriteResponse), new(ua.CallResponse), new(ua.HistoryReadResponse), new(ua.GetEndpointsResponse), new(ua.CreateSessionResponse),
	new(ua.ActivateSessionResponse), new(ua.CloseSessionResponse), new(ua.CreateMonitoredItemsResponse), new(ua.DeleteMonitoredItemsResponse),
	new(ua.CreateSubscriptionResponse), new(ua.DeleteSubscriptionsResponse), new(ua.SetPublishingModeResponse), new(ua.ServiceFault),
	new(ua.ModifyMonitoredItemsResponse), new(ua.SetMonitoringModeResponse), new(ua.SetTriggeringResponse), new(ua.ModifySubscriptionResponse),
	new(ua.RepublishResponse), new(ua.TransferSubscriptionsResponse), new(ua.FindServersResponse), new(ua.FindServersOnNetworkResponse),
	new(ua.RegisterServerResponse), new(ua.RegisterServer2Response), new(ua.CancelResponse), new(ua.AddNodesResponse), new(ua.AddReferencesResponse),
	new(ua.DeleteNodesResponse), new(ua.DeleteReferencesResponse), new(ua.RegisterNodesResponse), new(ua.UnregisterNodesResponse),
	new(ua.QueryFirstResponse), new(ua.QueryNextResponse), new(ua.HistoryUpdateResponse),
}

func VP_C10_ctypes() {
	res := vpResponses[vp.Choice("type", len(vpResponses))]
	typ := reflect.TypeOf(res).Elem()
	conn := &vpConn{}
	ch := vpChannel(conn, ua.MessageSecurityModeNone, 512, 512)
	p := vpSetRecv(ch, ua.MessageSecurityModeNone, 0)
	hdr := ua.ResponseHeader{RequestHandle: vp.U32("handle"), ServiceResult: ua.StatusCode(vp.U32("result"))}
	reflect.ValueOf(res).Elem().FieldByName("ResponseHeader").Set(reflect.ValueOf(hdr))
	id, ok := ua.FindBinaryEncodingIDForType(typ)
	vp.Assert(ok, "the type is registered")
	var body bytes.Buffer
	e := ua.NewBinaryEncoder(&body, ch)
	e.WriteNodeID(id.NodeID)
	e.Encode(res)
	conn.in = p.chunk("MSGF", 1, 5, body.Bytes(), 0)
	got, st := ch.readResponse()
	vp.Assert(st == ua.Good, "every response type is accepted")
	if st != ua.Good {
		return
	}
	vp.Assert(reflect.TypeOf(got) == reflect.TypeOf(res), "a response arrives as the type its encoding id names")
	vp.Assert(vp.And(got.Header().RequestHandle == hdr.RequestHandle, got.Header().ServiceResult == hdr.ServiceResult), "the response arrives with its header")
}
