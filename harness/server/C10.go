package server

import (
	"bytes"
	"reflect"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use chanrecv
//vp:bound a read request of every content (string identifier of 3 bytes) cut into 1..3 chunks at every position on a grid of 5 bytes (thorough: every position); transport reads of 1, 7 or unlimited bytes; modes none, sign, sign and encrypt; signature sizes 4 and 20, 0..1 extra padding blocks; every channel, token, sequence and request id
//vp:assume MAC and block cipher are ideal stand-ins inside real CBC
//vp:outside longer messages; asymmetric decryption

func VP_C10_reassembly() {
	mode := vpMode("mode")
	sig := 0
	if mode != ua.MessageSecurityModeNone {
		sig = []int{4, 20}[vp.Choice("sig", 2)]
	}
	conn := &vpConn{frag: []int{0, 7, 1}[vp.Choice("frag", vp.Bound(2, 3))]}
	ch := vpChannel(conn, mode, 256, 256)
	ch.channelID, ch.tokenID = vp.U32("channel"), vp.U32("token")
	ch.pendingTokenID = ch.tokenID
	p := vpSetRecv(ch, mode, sig)
	req := vpReadRequest(3)
	var body bytes.Buffer
	e := ua.NewBinaryEncoder(&body, ch)
	e.WriteNodeID(ua.NodeIDNumeric{ID: 631})
	e.Encode(req)
	b := body.Bytes()
	cuts := vp.Choice("chunks", 3)
	step := vp.Bound(5, 1)
	var at []int
	last := 0
	for i := 0; i < cuts; i++ {
		c := last + step*(1+vp.Choice("cut", (len(b)-last)/step))
		vp.Assume(c < len(b))
		at = append(at, c)
		last = c
	}
	id, seq := vp.U32("id"), vp.U32("seq")
	last = 0
	extra, extraC := 0, 0
	if mode == ua.MessageSecurityModeSignAndEncrypt {
		extra = vp.Choice("extra", 2)
		if cuts > 0 {
			extraC = vp.Choice("extra of the other chunks", 2)
		}
	}
	for _, c := range at {
		conn.in = append(conn.in, p.chunk("MSGC", seq, id, b[last:c], extraC)...)
		last, seq = c, seq+1
	}
	conn.in = append(conn.in, p.chunk("MSGF", seq, id, b[last:], extra)...)
	got, gid, err := ch.readRequest()
	vp.Assert(err == nil, "a well-formed chunked request is accepted")
	if err != nil {
		return
	}
	r, ok := got.(*ua.ReadRequest)
	vp.Assert(ok, "the request arrives with its type")
	if ok {
		vp.Assert(gid == id, "the request arrives with its id")
		vp.Assert(vpSameReadRequest(r, req), "the request arrives with its contents")
	}
	vp.Assert(len(conn.in) == 0, "exactly the message is consumed")
	vp.Reach("accepted")
}

// requests within the server's limits pass, others are refused as too large
func VP_C10_limits() {
	conn := &vpConn{}
	ch := vpChannel(conn, ua.MessageSecurityModeNone, 256, 256)
	p := vpSetRecv(ch, ua.MessageSecurityModeNone, 0)
	req := vpReadRequest(3)
	var body bytes.Buffer
	e := ua.NewBinaryEncoder(&body, ch)
	e.WriteNodeID(ua.NodeIDNumeric{ID: 631})
	e.Encode(req)
	b := body.Bytes()
	n := 1 + vp.Choice("chunks", 4)
	seq := uint32(1)
	for i := 0; i < n-1; i++ {
		conn.in = append(conn.in, p.chunk("MSGC", seq, 9, b[10*i:10*i+10], 0)...)
		seq++
	}
	conn.in = append(conn.in, p.chunk("MSGF", seq, 9, b[10*(n-1):], 0)...)
	// limits as configured: sizes and counts up to 2^31-1
	ch.maxRequestMessageSize, ch.maxRequestChunkCount = vp.U32("maxsize"), vp.U32("maxchunks")
	vp.Assume(ch.maxRequestChunkCount < 1<<31)
	_, _, err := ch.readRequest()
	tooLarge := vp.Or(vp.And(ch.maxRequestMessageSize > 0, uint64(len(b)) > uint64(ch.maxRequestMessageSize)),
		vp.And(ch.maxRequestChunkCount > 0, uint64(n) > uint64(ch.maxRequestChunkCount)))
	if err == nil {
		vp.Assert(!tooLarge, "a request over the message size or chunk count limit is refused")
	} else {
		vp.Assert(vp.And(tooLarge, err == ua.BadRequestTooLarge), "a request within the limits is accepted")
	}
}

var vpRequests = []ua.ServiceRequest{
	new(ua.PublishRequest), new(ua.ReadRequest), new(ua.BrowseRequest), new(ua.BrowseNextRequest), new(ua.TranslateBrowsePathsToNodeIDsRequest),
	new(ua.WriteRequest), new(ua.CallRequest), new(ua.HistoryReadRequest), new(ua.GetEndpointsRequest), new(ua.OpenSecureChannelRequest), new(ua.CloseSecureChannelRequest),
	new(ua.CreateSessionRequest), new(ua.ActivateSessionRequest), new(ua.CloseSessionRequest), new(ua.CreateMonitoredItemsRequest), new(ua.DeleteMonitoredItemsRequest),
	new(ua.CreateSubscriptionRequest), new(ua.DeleteSubscriptionsRequest), new(ua.SetPublishingModeRequest), new(ua.ModifyMonitoredItemsRequest), new(ua.SetMonitoringModeRequest),
	new(ua.SetTriggeringRequest), new(ua.ModifySubscriptionRequest), new(ua.RepublishRequest), new(ua.TransferSubscriptionsRequest), new(ua.FindServersRequest),
	new(ua.FindServersOnNetworkRequest), new(ua.RegisterServerRequest), new(ua.RegisterServer2Request), new(ua.CancelRequest), new(ua.AddNodesRequest), new(ua.AddReferencesRequest),
	new(ua.DeleteNodesRequest), new(ua.DeleteReferencesRequest), new(ua.RegisterNodesRequest), new(ua.UnregisterNodesRequest), new(ua.QueryFirstRequest), new(ua.QueryNextRequest),
	new(ua.HistoryUpdateRequest),
}

func VP_C10_types() {
	req := vpRequests[vp.Choice("type", len(vpRequests))]
	typ := reflect.TypeOf(req).Elem()
	conn := &vpConn{}
	ch := vpChannel(conn, ua.MessageSecurityModeNone, 512, 512)
	p := vpSetRecv(ch, ua.MessageSecurityModeNone, 0)
	hdr := ua.RequestHeader{RequestHandle: vp.U32("handle"), TimeoutHint: vp.U32("hint")}
	reflect.ValueOf(req).Elem().FieldByName("RequestHeader").Set(reflect.ValueOf(hdr))
	id, ok := ua.FindBinaryEncodingIDForType(typ)
	vp.Assert(ok, "the type is registered")
	var body bytes.Buffer
	e := ua.NewBinaryEncoder(&body, ch)
	e.WriteNodeID(id.NodeID)
	e.Encode(req)
	conn.in = p.chunk("MSGF", 1, 5, body.Bytes(), 0)
	got, gid, err := ch.readRequest()
	vp.Assert(err == nil, "every request type is accepted")
	if err != nil {
		return
	}
	vp.Assert(gid == 5, "the request arrives with its id")
	vp.Assert(reflect.TypeOf(got) == reflect.TypeOf(req), "a request arrives as the type its encoding id names")
	vp.Assert(vp.And(got.Header().RequestHandle == hdr.RequestHandle, got.Header().TimeoutHint == hdr.TimeoutHint), "the request arrives with its header")
}
