package server

import (
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:bound two sessions with any channel ids; one request of each of the 22 session services from any channel with any numeric token; idle times up to 2^31 ms
//vp:outside requests racing on one session, tokens of the other three identifier kinds

// vpGate is a server on which every service has something to do.
type vpGate struct {
	srv   *Server
	v     *VariableNode
	calls int
	a, b  *Session
	sub   *Subscription
	item  *DataChangeMonitoredItem
}

func vpGateSetup() *vpGate {
	g := &vpGate{srv: vpServer()}
	g.v = vpAddVariable(g.srv, vpVarID, int32(1), ua.DataTypeIDInt32, -1, 3)
	o := NewObjectNode(g.srv, vpN(200), ua.QualifiedName{Name: "o"}, ua.LocalizedText{}, ua.LocalizedText{}, nil, nil, 0)
	m := NewMethodNode(g.srv, vpN(201), ua.QualifiedName{Name: "m"}, ua.LocalizedText{}, ua.LocalizedText{}, nil, nil, true)
	m.SetCallMethodHandler(func(_ *Session, _ ua.CallMethodRequest) ua.CallMethodResult {
		g.calls++
		return ua.CallMethodResult{}
	})
	g.srv.namespaceManager.nodes[vpN(200)] = o
	g.srv.namespaceManager.nodes[vpN(201)] = m
	g.a = vpSession(g.srv, 1, 0, ua.AnonymousIdentity{})
	g.b = vpSession(g.srv, 2, 0, ua.AnonymousIdentity{})
	g.sub = NewSubscription(g.srv.subscriptionManager, g.a, 1000, 30, 10, 0, true, 0)
	g.sub.startPublishing()
	g.srv.subscriptionManager.subscriptionsByID[g.sub.id] = g.sub
	g.item = NewDataChangeMonitoredItem(g.sub, g.v, ua.ReadValueID{NodeID: vpVarID, AttributeID: ua.AttributeIDValue}, ua.MonitoringModeReporting,
		ua.MonitoringParameters{ClientHandle: 5, SamplingInterval: 1000, QueueSize: 1}, ua.TimestampsToReturnBoth, -1)
	g.sub.AppendItem(g.item)
	return g
}

// requests are one request of every service that belongs to a session.
func (g *vpGate) request(k int, h ua.RequestHeader) ua.ServiceRequest {
	sub, item := g.sub.id, g.item.ID()
	switch k {
	case 0:
		return &ua.ReadRequest{RequestHeader: h, NodesToRead: []ua.ReadValueID{{NodeID: vpVarID, AttributeID: ua.AttributeIDValue}}}
	case 1:
		return &ua.WriteRequest{RequestHeader: h, NodesToWrite: []ua.WriteValue{{NodeID: vpVarID, AttributeID: ua.AttributeIDValue, Value: ua.NewDataValue(int32(2), 0, time.Time{}, 0, time.Time{}, 0)}}}
	case 2:
		return &ua.CallRequest{RequestHeader: h, MethodsToCall: []ua.CallMethodRequest{{ObjectID: vpN(200), MethodID: vpN(201)}}}
	case 3:
		return &ua.BrowseRequest{RequestHeader: h, NodesToBrowse: []ua.BrowseDescription{{NodeID: vpVarID}}}
	case 4:
		return &ua.BrowseNextRequest{RequestHeader: h, ContinuationPoints: []ua.ByteString{"abcd"}}
	case 5:
		return &ua.TranslateBrowsePathsToNodeIDsRequest{RequestHeader: h, BrowsePaths: []ua.BrowsePath{{StartingNode: vpVarID}}}
	case 6:
		return &ua.CreateSubscriptionRequest{RequestHeader: h, RequestedPublishingInterval: 1000}
	case 7:
		return &ua.ModifySubscriptionRequest{RequestHeader: h, SubscriptionID: sub, RequestedPublishingInterval: 2000}
	case 8:
		return &ua.SetPublishingModeRequest{RequestHeader: h, SubscriptionIDs: []uint32{sub}}
	case 9:
		return &ua.DeleteSubscriptionsRequest{RequestHeader: h, SubscriptionIDs: []uint32{sub}}
	case 10:
		return &ua.CreateMonitoredItemsRequest{RequestHeader: h, SubscriptionID: sub, ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: vpVarID, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting}}}
	case 11:
		return &ua.ModifyMonitoredItemsRequest{RequestHeader: h, SubscriptionID: sub, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: item, RequestedParameters: ua.MonitoringParameters{ClientHandle: 6, QueueSize: 1}}}}
	case 12:
		return &ua.SetMonitoringModeRequest{RequestHeader: h, SubscriptionID: sub, MonitoringMode: ua.MonitoringModeDisabled, MonitoredItemIDs: []uint32{item}}
	case 13:
		return &ua.DeleteMonitoredItemsRequest{RequestHeader: h, SubscriptionID: sub, MonitoredItemIDs: []uint32{item}}
	case 14:
		return &ua.HistoryReadRequest{RequestHeader: h, NodesToRead: []ua.HistoryReadValueID{{NodeID: vpVarID}}, HistoryReadDetails: ua.ReadRawModifiedDetails{}}
	case 15:
		return &ua.RegisterNodesRequest{RequestHeader: h, NodesToRegister: []ua.NodeID{vpVarID}}
	case 16:
		return &ua.UnregisterNodesRequest{RequestHeader: h, NodesToUnregister: []ua.NodeID{vpVarID}}
	case 17:
		return &ua.SetTriggeringRequest{RequestHeader: h, SubscriptionID: sub, TriggeringItemID: item, LinksToAdd: []uint32{item}}
	case 18:
		return &ua.CancelRequest{RequestHeader: h}
	case 19:
		return &ua.PublishRequest{RequestHeader: h}
	case 20:
		return &ua.RepublishRequest{RequestHeader: h, SubscriptionID: sub, RetransmitSequenceNumber: 1}
	}
	return &ua.CloseSessionRequest{RequestHeader: h, DeleteSubscriptions: true}
}

const vpServices = 22

type vpGateState struct {
	value    any
	calls    int
	subs     int
	enabled  bool
	interval float64
	items    int
	handle   uint32
	mode     ua.MonitoringMode
	links    int
	queued   int
}

func (g *vpGate) state() vpGateState {
	return vpGateState{g.v.Value().Value, g.calls, len(g.srv.subscriptionManager.subscriptionsByID), g.sub.publishingEnabled, g.sub.publishingInterval,
		len(g.sub.items), g.item.ClientHandle(), g.item.MonitoringMode(), len(g.item.triggeredItems), len(g.a.publishRequests)}
}

// VP_C13_gate: a request is performed only if its token names a session that is activated on the channel the request
// came from; otherwise it gets the error that says why, and has no effect.
func VP_C13_gate() {
	g := vpGateSetup()
	ca, cb, c := vp.U32("channel of a"), vp.U32("channel of b"), vp.U32("channel of request")
	g.a.SetSecureChannelId(ca)
	g.b.SetSecureChannelId(cb)
	conn, ch := vpSrvChannel(g.srv, c)
	ch.discoveryOnly = vp.Bool("discovery only")
	token := vp.U32("token")
	k := vp.Choice("service", vpServices)
	h := vpHeader(token)
	req := g.request(k, h)
	expired := vp.Choice("expired", 2) == 1
	if expired {
		g.b.timeout = 60000
		g.b.SetLastAccess(time.Now().Add(-time.Hour))
	}
	before := g.state()
	err := g.srv.handleRequest(ch, req, 4000)
	vp.Drain()
	if ch.discoveryOnly {
		vp.Reach("discovery")
		vp.Assert(g.state() == before, "a channel for discovery performs no service")
		for _, m := range conn.out {
			vp.Assert(string(m[:3]) == "ERR", "a channel for discovery performs no service")
		}
		return
	}
	vp.Assert(err == nil, "the request is answered")
	own := uint32(0)
	known := false
	if token == 1 {
		own, known = ca, true
	}
	if token == 2 && !expired {
		own, known = cb, true
	}
	if known && own != 0 && own == c {
		vp.Reach("performed")
		if k == 19 {
			return // answered later
		}
		st := vpFault(conn)
		vp.Assert(st != ua.BadSessionIDInvalid && st != ua.BadSessionNotActivated && st != ua.BadSecureChannelIDInvalid, "a session can use its channel")
		return
	}
	st := vpFault(conn)
	switch {
	case !known:
		vp.Reach("unknown")
		vp.Assert(st == ua.BadSessionIDInvalid, "a token that names no session is refused")
	case own == 0:
		vp.Reach("inactive")
		vp.Assert(st == ua.BadSessionNotActivated, "a session that is not activated is refused")
	default:
		vp.Reach("foreign")
		vp.Assert(st == ua.BadSecureChannelIDInvalid, "a session is refused on another channel")
	}
	vp.Assert(g.state() == before, "a refused request has no effect")
}

// vpFault is the service result of the only message written.
func vpFault(conn *vpConn) ua.StatusCode {
	vp.Assert(len(conn.out) == 1, "the request is answered once")
	b := conn.out[0]
	vp.Assert(vpLE32(b[20:]) == 4000, "the answer carries the id of its request")
	// type id (numeric, four bytes), timestamp, handle, result
	vp.Assert(b[24] == 1 && vpLE32(b[36:]) == 77, "the answer carries the handle of its request")
	return ua.StatusCode(vpLE32(b[40:]))
}

// VP_C13_subscription: a session cannot use a subscription of another session.
func VP_C13_subscription() {
	g := vpGateSetup()
	g.a.SetSecureChannelId(6)
	g.b.SetSecureChannelId(7)
	conn, ch := vpSrvChannel(g.srv, 7)
	k := []int{7, 8, 9, 10, 11, 12, 13, 17, 20, 19}[vp.Choice("service", 10)]
	g.sub.retransmissionQueue.PushBack(ua.NotificationMessage{SequenceNumber: 1})
	req := g.request(k, vpHeader(2))
	if p, ok := req.(*ua.PublishRequest); ok {
		p.SubscriptionAcknowledgements = []ua.SubscriptionAcknowledgement{{SubscriptionID: g.sub.id, SequenceNumber: 1}}
	}
	before := g.state()
	err := g.srv.handleRequest(ch, req, 4000)
	vp.Drain()
	vp.Assert(err == nil, "the request is answered")
	vp.Assert(g.state() == before, "a request has no effect on another session's subscription")
	vp.Assert(g.sub.retransmissionQueue.Len() == 1, "a request has no effect on another session's subscription")
	switch k {
	case 7, 10, 11, 12, 13, 17, 20:
		st := vpFault(conn)
		vp.Assert(st == ua.BadSubscriptionIDInvalid, "another session's subscription is unknown")
	case 8:
		var res ua.SetPublishingModeResponse
		vpReply(conn, 0, 4000, &res)
		vp.Assert(len(res.Results) == 1 && res.Results[0] == ua.BadSubscriptionIDInvalid, "another session's subscription is unknown")
	case 9:
		var res ua.DeleteSubscriptionsResponse
		vpReply(conn, 0, 4000, &res)
		vp.Assert(len(res.Results) == 1 && res.Results[0] == ua.BadSubscriptionIDInvalid, "another session's subscription is unknown")
	}
	vp.Reach("refused")
}
