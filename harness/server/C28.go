package server

import (
	"math"
	"reflect"
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:use pub
//vp:use batch
//vp:bound one request of each of 26 services (HistoryRead with each kind of details) in which any two fields (thorough: three), however deep, has an unusual value: no or wrong node ids, extension objects of the wrong kind or none, values and texts of other kinds, empty and doubled lists, enumerations outside their range, any number, not-a-number and infinity
//vp:outside more fields at once, histories of such requests, requests that do not decode (C04, C12)

// vpOdd walks a request and gives the chosen leaves unusual values.
type vpOdd struct {
	g    *vpPub
	n    int          // leaves seen
	pick map[int]bool // leaves to change, nil to count
}

func (o *vpOdd) leaf() bool {
	o.n++
	return o.pick[o.n-1]
}

func (o *vpOdd) node() ua.NodeID {
	return [...]ua.NodeID{nil, vpVarID, vpN(200), vpN(201), vpN(999), ua.NodeIDNumeric{}, ua.ObjectIDServer, ua.NodeIDString{NamespaceIndex: 9}}[vp.Choice("node", 8)]
}

func (o *vpOdd) variant() ua.Variant {
	return [...]ua.Variant{nil, int32(3), []int32{1, 2}, "x", []ua.Variant{nil}, ua.NewDataValue(nil, 0, time.Time{}, 0, time.Time{}, 0), [][]int32{{1}}}[vp.Choice("variant", 7)]
}

func (o *vpOdd) object() ua.ExtensionObject {
	return [...]ua.ExtensionObject{nil, ua.DataChangeFilter{Trigger: 9, DeadbandType: 1, DeadbandValue: math.NaN()}, ua.DataChangeFilter{Trigger: 1, DeadbandType: 2, DeadbandValue: 10}, ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{{}}},
		ua.AggregateFilter{}, ua.ReadRawModifiedDetails{}, ua.ReadProcessedDetails{}, ua.ReadAtTimeDetails{}, ua.ReadEventDetails{}, ua.LiteralOperand{}, ua.UserNameIdentityToken{}}[vp.Choice("object", 11)]
}

func (o *vpOdd) walk(f reflect.Value) {
	switch x := f.Addr().Interface().(type) {
	case *ua.RequestHeader:
		return
	case *ua.NodeID:
		if o.leaf() {
			*x = o.node()
		}
		return
	case *ua.ExpandedNodeID:
		if o.leaf() {
			*x = ua.ExpandedNodeID{NodeID: o.node(), ServerIndex: uint32(vp.Choice("server", 2))}
		}
		return
	case *ua.Variant:
		if o.leaf() {
			*x = o.variant()
		}
		return
	case *time.Time:
		if o.leaf() {
			*x = [...]time.Time{{}, vpTime, vpTime.Add(-1e18)}[vp.Choice("time", 3)]
		}
		return
	case *bool:
		if o.leaf() {
			*x = vp.Choice("flag", 2) == 1
		}
		return
	case *float64:
		if o.leaf() {
			*x = [...]float64{0, -1, math.NaN(), math.Inf(1), 1e300, 0.5}[vp.Choice("number", 6)]
		}
		return
	}
	switch f.Kind() {
	case reflect.Struct:
		for i := 0; i < f.NumField(); i++ {
			o.walk(f.Field(i))
		}
	case reflect.Slice:
		if o.leaf() {
			switch k := vp.Choice("list", 3); {
			case k == 0:
				f.Set(reflect.Zero(f.Type()))
			case k == 1:
				f.Set(reflect.MakeSlice(f.Type(), 1, 1))
			default:
				s := reflect.MakeSlice(f.Type(), 2, 2)
				if f.Len() > 0 {
					s.Index(0).Set(f.Index(0))
					s.Index(1).Set(f.Index(0))
				}
				f.Set(s)
			}
		}
		if f.Len() > 0 {
			o.walk(f.Index(0))
		}
	case reflect.Interface:
		if o.leaf() {
			if x := o.object(); x == nil {
				f.Set(reflect.Zero(f.Type()))
			} else {
				f.Set(reflect.ValueOf(x))
			}
		}
	case reflect.String:
		if o.leaf() {
			f.SetString([...]string{"", "0", "1:2", "x", "2:1", ",", "99999999999"}[vp.Choice("text", 7)])
		}
	case reflect.Uint32:
		if o.leaf() {
			switch vp.Choice("known", 3) {
			case 0:
				f.SetUint(uint64(o.g.sub.id))
			case 1:
				f.SetUint(uint64(o.g.item.ID()))
			default:
				f.SetUint(uint64(vp.U32("number")))
			}
		}
	case reflect.Int32:
		if o.leaf() {
			f.SetInt(int64(vp.I32("number")))
		}
	case reflect.Uint8:
		if o.leaf() {
			f.SetUint(uint64(vp.U8("number")))
		}
	}
}

// vpRequest is a request that is in order.
func (g *vpPub) sound(bs []vpBatch, k int) ua.ServiceRequest {
	h := g.header(4321)
	if k < len(bs) {
		return bs[k].request(h, []int{0})
	}
	op := []ua.SimpleAttributeOperand{ua.BaseEventSelectClauses[7]}
	ef := ua.EventFilter{SelectClauses: op, WhereClause: ua.ContentFilter{Elements: []ua.ContentFilterElement{{FilterOperator: ua.FilterOperatorEquals, FilterOperands: []ua.ExtensionObject{op[0], ua.LiteralOperand{Value: uint16(1)}}}}}}
	hist := func(d ua.ExtensionObject) ua.ServiceRequest {
		return &ua.HistoryReadRequest{RequestHeader: h, HistoryReadDetails: d, NodesToRead: []ua.HistoryReadValueID{{NodeID: vpVarID}}}
	}
	switch k - len(bs) {
	case 0:
		return &ua.CreateSubscriptionRequest{RequestHeader: h, RequestedPublishingInterval: 1000}
	case 1:
		return &ua.ModifySubscriptionRequest{RequestHeader: h, SubscriptionID: g.sub.id, RequestedPublishingInterval: 2000}
	case 2:
		return &ua.PublishRequest{RequestHeader: h, SubscriptionAcknowledgements: []ua.SubscriptionAcknowledgement{{SubscriptionID: g.sub.id, SequenceNumber: 1}}}
	case 3:
		return &ua.RepublishRequest{RequestHeader: h, SubscriptionID: g.sub.id, RetransmitSequenceNumber: 1}
	case 4:
		return &ua.CancelRequest{RequestHeader: h}
	case 5:
		return &ua.CreateMonitoredItemsRequest{RequestHeader: h, SubscriptionID: g.sub.id, ItemsToCreate: []ua.MonitoredItemCreateRequest{{ItemToMonitor: ua.ReadValueID{NodeID: vpN(200), AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: ua.MonitoringParameters{Filter: ef}}}}
	case 6:
		return &ua.ModifyMonitoredItemsRequest{RequestHeader: h, SubscriptionID: g.sub.id, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: g.event.ID(), RequestedParameters: ua.MonitoringParameters{Filter: ef}}}}
	case 7:
		return hist(ua.ReadProcessedDetails{})
	case 8:
		return hist(ua.ReadEventDetails{})
	case 9:
		return hist(ua.ReadAtTimeDetails{})
	case 10:
		return &ua.FindServersRequest{RequestHeader: h}
	case 11:
		return &ua.GetEndpointsRequest{RequestHeader: h}
	case 12:
		return &ua.CreateSessionRequest{RequestHeader: h}
	case 13:
		return &ua.ActivateSessionRequest{RequestHeader: h, UserIdentityToken: ua.AnonymousIdentityToken{}}
	case 14:
		return &ua.CloseSessionRequest{RequestHeader: h, DeleteSubscriptions: true}
	case 15:
		return &ua.TranslateBrowsePathsToNodeIDsRequest{RequestHeader: h, BrowsePaths: []ua.BrowsePath{{StartingNode: vpN(200)}}}
	}
	return nil
}

// VP_C28_odd: whatever a request asks for, it is answered once and the server goes on.
func VP_C28_odd() {
	vp.Limit("rand", 1)
	g := &vpPub{srv: vpServer()}
	g.s = vpSession(g.srv, 1, 7, ua.AnonymousIdentity{})
	g.conn, g.ch = vpSrvChannel(g.srv, 7)
	g.v = vpAddVariable(g.srv, vpVarID, int32(0), ua.DataTypeIDInt32, -1, 3)
	g.sub = g.newSub(10, 30)
	g.item = g.newItem(g.sub, ua.MonitoringParameters{ClientHandle: 5, QueueSize: 10}, ua.MonitoringModeReporting)
	calls := 0
	m := NewMethodNode(g.srv, vpN(201), ua.QualifiedName{Name: "m"}, ua.LocalizedText{}, ua.LocalizedText{}, nil, nil, true)
	m.SetCallMethodHandler(func(_ *Session, _ ua.CallMethodRequest) ua.CallMethodResult {
		calls++
		return ua.CallMethodResult{}
	})
	obj := NewObjectNode(g.srv, vpN(200), ua.QualifiedName{Name: "o"}, ua.LocalizedText{}, ua.LocalizedText{}, nil, []ua.Reference{ua.NewReference(ua.ReferenceTypeIDOrganizes, false, ua.NewExpandedNodeID(vpN(201)))}, ua.EventNotifierSubscribeToEvents)
	g.srv.namespaceManager.nodes[vpN(200)] = obj
	g.srv.namespaceManager.nodes[vpN(201)] = m
	g.event = NewEventMonitoredItem(g.sub, obj, ua.ReadValueID{NodeID: vpN(200), AttributeID: ua.AttributeIDEventNotifier}, ua.MonitoringModeReporting, ua.MonitoringParameters{})
	g.sub.AppendItem(g.event)
	bs := vpBatches(g, &calls)
	req := g.sound(bs, vp.Choice("service", len(bs)+16))
	o := &vpOdd{g: g}
	o.walk(reflect.ValueOf(req).Elem())
	n := o.n
	o.n, o.pick = 0, map[int]bool{}
	for i := vp.Bound(2, 3); i > 0 && n > 0; i-- {
		o.pick[vp.Choice("field", n)] = true
	}
	o.walk(reflect.ValueOf(req).Elem())
	vp.Assert(g.srv.handleRequest(g.ch, req, 4000) == nil, "a request is answered")
	vp.Drain()
	_, queued := req.(*ua.PublishRequest)
	id, ok := g.next()
	vp.Assert(ok && id == 4000 && len(g.conn.out) == 1 || queued && len(g.conn.out) <= 1, "a request is answered, once")
	g.seen = len(g.conn.out)
	// the server goes on
	obj.OnEvent(&ua.BaseEvent{Severity: 1})
	g.item.Poll()
	g.srv.handleRequest(g.ch, &ua.PublishRequest{RequestHeader: g.header(1)}, 4001)
	g.sub.publish(time.Now())
	vp.Drain()
	g.seen = len(g.conn.out)
	g.srv.handleRequest(g.ch, &ua.ReadRequest{RequestHeader: g.header(1), NodesToRead: []ua.ReadValueID{{NodeID: vpVarID, AttributeID: 13}}}, 4002)
	vp.Drain()
	id, ok = g.next()
	vp.Assert(ok && id == 4002, "the server goes on")
}
