package server

import (
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:use pub
//vp:bound filters of up to three elements with any operator, up to two operands of any kind (literals of three types, the fields of the event, fields it has not, references to any element); any severity, and any of five event types; up to three selected fields in any order; any graph of notifier references among three objects and the server object; up to three events and two messages
//vp:outside what an element reference to an earlier element or past the last one yields (the filter must not crash the server), operators other than Equals and OfType (they let nothing pass)

const vpFieldNone = 8

// vpField is the clause of a field of the base event; 8 is a field it has not.
func vpField(i int) ua.SimpleAttributeOperand {
	if i == vpFieldNone {
		return ua.SimpleAttributeOperand{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: ua.ParseBrowsePath("Shoe"), AttributeID: ua.AttributeIDValue}
	}
	return ua.BaseEventSelectClauses[i]
}

// vpEvent is an event of a type with a severity.
func vpEvent(typ uint32, severity uint16) *ua.BaseEvent {
	return &ua.BaseEvent{EventID: "id", EventType: vpN(typ), SourceNode: vpN(1), SourceName: "src", Time: vpTime, ReceiveTime: vpTime.Add(time.Second), Message: ua.LocalizedText{Text: "m", Locale: "l"}, Severity: severity}
}

func vpFieldValue(e *ua.BaseEvent, i int) ua.Variant {
	switch i {
	case 0:
		return e.EventID
	case 1:
		return e.EventType
	case 2:
		return e.SourceNode
	case 3:
		return e.SourceName
	case 4:
		return e.Time
	case 5:
		return e.ReceiveTime
	case 6:
		return e.Message
	case 7:
		return e.Severity
	}
	return nil
}

// vpSame compares two values of the kinds that occur here.
func vpSame(a, b ua.Variant) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case uint16:
		y, ok := b.(uint16)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case ua.ByteString:
		y, ok := b.(ua.ByteString)
		return ok && x == y
	case ua.NodeIDNumeric:
		y, ok := b.(ua.NodeIDNumeric)
		return ok && x == y
	case ua.LocalizedText:
		y, ok := b.(ua.LocalizedText)
		return ok && x == y
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return false
}

// vpIsType tells whether an event type is the other one or below it: 102 is below 101, 103 below 102, 104 apart, 105 unknown.
func vpIsType(t, super uint32) bool {
	return t == super || t >= 101 && t <= 103 && super >= 101 && super < t
}

// vpVerdict evaluates an element; unknown if that is not settled.
func vpVerdict(f []ua.ContentFilterElement, i int, e *ua.BaseEvent, typ uint32) (res, known bool) {
	el := f[i]
	switch el.FilterOperator {
	case ua.FilterOperatorEquals:
		if len(el.FilterOperands) < 2 {
			return false, true
		}
		var v [2]ua.Variant
		for k := range v {
			switch op := el.FilterOperands[k].(type) {
			case ua.LiteralOperand:
				v[k] = op.Value
			case ua.SimpleAttributeOperand:
				for j := 0; j < 9; j++ {
					if op.BrowsePath[0] == vpField(j).BrowsePath[0] {
						v[k] = vpFieldValue(e, j)
					}
				}
			case ua.ElementOperand:
				if int(op.Index) <= i || int(op.Index) >= len(f) {
					return false, false
				}
				r, known := vpVerdict(f, int(op.Index), e, typ)
				if !known {
					return false, false
				}
				v[k] = r
			default:
				return false, true
			}
		}
		return vpSame(v[0], v[1]), true
	case ua.FilterOperatorOfType:
		if len(el.FilterOperands) < 1 {
			return false, true
		}
		op, ok := el.FilterOperands[0].(ua.LiteralOperand)
		if !ok {
			return false, true
		}
		n, ok := op.Value.(ua.NodeIDNumeric)
		return ok && vpIsType(typ, n.ID), true
	}
	return false, true
}

// vpOperand chooses an operand. Not all kinds are tried with both operators.
func vpOperand(typed bool, last bool) ua.ExtensionObject {
	if typed {
		switch vp.Choice("operand", 3) {
		case 0:
			return ua.LiteralOperand{Value: vpN(101 + uint32(vp.Choice("type", 5)))}
		case 1:
			return ua.LiteralOperand{Value: "101"}
		}
		return vpField(1)
	}
	n := 5
	if last {
		n = 4
	}
	switch vp.Choice("operand", n) {
	case 0:
		return ua.LiteralOperand{Value: uint16(500)}
	case 1:
		return vpField(7 + vp.Choice("field", 2))
	case 2:
		return ua.LiteralOperand{Value: vp.Choice("true", 2) == 1}
	case 3:
		return nil
	}
	return ua.ElementOperand{Index: uint32(vp.Choice("index", 4))}
}

// where checks a filter: exactly the events that pass it are delivered, and nothing happens to the server.
func vpWhere(f []ua.ContentFilterElement) {
	g := vpPubSetup(1000, 3000)
	g.sub.DeleteItem(g.item.ID())
	vpRefTypes(g.srv)
	obj := NewObjectNode(g.srv, vpN(50), ua.QualifiedName{Name: "o"}, ua.LocalizedText{}, ua.LocalizedText{}, nil, nil, ua.EventNotifierSubscribeToEvents)
	mi := NewEventMonitoredItem(g.sub, obj, ua.ReadValueID{NodeID: vpN(50), AttributeID: ua.AttributeIDEventNotifier}, ua.MonitoringModeReporting,
		ua.MonitoringParameters{ClientHandle: 9, QueueSize: 10, Filter: ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{vpField(7)}, WhereClause: ua.ContentFilter{Elements: f}}})
	typ := 101 + uint32(vp.Choice("event type", 5))
	e := vpEvent(typ, vp.U16("severity"))
	obj.OnEvent(e)
	want, known := true, true
	if len(f) > 0 {
		want, known = vpVerdict(f, 0, e, typ)
	}
	n, _ := mi.notifications(10)
	if known {
		vp.Reach("known")
		vp.Assert((len(n) == 1) == want, "exactly the events that pass the filter are reported")
		if len(n) == 1 {
			fields, ok := n[0].([]ua.Variant)
			vp.Assert(ok && len(fields) == 1 && vpSame(fields[0], e.Severity), "an event is reported with the fields that were selected")
		}
	}
}

// VP_C23_where: one element, any operands.
func VP_C23_where() {
	if vp.Choice("empty", 2) == 1 {
		vpWhere(nil)
		return
	}
	el := ua.ContentFilterElement{FilterOperator: [...]ua.FilterOperator{ua.FilterOperatorEquals, ua.FilterOperatorOfType, ua.FilterOperatorIsNull}[vp.Choice("operator", 3)]}
	for n := vp.Choice("operands", 3); n > 0; n-- {
		el.FilterOperands = append(el.FilterOperands, vpOperand(el.FilterOperator == ua.FilterOperatorOfType, false))
	}
	vpWhere([]ua.ContentFilterElement{el})
}

// VP_C23_elements: elements that refer to each other.
func VP_C23_elements() {
	n := 3
	f := make([]ua.ContentFilterElement, n)
	for i := range f {
		switch vp.Choice("element", 3) {
		case 0: // compares two elements
			f[i] = ua.ContentFilterElement{FilterOperator: ua.FilterOperatorEquals, FilterOperands: []ua.ExtensionObject{
				ua.ElementOperand{Index: uint32(vp.Choice("index", 4))}, ua.ElementOperand{Index: uint32(vp.Choice("index", 4))}}}
		case 1: // negates or keeps another
			f[i] = ua.ContentFilterElement{FilterOperator: ua.FilterOperatorEquals, FilterOperands: []ua.ExtensionObject{
				ua.LiteralOperand{Value: vp.Choice("true", 2) == 1}, ua.ElementOperand{Index: uint32(vp.Choice("index", 4))}}}
		default:
			f[i] = ua.ContentFilterElement{FilterOperator: ua.FilterOperatorOfType, FilterOperands: []ua.ExtensionObject{ua.LiteralOperand{Value: vpN(102)}}}
		}
	}
	vpWhere(f)
}

// VP_C23_fields: every field can be compared with its own value and with another.
func VP_C23_fields() {
	i := vp.Choice("field", 8)
	e := vpEvent(102, vp.U16("severity"))
	var lit ua.Variant
	switch {
	case i == 7:
		lit = vp.U16("literal")
	case vp.Choice("equal", 2) == 1:
		lit = vpFieldValue(e, i)
	default:
		lit = [...]ua.Variant{ua.ByteString("no"), vpN(101), vpN(2), "sro", vpTime.Add(1e9), vpTime, ua.LocalizedText{Text: "m"}}[i]
	}
	ops := []ua.ExtensionObject{vpField(i), ua.LiteralOperand{Value: lit}}
	if vp.Choice("swapped", 2) == 1 {
		ops[0], ops[1] = ops[1], ops[0]
	}
	mi := &EventMonitoredItem{queueSize: 10, eventFilter: ua.EventFilter{WhereClause: ua.ContentFilter{Elements: []ua.ContentFilterElement{{FilterOperator: ua.FilterOperatorEquals, FilterOperands: ops}}}}, monitoringMode: ua.MonitoringModeReporting, sub: &Subscription{}}
	mi.OnEvent(e)
	vp.Assert((mi.queue.Len() == 1) == vpSame(vpFieldValue(e, i), lit), "a field is compared with its value")
}

// VP_C23_select: the fields selected are delivered in the order asked for, and unknown ones are null.
func VP_C23_select() {
	g := vpPubSetup(1000, 3000)
	g.sub.DeleteItem(g.item.ID())
	obj := NewObjectNode(g.srv, vpN(50), ua.QualifiedName{Name: "o"}, ua.LocalizedText{}, ua.LocalizedText{}, nil, nil, ua.EventNotifierSubscribeToEvents)
	g.srv.namespaceManager.nodes[vpN(50)] = obj
	var sel []ua.SimpleAttributeOperand
	var idx []int
	for n := vp.Choice("fields", vp.Bound(3, 4)); n > 0; n-- {
		k := vp.Choice("field", 9)
		idx = append(idx, k)
		sel = append(sel, vpField(k))
	}
	var cr ua.CreateMonitoredItemsResponse
	g.request(&ua.CreateMonitoredItemsRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
		ItemToMonitor: ua.ReadValueID{NodeID: vpN(50), AttributeID: ua.AttributeIDEventNotifier}, MonitoringMode: ua.MonitoringModeReporting,
		RequestedParameters: ua.MonitoringParameters{ClientHandle: 9, QueueSize: 10, Filter: ua.EventFilter{SelectClauses: sel}}}}}, 4000)
	vp.Assert(g.take(4000, &cr) == ua.Good && len(cr.Results) == 1 && cr.Results[0].StatusCode == ua.Good, "an event item is created")
	var sent []*ua.BaseEvent
	id := uint32(4000)
	for m := 0; m < 2; m++ {
		from := len(sent)
		for n := vp.Choice("events", 3); n > 0; n-- {
			e := vpEvent(101, vp.U16("severity"))
			sent = append(sent, e)
			vp.Assert(g.srv.namespaceManager.OnEvent(obj, e) == nil, "an event is raised")
		}
		id++
		g.request(&ua.PublishRequest{RequestHeader: g.header(1)}, id)
		vp.Assert(g.sub.publish(time.Now()) == nil, "publishing works")
		vp.Drain()
		if _, ok := g.next(); !ok {
			vp.Assert(len(sent) == from, "every event is delivered")
			vp.Stop()
		}
		var res ua.PublishResponse
		vp.Assert(g.take(id, &res) == ua.Good, "publishing works")
		var got []ua.EventFieldList
		for _, nd := range res.NotificationMessage.NotificationData {
			if l, ok := nd.(ua.EventNotificationList); ok {
				got = append(got, l.Events...)
			}
		}
		vp.Assert(len(got) == len(sent)-from, "every event is delivered once")
		for i, fl := range got {
			if from+i >= len(sent) {
				break
			}
			ok := fl.ClientHandle == 9 && len(fl.EventFields) == len(idx)
			for k := range idx {
				ok = ok && k < len(fl.EventFields) && vpSame(vpFieldValue(sent[from+i], idx[k]), fl.EventFields[k])
			}
			vp.Assert(ok, "events are delivered in order with the fields asked for")
		}
	}
	vp.Reach("done")
}

// VP_C23_notifiers: an event is raised at its object and at every notifier above it, each once.
func VP_C23_notifiers() {
	vp.Limit("steps", 400000)
	srv := vpServer()
	// objects 1, 2, 3 and the server (0)
	ids := []ua.NodeID{ua.ObjectIDServer, vpN(1), vpN(2), vpN(3)}
	up := make([]int, 4)
	var nodes []*ObjectNode
	var items []*EventMonitoredItem
	for i, id := range ids {
		up[i] = -1
		var refs []ua.Reference
		if i > 0 {
			if vp.Choice("other references", 2) == 1 {
				// these do not count
				refs = append(refs, ua.NewReference(ua.ReferenceTypeIDOrganizes, true, ua.NewExpandedNodeID(ids[(i+1)%4])), ua.NewReference(ua.ReferenceTypeIDHasNotifier, false, ua.NewExpandedNodeID(ids[(i+2)%4])))
			}
			if k := vp.Choice("notifier", 5); k < 4 {
				up[i] = k
				refs = append(refs, ua.NewReference(ua.ReferenceTypeIDHasNotifier, true, ua.NewExpandedNodeID(ids[k])))
			}
		}
		o := NewObjectNode(srv, id, ua.QualifiedName{Name: "o"}, ua.LocalizedText{}, ua.LocalizedText{}, nil, refs, ua.EventNotifierSubscribeToEvents)
		srv.namespaceManager.nodes[id] = o
		nodes = append(nodes, o)
		mi := &EventMonitoredItem{node: o, queueSize: 100, monitoringMode: ua.MonitoringModeReporting, srv: srv, sub: &Subscription{}}
		mi.startMonitoring()
		items = append(items, mi)
	}
	start := vp.Choice("source", 4)
	vp.Assert(srv.namespaceManager.OnEvent(nodes[start], vpEvent(101, 1)) == nil, "an event is raised")
	want := make([]bool, 4)
	for i := start; i >= 0 && !want[i]; i = up[i] {
		want[i] = true
	}
	for i, mi := range items {
		n := 0
		if want[i] {
			n = 1
		}
		vp.Assert(mi.queue.Len() == n, "an event is reported by its object and every notifier above it, once")
	}
}
