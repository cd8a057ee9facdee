package server

import (
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:use pub
//vp:bound three data items with any links among them (itself and cycles included), any modes and any subset of new values over two rounds; histories of up to 4 events (thorough: 5) out of: new values of either item, links added and removed (in one request, unknown ids, twice the same), mode of the triggered item, deleting either; one event item that triggers
//vp:outside a trigger that comes while the triggered item has nothing to report (whether it counts for later values), the interval in which a trigger that is only sampled takes effect

// vpTrig is an item with its own variable.
type vpTrig struct {
	id     ua.NodeID
	v      *VariableNode
	mi     *DataChangeMonitoredItem
	handle uint32
	value  int32
	mode   ua.MonitoringMode
	q      []int32 // values sampled and not reported
	may    bool    // a trigger came while there was nothing to report
	gone   bool
}

type vpTrigs struct {
	*vpPub
	reqs  uint32
	items []*vpTrig
	links map[[2]int]bool
}

func vpTrigSetup(n int) *vpTrigs {
	g := &vpTrigs{vpPub: vpPubSetup(1000, 3000), reqs: 4000, links: map[[2]int]bool{}}
	g.sub.DeleteItem(g.item.ID())
	for i := 0; i < n; i++ {
		t := &vpTrig{id: ua.NodeIDNumeric{NamespaceIndex: 2, ID: uint32(8100 + i)}, handle: uint32(10 + i), mode: ua.MonitoringModeSampling}
		t.v = vpAddVariable(g.srv, t.id, int32(0), ua.DataTypeIDInt32, -1, 3)
		g.items = append(g.items, t)
	}
	return g
}

// start creates the items in their modes and has their first values reported or dropped.
func (g *vpTrigs) start() {
	for _, t := range g.items {
		t.mi = NewDataChangeMonitoredItem(g.sub, t.v, ua.ReadValueID{NodeID: t.id, AttributeID: ua.AttributeIDValue}, t.mode,
			ua.MonitoringParameters{ClientHandle: t.handle, QueueSize: 10}, ua.TimestampsToReturnBoth, 0)
		g.sub.AppendItem(t.mi)
		g.srv.Scheduler().GetPollGroup(0).Unsubscribe(t.mi)
		if t.mode != ua.MonitoringModeDisabled {
			t.q = []int32{0}
		}
	}
	for i := 0; i < 2; i++ {
		g.reqs++
		g.request(&ua.PublishRequest{RequestHeader: g.header(1)}, g.reqs)
	}
	g.interval()
}

// sample gives an item a new value.
func (g *vpTrigs) sample(t *vpTrig) {
	t.value++
	t.v.SetValue(ua.NewDataValue(t.value, ua.Good, vpTime, 0, time.Now(), 0))
	if t.gone || t.mode == ua.MonitoringModeDisabled {
		return
	}
	t.mi.Poll()
	t.q = append(t.q, t.value)
}

// interval lets two publishing intervals elapse and returns the values that were delivered, by handle.
func (g *vpTrigs) interval() map[uint32][]int32 {
	got := map[uint32][]int32{}
	for i := 0; i < 2; i++ {
		vp.Assert(g.sub.publish(time.Now()) == nil, "publishing works")
		vp.Drain()
		id, ok := g.next()
		if !ok {
			continue
		}
		var res ua.PublishResponse
		st := g.take(id, &res)
		vp.Assert(st == ua.Good, "publishing works")
		for _, nd := range res.NotificationMessage.NotificationData {
			if dc, ok := nd.(ua.DataChangeNotification); ok {
				for _, n := range dc.MonitoredItems {
					x, _ := n.Value.Value.(int32)
					got[n.ClientHandle] = append(got[n.ClientHandle], x)
				}
			}
		}
		g.reqs++
		g.request(&ua.PublishRequest{RequestHeader: g.header(1)}, g.reqs)
	}
	return got
}

// round has the items sample and checks what is delivered.
func (g *vpTrigs) round(changed []bool) {
	for i, t := range g.items {
		if changed[i] {
			g.sample(t)
		}
	}
	got := g.interval()
	for i, t := range g.items {
		d := got[t.handle]
		whole := len(d) == len(t.q)
		for k := range d {
			whole = whole && d[k] == t.q[k]
		}
		trig := false
		for j, u := range g.items {
			trig = trig || g.links[[2]int{j, i}] && changed[j] && !u.gone && u.mode != ua.MonitoringModeDisabled
		}
		switch {
		case t.gone || t.mode == ua.MonitoringModeDisabled:
			vp.Assert(len(d) == 0, "an item that is disabled or deleted reports nothing")
			t.may = t.may || trig
		case t.mode == ua.MonitoringModeReporting:
			vp.Assert(whole, "an item that reports reports all its values, triggered or not")
			t.q, t.may = nil, false
		case trig && len(t.q) > 0:
			vp.Reach("triggered")
			vp.Assert(whole, "when its trigger has a new value, an item that is sampled reports all it sampled")
			t.q, t.may = nil, false
		case trig:
			vp.Assert(len(d) == 0, "an item reports nothing it did not sample")
			t.may = true
		case t.may && len(d) > 0:
			vp.Assert(whole, "an item reports each value once")
			t.q, t.may = nil, false
		default:
			vp.Assert(len(d) == 0, "an item that is only sampled reports nothing before its trigger has a new value")
		}
	}
}

// VP_C33_graph: any links among three items.
func VP_C33_graph() {
	n := vp.Bound(2, 3)
	g := vpTrigSetup(n)
	for _, t := range g.items {
		t.mode = ua.MonitoringMode(vp.Choice("mode", 3))
	}
	g.start()
	for _, t := range g.items {
		if t.mode == ua.MonitoringModeReporting {
			t.q = nil
		}
	}
	for i := range g.items {
		var add []uint32
		for j := range g.items {
			if vp.Choice("link", 2) == 1 {
				add = append(add, g.items[j].mi.ID())
				g.links[[2]int{i, j}] = true
			}
		}
		if len(add) > 0 {
			var res ua.SetTriggeringResponse
			g.request(&ua.SetTriggeringRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, TriggeringItemID: g.items[i].mi.ID(), LinksToAdd: add}, 3000)
			vp.Assert(g.take(3000, &res) == ua.Good && len(res.AddResults) == len(add) && len(res.RemoveResults) == 0, "links are added")
			for _, r := range res.AddResults {
				vp.Assert(r == ua.Good, "links are added")
			}
		}
	}
	for r := 0; r < 2; r++ {
		changed := make([]bool, n)
		for i := range changed {
			changed[i] = vp.Choice("value", 2) == 1
		}
		g.round(changed)
	}
	vp.Reach("done")
}

// VP_C33_history: links are added and removed, items switched and deleted.
func VP_C33_history() {
	g := vpTrigSetup(2)
	a, b := g.items[0], g.items[1]
	a.mode = ua.MonitoringModeReporting
	g.start()
	a.q = nil
	link := [2]int{0, 1}
	for n := vp.Bound(4, 5); n > 0; n-- {
		switch vp.Choice("event", 4) {
		case 0:
			g.round([]bool{vp.Choice("value", 2) == 1, vp.Choice("value", 2) == 1})
		case 1:
			ids := [][]uint32{nil, {99, b.mi.ID()}, {b.mi.ID(), b.mi.ID()}}
			k, l := vp.Choice("remove", 2), vp.Choice("add", 3)
			var res ua.SetTriggeringResponse
			g.request(&ua.SetTriggeringRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, TriggeringItemID: a.mi.ID(), LinksToRemove: ids[k], LinksToAdd: ids[l]}, 3000)
			st := g.take(3000, &res)
			if k == 0 && l == 0 {
				vp.Assert(st == ua.BadNothingToDo, "a request without links is refused")
				break
			}
			if a.gone {
				vp.Assert(st == ua.BadMonitoredItemIDInvalid, "an item that is not there cannot trigger")
				break
			}
			vp.Assert(st == ua.Good && len(res.RemoveResults) == len(ids[k]) && len(res.AddResults) == len(ids[l]), "links are changed")
			for i, id := range ids[k] {
				ok := id != 99 && !b.gone && g.links[link]
				vp.Assert((res.RemoveResults[i] == ua.Good) == ok && (ok || res.RemoveResults[i] == ua.BadMonitoredItemIDInvalid), "a link is removed if there is one")
				if ok {
					g.links[link] = false
				}
			}
			for i, id := range ids[l] {
				ok := id != 99 && !b.gone
				vp.Assert((res.AddResults[i] == ua.Good) == ok && (ok || res.AddResults[i] == ua.BadMonitoredItemIDInvalid), "a link is added if the item exists")
				if ok {
					g.links[link] = true
				}
			}
		case 2:
			if b.gone {
				vp.Stop()
			}
			to := ua.MonitoringModeSampling
			if b.mode == ua.MonitoringModeSampling {
				to = ua.MonitoringModeReporting
			}
			var res ua.SetMonitoringModeResponse
			g.request(&ua.SetMonitoringModeRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, MonitoringMode: to, MonitoredItemIDs: []uint32{b.mi.ID()}}, 3000)
			vp.Assert(g.take(3000, &res) == ua.Good && len(res.Results) == 1 && res.Results[0] == ua.Good, "the mode of an item is set")
			g.srv.Scheduler().GetPollGroup(0).Unsubscribe(b.mi)
			b.mode = to
		default:
			t := g.items[vp.Choice("delete", 2)]
			var res ua.DeleteMonitoredItemsResponse
			g.request(&ua.DeleteMonitoredItemsRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, MonitoredItemIDs: []uint32{t.mi.id}}, 3000)
			want := ua.Good
			if t.gone {
				want = ua.BadMonitoredItemIDInvalid
			}
			vp.Assert(g.take(3000, &res) == ua.Good && len(res.Results) == 1 && res.Results[0] == want, "an item can be deleted once")
			t.gone = true
			g.links[link] = false
		}
	}
	g.round([]bool{false, false})
	g.round([]bool{true, true})
	vp.Reach("done")
}

// VP_C33_event: an event item triggers with each event that passes its filter.
func VP_C33_event() {
	g := vpTrigSetup(1)
	b := g.items[0]
	g.start()
	obj := NewObjectNode(g.srv, ua.NodeIDNumeric{NamespaceIndex: 2, ID: 8200}, ua.NewQualifiedName(2, "o"), ua.NewLocalizedText("o", ""), ua.NewLocalizedText("", ""), nil, nil, ua.EventNotifierSubscribeToEvents)
	sev := vp.U16("severity")
	e := NewEventMonitoredItem(g.sub, obj, ua.ReadValueID{NodeID: obj.NodeID(), AttributeID: ua.AttributeIDEventNotifier}, ua.MonitoringMode(vp.Choice("mode", 3)), ua.MonitoringParameters{ClientHandle: 20, QueueSize: 10, Filter: ua.EventFilter{
		SelectClauses: ua.BaseEventSelectClauses[7:],
		WhereClause: ua.ContentFilter{Elements: []ua.ContentFilterElement{{FilterOperator: ua.FilterOperatorEquals, FilterOperands: []ua.ExtensionObject{
			ua.BaseEventSelectClauses[7], ua.LiteralOperand{Value: uint16(500)}}}}}}})
	g.sub.AppendItem(e)
	var res ua.SetTriggeringResponse
	g.request(&ua.SetTriggeringRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, TriggeringItemID: e.ID(), LinksToAdd: []uint32{b.mi.ID()}}, 3000)
	vp.Assert(g.take(3000, &res) == ua.Good && len(res.AddResults) == 1 && res.AddResults[0] == ua.Good, "an event item can trigger")
	g.sample(b)
	obj.OnEvent(&ua.BaseEvent{Severity: sev})
	got := g.interval()
	if sev == 500 && e.MonitoringMode() != ua.MonitoringModeDisabled {
		vp.Reach("triggered")
		vp.Assert(len(got[b.handle]) == len(b.q), "an event triggers the items linked to it")
	} else {
		vp.Assert(len(got[b.handle]) == 0, "an event that does not pass the filter triggers nothing")
	}
}
