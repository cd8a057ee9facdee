package server

import (
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:use pub
//vp:bound any queue size, up to 5 values between two messages; histories of up to 4 events (thorough: 5) out of: new value, message, monitoring mode set, queue resized; any sampling interval asked for; 4 samples over 3 sampling intervals
//vp:outside the accuracy of the sampling timer, the queue of event items, whose size is fixed

type vpQueued struct {
	v   int32
	ovf bool
}

// vpQueueModel is the queue of an item as specified.
type vpQueueModel struct {
	size   uint32
	oldest bool
	q      []vpQueued
	any    bool
	last   int32
}

func vpQueueSize(n uint32) uint32 {
	if n < 1 {
		return 1
	}
	if n > maxQueueSize {
		return maxQueueSize
	}
	return n
}

func (m *vpQueueModel) put(v int32) {
	if m.any && m.last == v {
		return
	}
	m.any, m.last = true, v
	full := uint32(len(m.q)) >= m.size
	if m.oldest {
		if full {
			m.q = m.q[1:]
		}
		m.q = append(m.q, vpQueued{v, false})
		if full && m.size > 1 {
			m.q[0].ovf = true
		}
		return
	}
	if full {
		m.q = append([]vpQueued{}, m.q[:len(m.q)-1]...)
	}
	m.q = append(m.q, vpQueued{v, full && m.size > 1})
}

func (m *vpQueueModel) resize(n uint32) {
	m.size = n
	if uint32(len(m.q)) <= n {
		return
	}
	if m.oldest {
		m.q = append([]vpQueued{}, m.q[uint32(len(m.q))-n:]...)
		if n > 1 {
			m.q[0].ovf = true
		}
		return
	}
	m.q = append([]vpQueued{}, m.q[:n]...)
	if n > 1 {
		m.q[n-1].ovf = true
	}
}

// message has the subscription send its next message, to a request with this id, and compares it to the queue.
func (m *vpQueueModel) message(g *vpPub, id uint32, reporting bool) {
	g.request(&ua.PublishRequest{RequestHeader: g.header(1)}, id)
	e := g.sub.publish(time.Now())
	vp.Assert(e == nil, "a message is sent")
	vp.Drain()
	var got []vpQueued
	if k, ok := g.next(); ok {
		var res ua.PublishResponse
		vp.Assert(g.take(k, &res) == ua.Good, "a message is sent")
		for _, d := range res.NotificationMessage.NotificationData {
			for _, x := range d.(ua.DataChangeNotification).MonitoredItems {
				v, ok := x.Value.Value.(int32)
				vp.Assert(ok, "a message carries the values sampled")
				got = append(got, vpQueued{v, x.Value.StatusCode.IsOverflow()})
				vp.Assert(x.Value.StatusCode&0xFFFF0000 == 0, "a message carries the status sampled")
			}
		}
	}
	if !reporting {
		vp.Assert(len(got) == 0, "only a reporting item reports")
		return
	}
	ok := len(got) == len(m.q)
	for i := range got {
		ok = ok && got[i].v == m.q[i].v
	}
	vp.Assert(ok, "a message carries the newest values, or the oldest and the newest, as the client chose and as many as the queue holds")
	if ok {
		for i := range got {
			vp.Assert(got[i].ovf == m.q[i].ovf, "the overflow of the queue is reported where values are missing, and nowhere else")
		}
	}
	m.q = nil
}

// VP_C21_queue: any queue size.
func VP_C21_queue() {
	g := vpPubSetup(5, 20)
	n, oldest := vp.U32("queue size"), vp.Bool("discard oldest")
	m := &vpQueueModel{size: vpQueueSize(n), oldest: oldest}
	var res ua.CreateMonitoredItemsResponse
	g.sub.DeleteItem(g.item.ID())
	g.request(&ua.CreateMonitoredItemsRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
		ItemToMonitor: ua.ReadValueID{NodeID: vpVarID, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting,
		RequestedParameters: ua.MonitoringParameters{ClientHandle: 5, QueueSize: n, DiscardOldest: oldest}}}}, 3999)
	vp.Assert(g.take(3999, &res) == ua.Good && len(res.Results) == 1 && res.Results[0].StatusCode == ua.Good, "an item is created")
	vp.Assert(res.Results[0].RevisedQueueSize == m.size, "the client is told the size of the queue")
	it, ok := g.sub.FindItem(res.Results[0].MonitoredItemID)
	vp.Assert(ok, "an item is created")
	mi := it.(*DataChangeMonitoredItem)
	g.srv.Scheduler().GetPollGroup(time.Duration(mi.samplingInterval) * time.Millisecond).Unsubscribe(mi)
	mi.ti = 0 // every sample
	m.put(0)
	for i := vp.Choice("values", 5); i > 0; i-- {
		g.sample(mi, int32(i))
		m.put(int32(i))
	}
	m.message(g, 4000, true)
	g.sample(mi, int32(100))
	m.put(100)
	m.message(g, 4001, true)
}

// VP_C21_history: modes are switched and the queue is resized between values.
func VP_C21_history() {
	g := vpPubSetup(5, 20)
	oldest := vp.Bool("discard oldest")
	m := &vpQueueModel{size: 2, oldest: oldest}
	g.sub.DeleteItem(g.item.ID())
	mode := ua.MonitoringMode(vp.Choice("mode", 3))
	mi := g.newItem(g.sub, ua.MonitoringParameters{ClientHandle: 5, QueueSize: 2, DiscardOldest: oldest}, mode)
	value := int32(0)
	quiet := func() { g.srv.Scheduler().GetPollGroup(0).Unsubscribe(mi) }
	put := func() {
		if mode != ua.MonitoringModeDisabled {
			m.put(value)
		}
	}
	put()
	n := vp.Bound(4, 5)
	for i := 0; i < n; i++ {
		id := uint32(4000 + i)
		switch vp.Choice("event", 4) {
		case 0:
			value++
			g.v.SetValue(ua.NewDataValue(value, ua.Good, vpTime, 0, time.Now(), 0))
			if mode != ua.MonitoringModeDisabled {
				mi.Poll()
			}
			put()
		case 1:
			m.message(g, id, mode == ua.MonitoringModeReporting)
		case 2:
			to := ua.MonitoringMode(vp.Choice("mode", 3))
			var res ua.SetMonitoringModeResponse
			g.request(&ua.SetMonitoringModeRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, MonitoringMode: to, MonitoredItemIDs: []uint32{0, mi.ID()}}, id)
			vp.Assert(g.take(id, &res) == ua.Good && len(res.Results) == 2 && res.Results[0] == ua.BadMonitoredItemIDInvalid && res.Results[1] == ua.Good, "the mode of an item is set")
			quiet()
			if to != mode {
				mode = to
				if to == ua.MonitoringModeDisabled {
					m.q, m.any = nil, false
				} else {
					put()
				}
			}
		default:
			n := uint32(1 + vp.Choice("queue size", 3))
			var res ua.ModifyMonitoredItemsResponse
			g.request(&ua.ModifyMonitoredItemsRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, TimestampsToReturn: ua.TimestampsToReturnBoth,
				ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: mi.ID(), RequestedParameters: ua.MonitoringParameters{ClientHandle: 5, SamplingInterval: 0, QueueSize: n, DiscardOldest: oldest}}}}, id)
			vp.Assert(g.take(id, &res) == ua.Good && len(res.Results) == 1 && res.Results[0].StatusCode == ua.Good && res.Results[0].RevisedQueueSize == n, "an item is modified")
			quiet()
			if mode != ua.MonitoringModeDisabled {
				// what was sampled before counts with the old size or the new one: make it definite
				mi.notificationsAvailable(time.Now(), false, false)
			}
			m.resize(n)
			put()
		}
		if mode != ua.MonitoringModeDisabled {
			mi.notificationsAvailable(time.Now(), false, false)
		}
		vp.Assert(mi.MonitoringMode() == mode, "the mode of an item is as set last")
		dis := uint32(0)
		if mode == ua.MonitoringModeDisabled {
			dis = 1
		}
		vp.Assert(g.sub.disabledMonitoredItemCount == dis && g.sub.monitoredItemCount == 1, "the items of a subscription are counted")
	}
	vp.Reach("done")
}

// VP_C21_resize: a queue with values is made smaller or larger.
func VP_C21_resize() {
	g := vpPubSetup(5, 20)
	oldest := vp.Choice("discard oldest", 2) == 1
	size := uint32(2 + vp.Choice("queue size", 3))
	m := &vpQueueModel{size: size, oldest: oldest}
	g.sub.DeleteItem(g.item.ID())
	mi := g.newItem(g.sub, ua.MonitoringParameters{ClientHandle: 5, QueueSize: size, DiscardOldest: oldest}, ua.MonitoringModeReporting)
	m.put(0)
	v := vp.I32("value")
	vp.Assume(v > 0 && v < 1000000)
	for i := 1 + vp.Choice("values", 4); i > 0; i-- {
		v++
		g.sample(mi, v)
		m.put(v)
	}
	mi.notificationsAvailable(time.Now(), false, false)
	n := uint32(1 + vp.Choice("new size", 4))
	var res ua.ModifyMonitoredItemsResponse
	g.request(&ua.ModifyMonitoredItemsRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, TimestampsToReturn: ua.TimestampsToReturnBoth,
		ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: mi.ID(), RequestedParameters: ua.MonitoringParameters{ClientHandle: 5, SamplingInterval: 0, QueueSize: n, DiscardOldest: oldest}}}}, 4000)
	vp.Assert(g.take(4000, &res) == ua.Good && len(res.Results) == 1 && res.Results[0].RevisedQueueSize == n, "an item is modified")
	g.srv.Scheduler().GetPollGroup(0).Unsubscribe(mi)
	mi.ti = 0
	mi.notificationsAvailable(time.Now(), false, false)
	m.resize(n)
	m.put(v)
	m.message(g, 4001, true)
	for i := vp.Choice("values", 3); i > 0; i-- {
		v++
		g.sample(mi, v)
		m.put(v)
	}
	if len(m.q) > 0 {
		m.message(g, 4002, true)
	}
}

// VP_C21_interval: the sampling interval granted is within the limits and the one asked for if that is.
func VP_C21_interval() {
	g := vpPubSetup(5, 20)
	f := vp.F64("sampling interval")
	min := float64([]int{0, 100, 1000}[vp.Choice("server", 3)])
	nodeMin := float64([]int{0, 500}[vp.Choice("node", 2)])
	g.v.minimumSamplingInterval = nodeMin
	g.srv.serverCapabilities.MinSupportedSampleRate = min
	var res ua.CreateMonitoredItemsResponse
	g.request(&ua.CreateMonitoredItemsRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
		ItemToMonitor: ua.ReadValueID{NodeID: vpVarID, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeDisabled,
		RequestedParameters: ua.MonitoringParameters{ClientHandle: 5, SamplingInterval: f, QueueSize: 1}}}}, 3999)
	vp.Assert(g.take(3999, &res) == ua.Good && len(res.Results) == 1 && res.Results[0].StatusCode == ua.Good, "an item is created")
	r := res.Results[0].RevisedSamplingInterval
	lo := min
	if nodeMin > lo {
		lo = nodeMin
	}
	vp.Assert(r >= lo && r <= 60000, "the sampling interval granted is within the limits")
	if f >= lo && f <= 60000 {
		vp.Assert(r == f, "a sampling interval within the limits is granted as asked")
	}
	if f < 0 {
		vp.Reach("default")
		vp.Assert(r == g.sub.publishingInterval, "by default an item is sampled once per publishing interval")
	}
	it, ok := g.sub.FindItem(res.Results[0].MonitoredItemID)
	vp.Assert(ok && it.SamplingInterval() == r, "the item has the sampling interval the client was told")
}

// VP_C21_sampling: the last sample of each sampling interval is queued if it is a change.
func VP_C21_sampling() {
	g := vpPubSetup(5, 20)
	mi := g.item
	mi.notifications(10)
	mi.prequeue.Clear()
	mi.queue.Clear()
	t0 := time.Now()
	mi.ts, mi.ti = t0, 1000*time.Millisecond
	mi.previousQueuedValue = ua.NewDataValue(int32(0), ua.Good, vpTime, 0, t0, 0)
	at := 0
	last := [4]int32{-1, -1, -1, -1} // of each interval
	for i := 0; i < 4; i++ {
		at += []int{100, 600, 1100}[vp.Choice("after", 3)]
		v := int32(vp.Choice("value", 2))
		mi.prequeue.PushBack(ua.NewDataValue(v, ua.Good, vpTime, 0, t0.Add(time.Duration(at)*time.Millisecond), 0))
		k := (at + 999) / 1000
		if k <= 3 {
			last[k] = v
		}
	}
	var want []int32
	prev := int32(0)
	for k := 0; k <= 3; k++ {
		if last[k] >= 0 && last[k] != prev {
			prev = last[k]
			want = append(want, prev)
		}
	}
	avail := mi.notificationsAvailable(t0.Add(3500*time.Millisecond), false, false)
	vp.Assert(avail == (len(want) > 0), "notifications are available if there was a change")
	got, more := mi.notifications(10)
	ok := !more && len(got) == len(want)
	for i := range want {
		ok = ok && got[i].(ua.DataValue).Value.(int32) == want[i]
	}
	vp.Assert(ok, "the last sample of each sampling interval is queued if it is a change")
}

// VP_C21_timestamps: a notification carries the timestamps asked for.
func VP_C21_timestamps() {
	g := vpPubSetup(5, 20)
	g.sub.DeleteItem(g.item.ID())
	k := ua.TimestampsToReturn(vp.Choice("timestamps", 4))
	var res ua.CreateMonitoredItemsResponse
	g.request(&ua.CreateMonitoredItemsRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, TimestampsToReturn: k, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
		ItemToMonitor: ua.ReadValueID{NodeID: vpVarID, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting,
		RequestedParameters: ua.MonitoringParameters{ClientHandle: 9, QueueSize: 1}}}}, 3999)
	vp.Assert(g.take(3999, &res) == ua.Good && res.Results[0].StatusCode == ua.Good, "an item is created")
	it, _ := g.sub.FindItem(res.Results[0].MonitoredItemID)
	mi := it.(*DataChangeMonitoredItem)
	mi.ti = 0
	g.request(&ua.PublishRequest{RequestHeader: g.header(1)}, 4000)
	g.sub.publish(time.Now())
	vp.Drain()
	var p ua.PublishResponse
	vp.Assert(g.take(4000, &p) == ua.Good && len(p.NotificationMessage.NotificationData) == 1, "a message is sent")
	n := p.NotificationMessage.NotificationData[0].(ua.DataChangeNotification).MonitoredItems
	vp.Assert(len(n) == 1 && n[0].ClientHandle == 9, "a notification carries the handle of the client")
	v := n[0].Value
	src := k == ua.TimestampsToReturnSource || k == ua.TimestampsToReturnBoth
	srv := k == ua.TimestampsToReturnServer || k == ua.TimestampsToReturnBoth
	vp.Assert(v.SourceTimestamp.IsZero() == !src && v.ServerTimestamp.IsZero() == !srv, "a notification carries the timestamps asked for")
	if src {
		vp.Assert(v.SourceTimestamp.Equal(vpTime), "a notification carries the timestamps asked for")
	}
}

// VP_C21_resend: a client that asks for its data again gets the current value of every reporting item, once. One of the
// items monitors the diagnostics of its own subscription.
func VP_C21_resend() {
	vp.Limit("rand", 1)
	g := vpPubSetup(1000, 3000)
	g.sub.DeleteItem(g.item.ID())
	g.srv.serverDiagnostics = true
	g.srv.subscriptionManager.addDiagnosticsNode(g.sub)
	var items [2]*DataChangeMonitoredItem
	var modes [2]ua.MonitoringMode
	for i := range items {
		modes[i] = ua.MonitoringMode(vp.Choice("mode", 3))
		var n Node = g.v
		if i == 1 {
			n, _ = g.srv.namespaceManager.FindNode(g.sub.diagnosticsNodeId)
		}
		vp.Assert(n != nil, "the diagnostics of a subscription are there")
		items[i] = NewDataChangeMonitoredItem(g.sub, n, ua.ReadValueID{NodeID: n.NodeID(), AttributeID: ua.AttributeIDValue}, modes[i],
			ua.MonitoringParameters{ClientHandle: uint32(i), QueueSize: 10}, ua.TimestampsToReturnBoth, 0)
		g.sub.AppendItem(items[i])
		g.srv.Scheduler().GetPollGroup(time.Duration(items[i].samplingInterval) * time.Millisecond).Unsubscribe(items[i])
		items[i].ti = 0 // every sample
	}
	for round := 0; round < 3; round++ {
		asked := vp.Choice("resend", 2) == 1
		if asked {
			g.sub.resendData()
		}
		if vp.Choice("poll", 2) == 1 {
			items[0].Poll() // no change
		}
		id := uint32(4000 + round)
		g.request(&ua.PublishRequest{RequestHeader: g.header(1)}, id)
		vp.Assert(g.sub.publish(time.Now()) == nil, "publishing works")
		vp.Drain()
		var n [2]int
		if _, ok := g.next(); ok {
			var res ua.PublishResponse
			vp.Assert(g.take(id, &res) == ua.Good, "publishing works")
			for _, nd := range res.NotificationMessage.NotificationData {
				if l, ok := nd.(ua.DataChangeNotification); ok {
					for _, m := range l.MonitoredItems {
						if m.ClientHandle < 2 {
							n[m.ClientHandle]++
						}
						if m.ClientHandle == 0 {
							vp.Assert(m.Value.Value == int32(0) && m.Value.StatusCode.IsGood(), "the current value is sent again")
						}
					}
				}
			}
		} else {
			for i := range modes {
				vp.Assert(!asked && round > 0 || modes[i] != ua.MonitoringModeReporting, "values are sent again when asked for")
			}
			vp.Stop()
		}
		for i := range n {
			want := 0
			if modes[i] == ua.MonitoringModeReporting && (round == 0 || asked) {
				want = 1
			}
			vp.Assert(n[i] == want, "the value of every item that reports is sent first, and again when asked for, once")
		}
	}
	vp.Reach("done")
}
