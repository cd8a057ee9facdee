package server

import (
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:use pub
//vp:bound one subscription with one item, keep-alive after 2 and lifetime of 3 publishing intervals; histories of up to 5 events (thorough: 6) out of: interval elapses with and without new value, publish request with acknowledgement, republish request, publishing switched
//vp:outside the accuracy of the timer, events that race with each other

const (
	vpKeep = 2
	vpLife = 3
)

type vpSent struct {
	seq  uint32
	vals []int32
}

// vpPubModel is what the client may rely on.
type vpPubModel struct {
	*vpPub
	enabled bool
	waiting []int32  // values sampled and not yet sent
	pending []uint32 // ids of publish requests not answered
	acks    map[uint32]ua.StatusCode
	kept    []vpSent // messages sent and not acknowledged
	seq     uint32   // of the next message
	value   int32
	quiet   int // intervals since the last message
	starved int // intervals since the last publish request was answered
	started bool
	late    bool
	dead    bool
	gone    bool // the client knows
}

// message checks a message to the client: it answers the oldest publish request and is the one that was due.
func (m *vpPubModel) message(data, keepalive bool) {
	id, ok := m.next()
	if !data && !keepalive {
		vp.Assert(!ok, "nothing is sent unless a message is due and a publish request waits")
		return
	}
	vp.Assert(ok, "a message that is due is sent as soon as a publish request waits")
	if !ok {
		vp.Stop()
	}
	vp.Assert(id == m.pending[0], "a message answers the oldest publish request")
	m.pending = m.pending[1:]
	var res ua.PublishResponse
	st := m.take(id, &res)
	vp.Assert(st == ua.Good && res.SubscriptionID == m.sub.id, "a message names its subscription")
	vp.Assert(res.RequestHandle == id+1000, "the answer carries the handle of its request")
	n := res.NotificationMessage
	vp.Assert(n.SequenceNumber == m.seq, "sequence numbers are consecutive, a keep-alive message announces the next one")
	if ack, ok := m.acks[id]; ok {
		vp.Assert(len(res.Results) == 1 && res.Results[0] == ack, "each acknowledgement is answered with its result")
	} else {
		vp.Assert(len(res.Results) == 0, "each acknowledgement is answered with its result")
	}
	if data {
		vp.Reach("data")
		vp.Assert(len(n.NotificationData) == 1, "a message carries the changes")
		dcn, ok := n.NotificationData[0].(ua.DataChangeNotification)
		vp.Assert(ok && m.sameValues(dcn, m.waiting), "a message carries every change since the last one, once and in order")
		m.kept = append(m.kept, vpSent{m.seq, m.waiting})
		m.waiting = nil
		m.seq++
	} else {
		vp.Reach("keep-alive")
		vp.Assert(len(n.NotificationData) == 0, "a keep-alive message carries nothing")
	}
	vp.Assert(!res.MoreNotifications, "a message carries every change since the last one, once and in order")
	ok = len(res.AvailableSequenceNumbers) == len(m.kept)
	for i := range m.kept {
		ok = ok && res.AvailableSequenceNumbers[i] == m.kept[i].seq
	}
	vp.Assert(ok, "the sequence numbers available are those sent and not acknowledged")
	m.quiet, m.starved, m.started, m.late = 0, 0, true, false
	_, ok = m.next()
	vp.Assert(!ok, "a message is sent once")
}

func (m *vpPubModel) sameValues(n ua.DataChangeNotification, want []int32) bool {
	if len(n.MonitoredItems) != len(want) {
		return false
	}
	for i, x := range n.MonitoredItems {
		if v, ok := x.Value.Value.(int32); !ok || v != want[i] || x.ClientHandle != 5 {
			return false
		}
	}
	return true
}

func (m *vpPubModel) tick() {
	m.sub.publish(time.Now())
	vp.Drain()
	if m.dead {
		m.message(false, false)
		return
	}
	data := m.enabled && len(m.waiting) > 0
	m.quiet++
	due := data || m.quiet >= vpKeep || !m.started
	if !due {
		m.message(false, false)
		return
	}
	if len(m.pending) > 0 {
		m.message(data, !data)
		return
	}
	m.message(false, false)
	m.late = true
	m.starved++
	if m.starved == vpLife {
		vp.Reach("expired")
		m.dead = true
	}
	_, alive := m.srv.subscriptionManager.Get(m.sub.id)
	vp.Assert(alive == !m.dead, "a subscription lives until no publish request came for its lifetime, and no longer")
}

// publish sends a publish request that acknowledges a message.
func (m *vpPubModel) publish(i int, ack bool) {
	id := uint32(4000 + i)
	req := &ua.PublishRequest{RequestHeader: m.header(id + 1000)}
	if ack {
		a := ua.SubscriptionAcknowledgement{SubscriptionID: vp.U32("ack subscription"), SequenceNumber: vp.U32("ack")}
		req.SubscriptionAcknowledgements = []ua.SubscriptionAcknowledgement{a}
		r := ua.StatusCode(ua.BadSubscriptionIDInvalid)
		if a.SubscriptionID == m.sub.id && !m.dead {
			r = ua.BadSequenceNumberUnknown
			for j, k := range m.kept {
				if a.SequenceNumber == k.seq {
					vp.Reach("acknowledged")
					r = ua.Good
					m.kept = append(append([]vpSent{}, m.kept[:j]...), m.kept[j+1:]...)
					break
				}
			}
		}
		m.acks[id] = r
	}
	m.request(req, id)
	if m.dead {
		got, ok := m.next()
		vp.Assert(ok && got == id, "a publish request without subscription is answered at once")
		var res ua.PublishResponse
		st := m.take(id, &res)
		if m.gone {
			vp.Assert(st == ua.BadNoSubscription, "a publish request without subscription is refused")
			return
		}
		vp.Reach("told")
		m.gone = true
		n := res.NotificationMessage
		vp.Assert(st == ua.Good && res.SubscriptionID == m.sub.id && n.SequenceNumber == m.seq && len(n.NotificationData) == 1, "the client is told that the subscription expired")
		sc, ok := n.NotificationData[0].(ua.StatusChangeNotification)
		vp.Assert(ok && sc.Status == ua.BadTimeout, "the client is told that the subscription expired")
		return
	}
	m.pending = append(m.pending, id)
	if m.late {
		data := m.enabled && len(m.waiting) > 0
		keepalive := !data && (m.quiet >= vpKeep || !m.started)
		m.message(data, keepalive)
		return
	}
	m.message(false, false)
}

func (m *vpPubModel) republish(i int) {
	id := uint32(4000 + i)
	seq := vp.U32("republish")
	m.request(&ua.RepublishRequest{RequestHeader: m.header(id + 1000), SubscriptionID: m.sub.id, RetransmitSequenceNumber: seq}, id)
	got, ok := m.next()
	vp.Assert(ok && got == id, "a republish request is answered")
	var res ua.RepublishResponse
	st := m.take(id, &res)
	if m.dead {
		vp.Assert(st == ua.BadSubscriptionIDInvalid, "nothing is republished of an expired subscription")
		return
	}
	for _, k := range m.kept {
		if k.seq == seq {
			vp.Reach("republished")
			n := res.NotificationMessage
			vp.Assert(st == ua.Good && n.SequenceNumber == seq && len(n.NotificationData) == 1, "a message sent and not acknowledged can be had again")
			dcn, ok := n.NotificationData[0].(ua.DataChangeNotification)
			vp.Assert(ok && m.sameValues(dcn, k.vals), "a message sent and not acknowledged can be had again")
			m.starved = 0
			return
		}
	}
	m.starved = 0
	vp.Assert(st == ua.BadMessageNotAvailable, "a message never sent, or acknowledged, cannot be had")
}

// VP_C20_history: every history of a subscription.
func VP_C20_history() {
	m := &vpPubModel{vpPub: vpPubSetup(vpKeep, vpLife), enabled: true, seq: 1, acks: map[uint32]ua.StatusCode{}, waiting: []int32{0}}
	n := vp.Bound(5, 6)
	for i := 0; i < n; i++ {
		switch vp.Choice("event", 6) {
		case 0:
			m.tick()
		case 1:
			m.value++
			m.sample(m.item, m.value)
			if !m.dead {
				m.waiting = append(m.waiting, m.value)
			}
			m.tick()
		case 2:
			m.publish(i, false)
		case 3:
			m.publish(i, true)
		case 4:
			m.republish(i)
		default:
			m.enabled = !m.enabled
			var res ua.SetPublishingModeResponse
			id := uint32(4000 + i)
			m.request(&ua.SetPublishingModeRequest{RequestHeader: m.header(1), PublishingEnabled: m.enabled, SubscriptionIDs: []uint32{m.sub.id}}, id)
			m.take(id, &res)
			want := ua.StatusCode(ua.Good)
			if m.dead {
				want = ua.BadSubscriptionIDInvalid
			}
			vp.Assert(len(res.Results) == 1 && res.Results[0] == want, "publishing is switched")
			m.starved = 0
		}
	}
}

// VP_C20_split: whatever the limit on notifications, two items' changes all arrive, each item's in order, and the client
// is told when more is to come.
func VP_C20_split() {
	g := vpPubSetup(5, 20)
	mi2 := g.newItem(g.sub, ua.MonitoringParameters{ClientHandle: 6, QueueSize: 10}, ua.MonitoringModeReporting)
	max := vp.U32("max")
	vp.Assume(max >= 1)
	var res ua.ModifySubscriptionResponse
	g.request(&ua.ModifySubscriptionRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, RequestedPublishingInterval: 60000, RequestedMaxKeepAliveCount: 1, RequestedLifetimeCount: 20, MaxNotificationsPerPublish: max}, 3999)
	g.take(3999, &res)
	want := map[uint32][]int32{5: {0}, 6: {0}}
	for i := vp.Choice("values", vp.Bound(3, 4)); i > 0; i-- {
		g.sample(g.item, int32(i))
		want[5] = append(want[5], int32(i))
		if i%2 == 0 {
			mi2.Poll()
			want[6] = append(want[6], int32(i))
		}
	}
	total := len(want[5]) + len(want[6])
	late := vp.Bool("late")
	for i := 0; total > 0; i++ {
		if late {
			g.sub.publish(time.Now())
		}
		id := uint32(4000 + i)
		g.request(&ua.PublishRequest{RequestHeader: g.header(1)}, id)
		if !late {
			g.sub.publish(time.Now())
			vp.Drain()
		}
		got, ok := g.next()
		vp.Assert(ok && got == id, "changes are sent while there are any")
		if !ok || got != id {
			vp.Stop()
		}
		var res ua.PublishResponse
		st := g.take(id, &res)
		n := 0
		for _, d := range res.NotificationMessage.NotificationData {
			dcn, ok := d.(ua.DataChangeNotification)
			vp.Assert(ok, "a message carries changes")
			for _, x := range dcn.MonitoredItems {
				w := want[x.ClientHandle]
				v, ok := x.Value.Value.(int32)
				vp.Assert(ok && len(w) > 0 && v == w[0], "each item's changes arrive once and in order")
				if len(w) == 0 {
					vp.Stop()
				}
				want[x.ClientHandle] = w[1:]
				n++
			}
		}
		vp.Assert(st == ua.Good && n > 0 && uint64(n) <= uint64(max), "a message carries no more notifications than the client asked for")
		vp.Assert(res.NotificationMessage.SequenceNumber == uint32(i+1), "sequence numbers are consecutive, a keep-alive message announces the next one")
		if total > int(max) {
			vp.Reach("split")
			vp.Assert(uint32(n) == max, "a message carries as many notifications as it may")
		}
		total -= n
		vp.Assert(res.MoreNotifications == (total > 0), "the client is told whether more is to come")
	}
}

// VP_C20_wrap: sequence numbers go on after the largest, without zero.
func VP_C20_wrap() {
	g := vpPubSetup(5, 20)
	seq := vp.U32("sequence number")
	vp.Assume(seq != 0)
	g.sub.nextSequenceNumber = seq
	for i := 0; i < 3; i++ {
		g.sample(g.item, int32(i+1))
		id := uint32(4000 + i)
		late := vp.Bool("late")
		if late {
			g.sub.publish(time.Now())
		}
		g.request(&ua.PublishRequest{RequestHeader: g.header(1)}, id)
		if !late {
			g.sub.publish(time.Now())
			vp.Drain()
		}
		var res ua.PublishResponse
		vp.Assert(g.take(id, &res) == ua.Good && res.NotificationMessage.SequenceNumber == seq, "sequence numbers go on after the largest, without zero")
		seq++
		if seq == 0 {
			vp.Reach("wrapped")
			seq = 1
		}
	}
}

// VP_C20_retransmit: of the messages not acknowledged the latest are kept for retransmission, a bounded number.
func VP_C20_retransmit() {
	g := vpPubSetup(5, 20)
	n := maxRetransmissionQueueLength + 2
	ask := vp.U32("republish")
	late := vp.Bool("late")
	for i := 0; i < n-3; i++ {
		g.sub.retransmissionQueue.PushBack(ua.NotificationMessage{SequenceNumber: uint32(i + 1)})
	}
	g.sub.nextSequenceNumber = uint32(n - 2)
	for i := n - 3; i < n; i++ {
		g.sample(g.item, int32(i+1))
		id := uint32(4000 + i)
		if late {
			g.sub.publish(time.Now())
		}
		g.request(&ua.PublishRequest{RequestHeader: g.header(1)}, id)
		if !late {
			g.sub.publish(time.Now())
			vp.Drain()
		}
		if i < n-1 {
			g.seen++
			continue
		}
		var res ua.PublishResponse
		vp.Assert(g.take(id, &res) == ua.Good, "the latest messages are kept for retransmission")
		a := res.AvailableSequenceNumbers
		vp.Assert(len(a) == maxRetransmissionQueueLength, "the latest messages are kept for retransmission")
		for j := range a {
			vp.Assert(a[j] == uint32(n-len(a)+1+j), "the latest messages are kept for retransmission")
		}
	}
	g.request(&ua.RepublishRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, RetransmitSequenceNumber: ask}, 5000)
	var res ua.RepublishResponse
	st := g.take(5000, &res)
	if ask > uint32(n-maxRetransmissionQueueLength) && ask <= uint32(n) {
		vp.Assert(st == ua.Good && res.NotificationMessage.SequenceNumber == ask, "the latest messages are kept for retransmission")
	} else {
		vp.Assert(st == ua.BadMessageNotAvailable, "a message never sent, or dropped, cannot be had")
	}
}

// VP_C20_rhythm: keep-alives and the end of the lifetime come at the right interval however requests and values come.
func VP_C20_rhythm() {
	m := &vpPubModel{vpPub: vpPubSetup(vpKeep, vpLife), enabled: true, seq: 1, acks: map[uint32]ua.StatusCode{}, waiting: []int32{0}}
	n := vp.Bound(6, 7)
	for i := 0; i < n; i++ {
		e := vp.Choice("interval", 4)
		if e&1 == 1 {
			m.publish(i, false)
		}
		if e&2 == 2 {
			m.value++
			m.sample(m.item, m.value)
			if !m.dead {
				m.waiting = append(m.waiting, m.value)
			}
		}
		m.tick()
		if m.gone {
			vp.Stop()
		}
	}
}
