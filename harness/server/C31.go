package server

import (
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:use pub
//vp:bound any timeout hint and three ages of a request; 64 requests waiting and up to 2 more; two subscriptions with any priorities in histories of up to 5 events (thorough: 6)
//vp:outside requests within 20 s of their timeout (the clock runs on), requests that race

// VP_C31_timeout: a request that timed out is answered so and the next one is used; without a hint none times out.
func VP_C31_timeout() {
	g := vpPubSetup(5, 20)
	used := -1
	for i := 0; i < 2; i++ {
		age, hint := []uint32{0, 90000, 4000000}[vp.Choice("age", 3)], vp.U32("timeout hint")
		d := int64(hint) - int64(age)
		vp.Assume(d > 20000 || d < -20000 || hint == 0)
		h := g.header(uint32(5000 + i))
		h.Timestamp = time.Now().Add(-time.Duration(age) * time.Millisecond)
		h.TimeoutHint = hint
		g.request(&ua.PublishRequest{RequestHeader: h}, uint32(4000+i))
		if used < 0 && (hint == 0 || d > 0) {
			used = i
		}
	}
	_, ok := g.next()
	vp.Assert(!ok, "a publish request waits until a message is due")
	g.sub.publish(time.Now())
	vp.Drain()
	for i := 0; i < 2; i++ {
		if used >= 0 && i > used {
			break
		}
		id, ok := g.next()
		vp.Assert(ok && id == uint32(4000+i), "requests are answered in order")
		if !ok {
			vp.Stop()
		}
		var res ua.PublishResponse
		st := g.take(id, &res)
		if i == used {
			vp.Reach("used")
			vp.Assert(st == ua.Good && res.RequestHandle == uint32(5000+i), "a request that has not timed out is used for the message")
		} else {
			vp.Reach("timed out")
			vp.Assert(st == ua.BadTimeout, "a request that timed out is answered so")
		}
	}
	_, ok = g.next()
	vp.Assert(!ok, "requests are answered once")
}

// VP_C31_full: no more requests wait than the limit, the oldest one makes room and is told.
func VP_C31_full() {
	g := vpPubSetup(5, 20)
	limit := cap(g.s.publishRequests)
	for i := 0; i < limit; i++ {
		g.s.addPublishRequest(g.ch, uint32(100+i), &ua.PublishRequest{RequestHeader: g.header(uint32(1000 + i))}, nil)
	}
	_, ok := g.next()
	vp.Assert(!ok, "requests wait up to the limit")
	n := vp.Choice("more", 3)
	for i := 0; i < n; i++ {
		g.request(&ua.PublishRequest{RequestHeader: g.header(uint32(5000 + i))}, uint32(4000+i))
		id, ok := g.next()
		vp.Assert(ok && id == uint32(100+i), "the oldest request makes room")
		if !ok {
			vp.Stop()
		}
		var res ua.PublishResponse
		vp.Assert(g.take(id, &res) == ua.BadTooManyPublishRequests, "the oldest request is told that there are too many")
		_, ok = g.next()
		vp.Assert(!ok, "the oldest request makes room")
	}
	g.sub.publish(time.Now())
	vp.Drain()
	id, ok := g.next()
	vp.Assert(ok && id == uint32(100+n), "the oldest request is used first")
}

type vpShared struct {
	sub     *Subscription
	item    *DataChangeMonitoredItem
	prio    byte
	waiting bool
	late    bool
	started bool
	quiet   int
	seq     uint32
	gone    bool
}

// VP_C31_shared: the requests of a session serve all its subscriptions: each request is answered once, in order, and
// among subscriptions that are late the one of highest priority goes first. Without any subscription left the requests
// that wait, and new ones, are refused.
func VP_C31_shared() {
	g := vpPubSetup(3, 20)
	var subs [2]*vpShared
	subs[0] = &vpShared{sub: g.sub, item: g.item, waiting: true, seq: 1}
	s2 := g.newSub(3, 20)
	subs[1] = &vpShared{sub: s2, item: g.newItem(s2, ua.MonitoringParameters{ClientHandle: 6, QueueSize: 10}, ua.MonitoringModeReporting), waiting: true, seq: 1}
	for _, s := range subs {
		s.prio = vp.U8("priority")
		s.sub.priority = s.prio
	}
	// somebody else's subscription does not matter
	other := vpSession(g.srv, 2, 8, ua.AnonymousIdentity{})
	so := NewSubscription(g.srv.subscriptionManager, other, 60000, 20, 3, 0, true, 0)
	g.srv.subscriptionManager.subscriptionsByID[so.id] = so
	var pending []uint32
	value := int32(0)
	message := func(s *vpShared, id uint32) {
		got, ok := g.next()
		vp.Assert(ok && got == id, "a message that is due goes out with the oldest request")
		if !ok {
			vp.Stop()
		}
		var res ua.PublishResponse
		st := g.take(id, &res)
		vp.Assert(st == ua.Good && res.SubscriptionID == s.sub.id, "the subscription of highest priority that is late goes first")
		vp.Assert(res.RequestHandle == id+1000, "the answer carries the handle of its request")
		vp.Assert(res.NotificationMessage.SequenceNumber == s.seq, "each subscription numbers its own messages")
		vp.Assert((len(res.NotificationMessage.NotificationData) > 0) == s.waiting, "a message carries what waits")
		if s.waiting {
			s.seq++
		}
		s.waiting, s.late, s.started, s.quiet = false, false, true, 0
	}
	silent := func() {
		_, ok := g.next()
		vp.Assert(!ok, "nothing else is sent")
	}
	for i := 0; i < vp.Bound(5, 6); i++ {
		id := uint32(4000 + i)
		switch op := vp.Choice("event", 5); op {
		case 0, 1: // an interval of one of the subscriptions, with a new value
			s := subs[op]
			if s.gone {
				vp.Stop()
			}
			value++
			if vp.Bool("value") {
				g.sample(s.item, value)
				s.waiting = true
			}
			s.sub.publish(time.Now())
			vp.Drain()
			s.quiet++
			if s.waiting || s.quiet >= 3 || !s.started {
				if len(pending) > 0 {
					message(s, pending[0])
					pending = pending[1:]
				} else {
					s.late = true
				}
			}
		case 2:
			g.request(&ua.PublishRequest{RequestHeader: g.header(id + 1000)}, id)
			if subs[0].gone && subs[1].gone {
				got, ok := g.next()
				vp.Assert(ok && got == id, "without subscription a publish request is refused")
				if !ok {
					vp.Stop()
				}
				var res ua.PublishResponse
				vp.Assert(g.take(id, &res) == ua.BadNoSubscription, "without subscription a publish request is refused")
				break
			}
			a, b := subs[0], subs[1]
			al, bl := a.late && !a.gone, b.late && !b.gone
			switch {
			case al && bl && a.prio == b.prio:
				vp.Stop() // either may be first
			case al && (!bl || a.prio > b.prio):
				vp.Reach("late")
				message(a, id)
			case bl:
				vp.Reach("late")
				message(b, id)
			default:
				pending = append(pending, id)
			}
		default:
			s := subs[op-3]
			var res ua.DeleteSubscriptionsResponse
			g.request(&ua.DeleteSubscriptionsRequest{RequestHeader: g.header(1), SubscriptionIDs: []uint32{s.sub.id}}, id)
			got, ok := g.next()
			vp.Assert(ok && got == id, "deleting a subscription is answered")
			st := g.take(id, &res)
			vp.Assert(st == ua.Good && len(res.Results) == 1 && (res.Results[0] == ua.Good) == !s.gone, "a subscription can be deleted once")
			s.gone = true
			if subs[0].gone && subs[1].gone {
				for _, id := range pending {
					vp.Reach("drained")
					got, ok := g.next()
					vp.Assert(ok && got == id, "without subscription requests that wait are refused")
					if !ok {
						vp.Stop()
					}
					var res ua.PublishResponse
					vp.Assert(g.take(id, &res) == ua.BadNoSubscription, "without subscription requests that wait are refused")
				}
				pending = nil
			}
		}
		silent()
	}
}
