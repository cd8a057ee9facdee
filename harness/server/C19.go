package server

import (
	"math"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:bound any publishing interval with two lifetimes, and any counts together with nine intervals; every limit on notifications; up to 3 subscriptions and a limit of up to 2
//vp:assume the remainder of a division of symbolic floating point numbers may be any number
//vp:outside the accuracy of the timer

// vpRevise creates a subscription with the parameters, or creates one and modifies it, and returns what the client is
// told.
func vpRevise(interval float64, life, keep, max uint32, prio byte, enabled bool) (float64, uint32, uint32, *Subscription) {
	srv := vpServer()
	vpSession(srv, 1, 7, ua.AnonymousIdentity{})
	conn, ch := vpSrvChannel(srv, 7)
	var res ua.CreateSubscriptionResponse
	if vp.Choice("modify", 2) == 0 {
		st := vpDo(srv, conn, ch, &ua.CreateSubscriptionRequest{RequestHeader: vpHeader(1), RequestedPublishingInterval: interval, RequestedLifetimeCount: life,
			RequestedMaxKeepAliveCount: keep, MaxNotificationsPerPublish: max, PublishingEnabled: enabled, Priority: prio}, &res)
		vp.Assert(st == ua.Good, "a subscription can be created")
		sub, ok := srv.subscriptionManager.Get(res.SubscriptionID)
		vp.Assert(ok, "a subscription can be created")
		return res.RevisedPublishingInterval, res.RevisedLifetimeCount, res.RevisedMaxKeepAliveCount, sub
	}
	st := vpDo(srv, conn, ch, &ua.CreateSubscriptionRequest{RequestHeader: vpHeader(1), RequestedPublishingInterval: 500, PublishingEnabled: enabled}, &res)
	vp.Assert(st == ua.Good, "a subscription can be created")
	var mod ua.ModifySubscriptionResponse
	st = vpDo(srv, conn, ch, &ua.ModifySubscriptionRequest{RequestHeader: vpHeader(1), SubscriptionID: res.SubscriptionID, RequestedPublishingInterval: interval, RequestedLifetimeCount: life,
		RequestedMaxKeepAliveCount: keep, MaxNotificationsPerPublish: max, Priority: prio}, &mod)
	vp.Assert(st == ua.Good, "a subscription can be modified")
	sub, ok := srv.subscriptionManager.Get(res.SubscriptionID)
	vp.Assert(ok, "a subscription can be modified")
	return mod.RevisedPublishingInterval, mod.RevisedLifetimeCount, mod.RevisedMaxKeepAliveCount, sub
}

func vpCheckRevised(interval float64, life, keep uint32, p float64, l, k uint32, sub *Subscription) {
	vp.Assert(p >= 125 && p <= 60000, "the publishing interval granted is within the limits of the server")
	if interval >= 125 && interval <= 60000 {
		vp.Assert(p == interval, "an interval within the limits is granted as asked")
	}
	vp.Assert(k >= 1, "a subscription sends keep-alive messages")
	vp.Assert(float64(k)*p < 60000+p, "keep-alive messages are not further apart than the longest publishing interval")
	if keep > 0 && float64(keep)*p <= 60000 {
		vp.Assert(k == keep, "a keep-alive count within the limits is granted as asked")
	}
	vp.Assert(uint64(l) >= 3*uint64(k), "the lifetime is at least three keep-alive intervals")
	vp.Assert(float64(l)*p < 3600000+p, "the lifetime is not longer than the server allows")
	vp.Assert(float64(l)*p >= 10000, "the lifetime is not shorter than the server allows")
	if lt := float64(life) * p; lt >= 10000 && lt <= 3600000 && uint64(life) >= 3*uint64(k) {
		vp.Assert(l == life, "a lifetime within the limits is granted as asked")
	}
	vp.Assert(sub.publishingInterval == p && sub.maxLifetimeCount == l && sub.maxKeepAliveCount == k, "the subscription has the parameters the client was told")
}

// VP_C19_interval: any publishing interval.
func VP_C19_interval() {
	interval := vp.F64("interval")
	life := []uint32{0, 100}[vp.Choice("lifetime", 2)]
	p, l, k, sub := vpRevise(interval, life, 0, 0, 0, true)
	vp.Assert(p >= 125 && p <= 60000, "the publishing interval granted is within the limits of the server")
	if interval >= 125 && interval <= 60000 {
		vp.Assert(p == interval, "an interval within the limits is granted as asked")
	}
	vp.Assert(k >= 1, "a subscription sends keep-alive messages")
	vp.Assert(uint64(l) >= 3*uint64(k), "the lifetime is at least three keep-alive intervals")
	vp.Assert(sub.publishingInterval == p && sub.maxLifetimeCount == l && sub.maxKeepAliveCount == k, "the subscription has the parameters the client was told")
}

// VP_C19_counts: any counts.
func VP_C19_counts() {
	interval := []float64{0, 125, 125.5, 333.3, 1000, 59999.9, 60000, math.Inf(1), math.NaN()}[vp.Choice("interval", 9)]
	life, keep, max := vp.U32("lifetime"), vp.U32("keep-alive"), vp.U32("max notifications")
	prio, enabled := vp.U8("priority"), vp.Bool("enabled")
	p, l, k, sub := vpRevise(interval, life, keep, max, prio, enabled)
	vpCheckRevised(interval, life, keep, p, l, k, sub)
	vp.Assert(sub.priority == prio && sub.publishingEnabled == enabled, "the subscription has the parameters asked for")
	if max > 0 {
		vp.Assert(sub.maxNotificationsPerPublish == max, "the limit on notifications is the one asked for")
	} else {
		vp.Assert(sub.maxNotificationsPerPublish >= 1<<30, "without limit any number of notifications is sent")
	}
}

// VP_C19_limit: there are never more subscriptions than allowed, every one allowed can be created, ids are unique, and
// a deleted one frees its place; publishing is switched for the subscriptions named.
func VP_C19_limit() {
	srv := vpServer()
	max := vp.Choice("max", 3)
	srv.subscriptionManager.maxSubscriptionCount = max
	vpSession(srv, 1, 7, ua.AnonymousIdentity{})
	conn, ch := vpSrvChannel(srv, 7)
	var ids []uint32
	var on []bool
	for i := 0; i < vp.Bound(4, 6); i++ {
		switch vp.Choice("op", 3) {
		case 0:
			var res ua.CreateSubscriptionResponse
			e := vp.Bool("enabled")
			st := vpDo(srv, conn, ch, &ua.CreateSubscriptionRequest{RequestHeader: vpHeader(1), PublishingEnabled: e}, &res)
			if max > 0 && len(ids) >= max {
				vp.Reach("full")
				vp.Assert(st == ua.BadTooManySubscriptions, "there are never more subscriptions than allowed")
				break
			}
			vp.Assert(st == ua.Good && res.SubscriptionID != 0, "a subscription that is allowed is created")
			for _, id := range ids {
				vp.Assert(id != res.SubscriptionID, "each subscription has an id of its own")
			}
			ids, on = append(ids, res.SubscriptionID), append(on, e)
		case 1:
			unknown := vp.U32("unknown")
			for _, id := range ids {
				vp.Assume(unknown != id)
			}
			var res ua.DeleteSubscriptionsResponse
			req := []uint32{unknown}
			if len(ids) > 0 {
				req = append(req, ids[0])
			}
			st := vpDo(srv, conn, ch, &ua.DeleteSubscriptionsRequest{RequestHeader: vpHeader(1), SubscriptionIDs: req}, &res)
			vp.Assert(st == ua.Good && len(res.Results) == len(req) && res.Results[0] == ua.BadSubscriptionIDInvalid, "an unknown subscription cannot be deleted")
			if len(ids) > 0 {
				vp.Reach("deleted")
				vp.Assert(res.Results[1] == ua.Good, "a subscription can be deleted")
				ids, on = ids[1:], on[1:]
			}
		default:
			e := vp.Bool("enable")
			var res ua.SetPublishingModeResponse
			req := []uint32{0}
			if len(ids) > 0 {
				req = append(req, ids[len(ids)-1])
			}
			st := vpDo(srv, conn, ch, &ua.SetPublishingModeRequest{RequestHeader: vpHeader(1), SubscriptionIDs: req, PublishingEnabled: e}, &res)
			vp.Assert(st == ua.Good && len(res.Results) == len(req) && res.Results[0] == ua.BadSubscriptionIDInvalid, "publishing of an unknown subscription cannot be switched")
			if len(ids) > 0 {
				vp.Assert(res.Results[1] == ua.Good, "publishing can be switched")
				on[len(ids)-1] = e
			}
		}
		vp.Assert(srv.subscriptionManager.Len() == len(ids), "the subscriptions are those created and not deleted")
		for i, id := range ids {
			sub, ok := srv.subscriptionManager.Get(id)
			vp.Assert(ok && sub.publishingEnabled == on[i], "each subscription publishes as switched last")
		}
	}
}
