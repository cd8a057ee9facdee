package server

import (
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

// vpPub is a session with a subscription that reports a variable, and what is expected of it.
type vpPub struct {
	srv   *Server
	conn  *vpConn
	ch    *serverSecureChannel
	s     *Session
	sub   *Subscription
	v     *VariableNode
	item  *DataChangeMonitoredItem
	event *EventMonitoredItem
	seen  int // messages of the connection handled
}

func vpPubSetup(keep, life uint32) *vpPub {
	g := &vpPub{srv: vpServer()}
	g.s = vpSession(g.srv, 1, 7, ua.AnonymousIdentity{})
	g.conn, g.ch = vpSrvChannel(g.srv, 7)
	g.v = vpAddVariable(g.srv, vpVarID, int32(0), ua.DataTypeIDInt32, -1, 3)
	g.sub = g.newSub(keep, life)
	g.item = g.newItem(g.sub, ua.MonitoringParameters{ClientHandle: 5, QueueSize: 10}, ua.MonitoringModeReporting)
	return g
}

func (g *vpPub) newSub(keep, life uint32) *Subscription {
	sub := NewSubscription(g.srv.subscriptionManager, g.s, 60000, life, keep, 0, true, 0)
	sub.maxKeepAliveCount, sub.maxLifetimeCount = keep, life
	sub.startPublishing()
	g.srv.subscriptionManager.subscriptionsByID[sub.id] = sub
	return sub
}

func (g *vpPub) newItem(sub *Subscription, p ua.MonitoringParameters, mode ua.MonitoringMode) *DataChangeMonitoredItem {
	mi := NewDataChangeMonitoredItem(sub, g.v, ua.ReadValueID{NodeID: vpVarID, AttributeID: ua.AttributeIDValue}, mode, p, ua.TimestampsToReturnBoth, 0)
	sub.AppendItem(mi)
	g.srv.Scheduler().GetPollGroup(0).Unsubscribe(mi) // polled by the harness alone
	return mi
}

// sample gives the variable a value and has the item sample it.
func (g *vpPub) sample(mi *DataChangeMonitoredItem, v ua.Variant) {
	g.v.SetValue(ua.NewDataValue(v, ua.Good, vpTime, 0, time.Now(), 0))
	mi.Poll()
}

// request sends a request of the session; the answers are left to be taken.
func (g *vpPub) request(req ua.ServiceRequest, id uint32) {
	vp.Assert(g.srv.handleRequest(g.ch, req, id) == nil, "the request is accepted")
	vp.Drain()
}

func (g *vpPub) header(handle uint32) ua.RequestHeader {
	h := vpHeader(1)
	h.RequestHandle = handle
	h.Timestamp = time.Now()
	h.TimeoutHint = 1 << 31
	return h
}

// next takes the next message sent to the client: the id of the request it answers.
func (g *vpPub) next() (uint32, bool) {
	if len(g.conn.out) <= g.seen {
		return 0, false
	}
	return vpLE32(g.conn.out[g.seen][20:]), true
}

func (g *vpPub) take(id uint32, res ua.ServiceResponse) ua.StatusCode {
	g.seen++
	return vpReply(g.conn, g.seen-1, id, res)
}
