package server

import (
	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:use pub
//vp:use batch
//vp:bound up to 3 operations (thorough: 4) of each of the 16 services that take a list, each on something that exists or does not, any operation limit from 1 to 2^31-1, any timestamps to return
//vp:outside a limit of zero, lists longer than that; services that create or change several things at once are compared by the results and by what they did

// VP_C27_batch: each operation of a request has its result, in order; none or too many are refused and nothing is done.
func VP_C27_batch() {
	g := &vpPub{srv: vpServer()}
	g.s = vpSession(g.srv, 1, 7, ua.AnonymousIdentity{})
	g.conn, g.ch = vpSrvChannel(g.srv, 7)
	g.v = vpAddVariable(g.srv, vpVarID, int32(0), ua.DataTypeIDInt32, -1, 3)
	g.sub = g.newSub(10, 30)
	g.item = g.newItem(g.sub, ua.MonitoringParameters{ClientHandle: 5, QueueSize: 10}, ua.MonitoringModeReporting)
	calls := 0
	m := NewMethodNode(g.srv, vpN(201), ua.QualifiedName{Name: "m"}, ua.LocalizedText{}, ua.LocalizedText{}, nil, nil, true)
	m.SetCallMethodHandler(func(_ *Session, _ ua.CallMethodRequest) ua.CallMethodResult {
		calls++
		return ua.CallMethodResult{}
	})
	g.srv.namespaceManager.nodes[vpN(200)] = NewObjectNode(g.srv, vpN(200), ua.QualifiedName{Name: "o"}, ua.LocalizedText{}, ua.LocalizedText{}, nil, []ua.Reference{ua.NewReference(ua.ReferenceTypeIDOrganizes, false, ua.NewExpandedNodeID(vpN(201)))}, 0)
	g.srv.namespaceManager.nodes[vpN(201)] = m
	bs := vpBatches(g, &calls)
	b := bs[vp.Choice("service", len(bs))]
	limit := vp.U32("limit")
	vp.Assume(limit >= 1 && limit < 1<<31)
	if b.limit != nil {
		l := &ua.OperationLimits{MaxNodesPerRead: 100, MaxNodesPerWrite: 100, MaxNodesPerMethodCall: 100, MaxNodesPerBrowse: 100, MaxNodesPerTranslateBrowsePathsToNodeIds: 100, MaxMonitoredItemsPerCall: 100, MaxNodesPerHistoryReadData: 100, MaxNodesPerHistoryReadEvents: 100, MaxNodesPerRegisterNodes: 100}
		b.limit(l, limit)
		caps := *g.srv.serverCapabilities
		caps.OperationLimits = l
		g.srv.serverCapabilities = &caps
	}
	ops := make([]int, vp.Choice("operations", vp.Bound(4, 5)))
	good := 0
	for i := range ops {
		ops[i] = vp.Choice("unknown", 2)
		if ops[i] == 0 {
			good++
		}
	}
	g.request(b.request(g.header(4321), ops), 4000)
	res, results := b.res()
	st := g.take(4000, res)
	_, more := g.next()
	vp.Assert(!more, "a request is answered once")
	refused := ua.Good
	switch {
	case len(ops) == 0:
		refused = ua.BadNothingToDo
	case b.limit != nil && uint32(len(ops)) > limit:
		refused = ua.BadTooManyOperations
	}
	if refused != ua.Good {
		vp.Reach("refused")
		vp.Assert(st == refused, "a request of no operation, or of more than the limit, is refused")
		vp.Assert(b.effect == nil || b.effect() == 0, "a request that is refused does nothing")
		return
	}
	if results == nil {
		return
	}
	vp.Assert(st == ua.Good, "a request within the limit is performed")
	rs := results()
	vp.Assert(len(rs) == len(ops), "each operation has its result")
	if len(rs) != len(ops) {
		return
	}
	done := false
	for i, o := range ops {
		switch {
		case o == 1:
			vp.Assert(rs[i] == b.bad, "the results are in the order of the operations")
		case done && b.once:
			vp.Assert(rs[i] == b.good || rs[i] == b.bad, "the results are in the order of the operations")
		default:
			vp.Assert(rs[i] == b.good, "the results are in the order of the operations")
			done = true
		}
	}
	if b.effect != nil {
		want := good
		if b.once && good > 0 {
			want = 1
		}
		vp.Assert(b.effect() == want, "each operation that succeeds is performed, the others are not")
	}
	vp.Reach("done")
}
