package server

import (
	"context"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:bound the user has any subset of two roles or the lookup fails; each node has no list of its own (the server's applies) or a list of 0..2 entries, each with any of three roles and any 32 permission bits; every node class, every attribute id 0..28, every access level
//vp:outside handlers supplied by the application; history update (not implemented by the server)

type vpUserName struct{ ua.UserNameIdentity }

// vpAuth has a session of one user whose roles are symbolic, next to a session of a user with all roles.
type vpAuth struct {
	srv    *Server
	conn   *vpConn
	ch     *serverSecureChannel
	failed bool
	held   [4]bool // by role number 1..3
}

func vpRoleID(n uint32) ua.NodeID { return ua.NodeIDNumeric{ID: 8000 + n} }

func vpAuthSetup() *vpAuth {
	a := &vpAuth{srv: vpServer()}
	a.failed = vp.Bool("role lookup fails")
	a.held[1], a.held[2] = vp.Bool("has role 1"), vp.Bool("has role 2")
	a.srv.rolesProvider = GetRolesFunc(func(user any, app, ep string) ([]ua.NodeID, error) {
		if u, ok := user.(ua.UserNameIdentity); !ok || u.UserName != "u" {
			return []ua.NodeID{vpRoleID(1), vpRoleID(2), vpRoleID(3)}, nil
		}
		if a.failed {
			return nil, ua.BadUserAccessDenied
		}
		var r []ua.NodeID
		if a.held[2] {
			r = append(r, vpRoleID(2))
		}
		if a.held[1] {
			r = append(r, vpRoleID(1))
		}
		return r, nil
	})
	a.conn, a.ch = vpSrvChannel(a.srv, 5)
	vpSession(a.srv, 2, 5, ua.UserNameIdentity{UserName: "admin"})
	vpSession(a.srv, 1, 5, ua.UserNameIdentity{UserName: "u"})
	vpSession(a.srv, 3, 5, ua.UserNameIdentity{UserName: "admin"})
	return a
}

// perms makes a symbolic list of n entries and the predicate saying which permission bits the user has by it.
func (a *vpAuth) perms(name string, n int) ([]ua.RolePermissionType, func(ua.PermissionType) bool) {
	list := []ua.RolePermissionType{}
	var held []bool
	for i := 0; i < n; i++ {
		r := uint32(vp.Range(name+" role", 1, 3))
		p := ua.PermissionType(vp.U32(name + " permissions"))
		list = append(list, ua.RolePermissionType{RoleID: vpRoleID(r), Permissions: p})
		held = append(held, vp.And(!a.failed, vp.Or(vp.And(r == 1, a.held[1]), vp.And(r == 2, a.held[2]))))
	}
	return list, func(bit ua.PermissionType) bool {
		x := false
		for i := range list {
			x = vp.Or(x, vp.And(held[i], list[i].Permissions&bit != 0))
		}
		return x
	}
}

// node chooses where the permissions of a node come from.
func (a *vpAuth) node(name string) ([]ua.RolePermissionType, func(ua.PermissionType) bool) {
	k := vp.Choice(name+" permissions from", 4)
	if k == 3 {
		l, has := a.perms("server", 2)
		a.srv.rolePermissions = l
		return nil, has
	}
	a.srv.rolePermissions = []ua.RolePermissionType{{RoleID: vpRoleID(1), Permissions: 0x7FFFFFFF}, {RoleID: vpRoleID(2), Permissions: 0x7FFFFFFF}}
	return a.perms(name, k)
}

func (a *vpAuth) add(n Node) { a.srv.namespaceManager.nodes[n.NodeID()] = n }

func vpName(s string) (ua.QualifiedName, ua.LocalizedText, ua.LocalizedText) {
	return ua.QualifiedName{Name: s}, ua.LocalizedText{Text: s}, ua.LocalizedText{}
}

var vpSecret = ua.DataValue{Value: int32(4711), SourceTimestamp: vpTime}

func (a *vpAuth) variable(id uint32, rp []ua.RolePermissionType, refs []ua.Reference, access byte) *VariableNode {
	bn, dn, ds := vpName("v")
	n := NewVariableNode(a.srv, ua.NodeIDNumeric{NamespaceIndex: 2, ID: id}, bn, dn, ds, rp, refs, vpSecret, ua.DataTypeIDInt32, ua.ValueRankScalar, nil, access, 0, false, nil)
	a.add(n)
	return n
}

func VP_C15_readvalue() {
	a := vpAuthSetup()
	rp, has := a.node("node")
	al := vp.U8("access level")
	v := a.variable(7, rp, nil, al)
	r := vpRead(a.srv, a.conn, a.ch, v.NodeID(), "")
	ok := vp.And(has(ua.PermissionTypeBrowse), vp.And(has(ua.PermissionTypeRead), al&ua.AccessLevelsCurrentRead != 0))
	vp.Assert((r.StatusCode == ua.Good) == ok, "a value is read exactly by users permitted to browse and read it")
	if ok {
		vp.Assert(r.Value == ua.Variant(int32(4711)), "a permitted user reads the value")
	} else {
		vp.Assert(r.Value == nil, "nothing is disclosed to others")
		vp.Assert(vp.Or(has(ua.PermissionTypeBrowse), r.StatusCode == ua.BadNodeIDUnknown), "a node the user may not browse looks absent")
	}
}

// vpAnyNode is a node of any class.
func (a *vpAuth) any(kind int, id uint32, name string, rp []ua.RolePermissionType, refs []ua.Reference) Node {
	nid := ua.NodeIDNumeric{NamespaceIndex: 2, ID: id}
	bn, dn, ds := vpName(name)
	var n Node
	switch kind {
	case 0:
		n = NewVariableNode(a.srv, nid, bn, dn, ds, rp, refs, vpSecret, ua.DataTypeIDInt32, ua.ValueRankScalar, nil, 0xFF, 0, false, nil)
	case 1:
		n = NewObjectNode(a.srv, nid, bn, dn, ds, rp, refs, 1)
	case 2:
		n = NewMethodNode(a.srv, nid, bn, dn, ds, rp, refs, true)
	case 3:
		n = NewObjectTypeNode(a.srv, nid, bn, dn, ds, rp, refs, false)
	case 4:
		n = NewVariableTypeNode(a.srv, nid, bn, dn, ds, rp, refs, vpSecret, ua.DataTypeIDInt32, ua.ValueRankScalar, nil, false)
	case 5:
		n = NewReferenceTypeNode(a.srv, nid, bn, dn, ds, rp, refs, false, false, dn)
	case 6:
		n = NewDataTypeNode(a.srv, nid, bn, dn, ds, rp, refs, false, nil)
	case 7:
		n = NewViewNode(a.srv, nid, bn, dn, ds, rp, refs, false, 1)
	}
	a.add(n)
	return n
}

func VP_C15_attributes() {
	a := vpAuthSetup()
	kind := vp.Choice("class", 8)
	rp, has := a.node("node")
	n := a.any(kind, 7, "n", rp, nil)
	attr := uint32(vp.Range("attribute", 0, 28))
	vp.Assume(attr != ua.AttributeIDValue)
	var res ua.ReadResponse
	st := vpDo(a.srv, a.conn, a.ch, &ua.ReadRequest{RequestHeader: vpHeader(1), NodesToRead: []ua.ReadValueID{{NodeID: n.NodeID(), AttributeID: attr}}}, &res)
	vp.Assert(st == ua.Good && len(res.Results) == 1, "a read gives one result per node")
	if len(res.Results) != 1 {
		return
	}
	r := res.Results[0]
	if !has(ua.PermissionTypeBrowse) {
		vp.Assert(r.Value == nil && r.StatusCode == ua.BadNodeIDUnknown, "a node the user may not browse looks absent")
		return
	}
	switch attr {
	case ua.AttributeIDRolePermissions:
		vp.Assert((r.StatusCode == ua.Good) == has(ua.PermissionTypeReadRolePermissions), "role permissions are disclosed exactly to users permitted to read them")
		vp.Assert(vp.Or(r.Value == nil, has(ua.PermissionTypeReadRolePermissions)), "role permissions are disclosed exactly to users permitted to read them")
	case ua.AttributeIDUserRolePermissions:
		list, ok := r.Value.([]ua.ExtensionObject)
		vp.Assert(ok && r.StatusCode == ua.Good, "the user's own permissions are readable")
		var all ua.PermissionType
		for _, e := range list {
			p, ok := e.(ua.RolePermissionType)
			vp.Assert(ok, "the user's own permissions are readable")
			vp.Assert(vp.Or(vp.And(a.held[1], p.RoleID == vpRoleID(1)), vp.And(a.held[2], p.RoleID == vpRoleID(2))), "only the user's own roles are disclosed")
			all |= p.Permissions
		}
		for b := 0; b < 17; b++ {
			vp.Assert((all&(1<<b) != 0) == has(1<<b), "the user's own permissions are complete")
		}
	case ua.AttributeIDUserExecutable:
		if kind == 2 {
			vp.Assert(r.StatusCode == ua.Good && (r.Value == ua.Variant(true)) == has(ua.PermissionTypeCall), "UserExecutable says whether the user may call")
		}
	case ua.AttributeIDUserAccessLevel:
		if kind == 0 {
			b, ok := r.Value.(byte)
			vp.Assert(ok && r.StatusCode == ua.Good, "UserAccessLevel is readable")
			vp.Assert((b&1 != 0) == has(ua.PermissionTypeRead), "UserAccessLevel says what the user may do")
			vp.Assert((b&2 != 0) == has(ua.PermissionTypeWrite), "UserAccessLevel says what the user may do")
			vp.Assert((b&4 != 0) == has(ua.PermissionTypeReadHistory), "UserAccessLevel says what the user may do")
		}
	}
}

func VP_C15_write() {
	a := vpAuthSetup()
	rp, has := a.node("node")
	al := vp.U8("access level")
	v := a.variable(7, rp, nil, al)
	what := vp.Choice("attribute", 3)
	attr := []uint32{ua.AttributeIDValue, ua.AttributeIDHistorizing, 0}[what]
	val := ua.Variant(vp.I32("value"))
	if what == 1 {
		val = true
	}
	if what == 2 {
		attr = uint32(vp.Range("other attribute", 0, 28))
		vp.Assume(vp.And(attr != ua.AttributeIDValue, attr != ua.AttributeIDHistorizing))
	}
	var res ua.WriteResponse
	st := vpDo(a.srv, a.conn, a.ch, &ua.WriteRequest{RequestHeader: vpHeader(1), NodesToWrite: []ua.WriteValue{{NodeID: v.NodeID(), AttributeID: attr, Value: ua.DataValue{Value: val}}}}, &res)
	vp.Assert(st == ua.Good && len(res.Results) == 1, "a write gives one result per node")
	if len(res.Results) != 1 {
		return
	}
	ok := false
	switch what {
	case 0:
		ok = vp.And(has(ua.PermissionTypeBrowse), vp.And(has(ua.PermissionTypeWrite), al&ua.AccessLevelsCurrentWrite != 0))
		vp.Assert((v.Value().Value == val) == vp.Or(ok, val == ua.Variant(int32(4711))), "a value changes exactly when a permitted user writes it")
	case 1:
		ok = vp.And(has(ua.PermissionTypeBrowse), has(ua.PermissionTypeWriteHistorizing))
		vp.Assert(v.Historizing() == ok, "the historizing attribute changes exactly when a permitted user writes it")
	case 2:
		vp.Assert(!v.Historizing() && v.Value().Value == ua.Variant(int32(4711)), "writing another attribute changes nothing")
	}
	vp.Assert((res.Results[0] == ua.Good) == ok, "a write succeeds exactly for permitted users")
	vp.Assert(vp.Or(has(ua.PermissionTypeBrowse), res.Results[0] == ua.BadNodeIDUnknown), "a node the user may not browse looks absent")
}

func VP_C15_call() {
	a := vpAuthSetup()
	rp1, has1 := a.perms("object", vp.Choice("object entries", 2))
	rp2, has2 := a.node("method")
	bn, dn, ds := vpName("m")
	obj := a.any([]int{1, 3}[vp.Choice("on", 2)], 6, "o", rp1, nil)
	executable := vp.Bool("executable")
	m := NewMethodNode(a.srv, ua.NodeIDNumeric{NamespaceIndex: 2, ID: 7}, bn, dn, ds, rp2, nil, executable)
	calls := 0
	m.SetCallMethodHandler(func(s *Session, r ua.CallMethodRequest) ua.CallMethodResult {
		calls++
		vp.Assert(s.UserIdentity() == any(ua.UserNameIdentity{UserName: "u"}), "the method learns who calls")
		return ua.CallMethodResult{OutputArguments: []ua.Variant{int32(1)}}
	})
	a.add(m)
	var res ua.CallResponse
	st := vpDo(a.srv, a.conn, a.ch, &ua.CallRequest{RequestHeader: vpHeader(1), MethodsToCall: []ua.CallMethodRequest{{ObjectID: obj.NodeID(), MethodID: m.NodeID()}}}, &res)
	vp.Assert(st == ua.Good && len(res.Results) == 1, "a call gives one result per method")
	if len(res.Results) != 1 {
		return
	}
	ok := vp.And(vp.And(has1(ua.PermissionTypeBrowse), has2(ua.PermissionTypeBrowse)), vp.And(executable, has2(ua.PermissionTypeCall)))
	vp.Assert((calls == 1) == ok && (calls == 0) == !ok, "a method runs exactly when a permitted user calls it")
	vp.Assert((res.Results[0].StatusCode == ua.Good) == ok, "a call succeeds exactly for permitted users")
}

func vpRef(rt ua.NodeID, inverse bool, to uint32) ua.Reference {
	return ua.NewReference(rt, inverse, ua.NewExpandedNodeID(ua.NodeIDNumeric{NamespaceIndex: 2, ID: to}))
}

func VP_C15_browse() {
	a := vpAuthSetup()
	rp1, has1 := a.perms("source", 1)
	rp2, has2 := a.node("target")
	rp3, has3 := a.perms("second target", 1)
	src := a.any(vp.Choice("class", 8), 6, "s", rp1, []ua.Reference{vpRef(ua.ReferenceTypeIDOrganizes, false, 7), vpRef(ua.ReferenceTypeIDOrganizes, true, 8)})
	a.any(1, 7, "t", rp2, nil)
	a.any(0, 8, "t", rp3, nil)
	var res ua.BrowseResponse
	st := vpDo(a.srv, a.conn, a.ch, &ua.BrowseRequest{RequestHeader: vpHeader(1), NodesToBrowse: []ua.BrowseDescription{{NodeID: src.NodeID(), BrowseDirection: ua.BrowseDirectionBoth, ResultMask: 63}}}, &res)
	vp.Assert(st == ua.Good && len(res.Results) == 1, "a browse gives one result per node")
	if len(res.Results) != 1 {
		return
	}
	r := res.Results[0]
	if !has1(ua.PermissionTypeBrowse) {
		vp.Assert(r.StatusCode == ua.BadNodeIDUnknown && len(r.References) == 0, "a node the user may not browse looks absent")
		return
	}
	vp.Assert(r.StatusCode == ua.Good, "a permitted user browses the node")
	see2, see3 := false, false
	for _, d := range r.References {
		switch d.NodeID.NodeID {
		case ua.NodeIDNumeric{NamespaceIndex: 2, ID: 7}:
			see2 = true
		case ua.NodeIDNumeric{NamespaceIndex: 2, ID: 8}:
			see3 = true
		default:
			vp.Assert(false, "only references of the node are returned")
		}
	}
	vp.Assert(see2 == has2(ua.PermissionTypeBrowse) && see3 == has3(ua.PermissionTypeBrowse), "a browse reveals exactly the targets the user may browse")
}

func VP_C15_translate() {
	a := vpAuthSetup()
	rp1, has1 := a.perms("source", 1)
	rp2, has2 := a.perms("middle", 1)
	rp3, has3 := a.node("target")
	src := a.any(1, 6, "s", rp1, []ua.Reference{vpRef(ua.ReferenceTypeIDOrganizes, false, 7)})
	a.any(1, 7, "m", rp2, []ua.Reference{vpRef(ua.ReferenceTypeIDOrganizes, false, 8)})
	a.any(vp.Choice("class", 8), 8, "t", rp3, nil)
	el := func(s string) ua.RelativePathElement {
		return ua.RelativePathElement{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, TargetName: ua.QualifiedName{Name: s}}
	}
	var res ua.TranslateBrowsePathsToNodeIDsResponse
	st := vpDo(a.srv, a.conn, a.ch, &ua.TranslateBrowsePathsToNodeIDsRequest{RequestHeader: vpHeader(1), BrowsePaths: []ua.BrowsePath{{StartingNode: src.NodeID(), RelativePath: ua.RelativePath{Elements: []ua.RelativePathElement{el("m"), el("t")}}}}}, &res)
	vp.Assert(st == ua.Good && len(res.Results) == 1, "a translation gives one result per path")
	if len(res.Results) != 1 {
		return
	}
	r := res.Results[0]
	ok := vp.And(has1(ua.PermissionTypeBrowse), vp.And(has2(ua.PermissionTypeBrowse), has3(ua.PermissionTypeBrowse)))
	vp.Assert((r.StatusCode == ua.Good) == ok && (len(r.Targets) == 1) == ok && (len(r.Targets) == 0) == !ok, "a path is followed exactly over nodes the user may browse")
}

func VP_C15_monitor() {
	a := vpAuthSetup()
	s, _ := a.srv.sessionManager.Get(vpHeader(1).AuthenticationToken)
	sub := NewSubscription(a.srv.subscriptionManager, s, 1000, 30, 10, 0, true, 0)
	a.srv.subscriptionManager.subscriptionsByID[sub.id] = sub
	rp, has := a.node("node")
	al := vp.U8("access level")
	what := vp.Choice("what", 3)
	var n Node
	attr := ua.AttributeIDValue
	var filter ua.ExtensionObject
	ok := vp.And(has(ua.PermissionTypeBrowse), vp.And(has(ua.PermissionTypeRead), al&1 != 0))
	switch what {
	case 0:
		n = a.variable(7, rp, nil, al)
	case 1:
		bn, dn, ds := vpName("o")
		o := NewObjectNode(a.srv, ua.NodeIDNumeric{NamespaceIndex: 2, ID: 7}, bn, dn, ds, rp, nil, al)
		a.add(o)
		n, attr = o, ua.AttributeIDEventNotifier
		filter = ua.EventFilter{SelectClauses: []ua.SimpleAttributeOperand{{TypeDefinitionID: ua.ObjectTypeIDBaseEventType, BrowsePath: []ua.QualifiedName{{Name: "Message"}}, AttributeID: ua.AttributeIDValue}}}
		ok = vp.And(has(ua.PermissionTypeBrowse), vp.And(has(ua.PermissionTypeReceiveEvents), al&1 != 0))
	case 2:
		n, attr = a.variable(7, rp, nil, al), ua.AttributeIDDisplayName
		ok = has(ua.PermissionTypeBrowse)
	}
	mode := ua.MonitoringMode(vp.Choice("mode", 3))
	var res ua.CreateMonitoredItemsResponse
	st := vpDo(a.srv, a.conn, a.ch, &ua.CreateMonitoredItemsRequest{RequestHeader: vpHeader(1), SubscriptionID: sub.id, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
		ItemToMonitor: ua.ReadValueID{NodeID: n.NodeID(), AttributeID: attr}, MonitoringMode: mode, RequestedParameters: ua.MonitoringParameters{ClientHandle: 1, SamplingInterval: 1000, QueueSize: 1, Filter: filter}}}}, &res)
	vp.Assert(st == ua.Good && len(res.Results) == 1, "one result per item")
	if len(res.Results) != 1 {
		return
	}
	vp.Assert((res.Results[0].StatusCode == ua.Good) == ok, "an item is monitored exactly by users permitted to read it")
	vp.Assert(vp.Or(has(ua.PermissionTypeBrowse), res.Results[0].StatusCode == ua.BadNodeIDUnknown), "a node the user may not browse looks absent")
}

// vpHistorian records what it is asked.
type vpHistorian struct{ asked []ua.NodeID }

func (h *vpHistorian) read(n []ua.HistoryReadValueID) ([]ua.HistoryReadResult, ua.StatusCode) {
	var r []ua.HistoryReadResult
	for _, x := range n {
		h.asked = append(h.asked, x.NodeID)
		r = append(r, ua.HistoryReadResult{ContinuationPoint: ua.ByteString(x.ContinuationPoint)})
	}
	return r, ua.Good
}
func (h *vpHistorian) ReadEvent(_ context.Context, n []ua.HistoryReadValueID, _ ua.ReadEventDetails, _ ua.TimestampsToReturn, _ bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.read(n)
}
func (h *vpHistorian) ReadRawModified(_ context.Context, n []ua.HistoryReadValueID, _ ua.ReadRawModifiedDetails, _ ua.TimestampsToReturn, _ bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.read(n)
}
func (h *vpHistorian) ReadProcessed(_ context.Context, n []ua.HistoryReadValueID, _ ua.ReadProcessedDetails, _ ua.TimestampsToReturn, _ bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.read(n)
}
func (h *vpHistorian) ReadAtTime(_ context.Context, n []ua.HistoryReadValueID, _ ua.ReadAtTimeDetails, _ ua.TimestampsToReturn, _ bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.read(n)
}
func (h *vpHistorian) WriteEvent(context.Context, ua.NodeID, []ua.Variant) error { return nil }
func (h *vpHistorian) WriteValue(context.Context, ua.NodeID, ua.DataValue) error { return nil }

func VP_C15_history() {
	a := vpAuthSetup()
	h := &vpHistorian{}
	a.srv.historian = h
	rp1, has1 := a.node("node")
	rp2, has2 := a.perms("second", 1)
	v1, v2 := a.variable(7, rp1, nil, 0xFF), a.variable(8, rp2, nil, 0xFF)
	var det ua.ExtensionObject
	switch vp.Choice("details", 4) {
	case 0:
		det = ua.ReadEventDetails{}
	case 1:
		det = ua.ReadRawModifiedDetails{}
	case 2:
		det = ua.ReadProcessedDetails{}
	case 3:
		det = ua.ReadAtTimeDetails{}
	}
	var res ua.HistoryReadResponse
	st := vpDo(a.srv, a.conn, a.ch, &ua.HistoryReadRequest{RequestHeader: vpHeader(1), HistoryReadDetails: det, TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: []ua.HistoryReadValueID{{NodeID: v1.NodeID(), ContinuationPoint: "1"}, {NodeID: v2.NodeID(), ContinuationPoint: "2"}}}, &res)
	vp.Assert(st == ua.Good && len(res.Results) == 2, "one result per node")
	if len(res.Results) != 2 {
		return
	}
	ok1 := vp.And(has1(ua.PermissionTypeBrowse), has1(ua.PermissionTypeReadHistory))
	ok2 := vp.And(has2(ua.PermissionTypeBrowse), has2(ua.PermissionTypeReadHistory))
	vp.Assert((res.Results[0].StatusCode == ua.Good) == ok1 && (res.Results[1].StatusCode == ua.Good) == ok2, "history is read exactly by users permitted to read it")
	vp.Assert((res.Results[0].ContinuationPoint == "1") == ok1 && (res.Results[1].ContinuationPoint == "2") == ok2, "history is read exactly by users permitted to read it")
}
