package server

import (
	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:bound filters: 2 (quick) / 3 (thorough) references, one of them fixed, of any of 4 reference types (a chain of 3 subtypes and an unrelated one), any direction, to nodes of 4 classes or to a missing node; every direction, reference type, subtype flag, class mask and result mask of the request; paging: 0..4 (quick) / 0..6 (thorough) references, page sizes 0..3 / 0..5, any continuation point text of 0..6 bytes, two sessions, limits of 1..2 continuation points
//vp:outside views; references to other servers

// vpTargets adds the nodes 11 (object), 12 (variable), 13 (method), 14 (object type); 15 is missing, 16 is hidden from the user.
func vpTargets(srv *Server) {
	nm := func(s string) (ua.QualifiedName, ua.LocalizedText, ua.LocalizedText) {
		return ua.QualifiedName{Name: "n" + s}, ua.LocalizedText{Text: "d" + s}, ua.LocalizedText{}
	}
	td := []ua.Reference{ua.NewReference(ua.ReferenceTypeIDOrganizes, false, vpX(14)), ua.NewReference(ua.ReferenceTypeIDHasTypeDefinition, false, vpX(14))}
	bn, dn, ds := nm("11")
	srv.namespaceManager.nodes[vpN(11)] = NewObjectNode(srv, vpN(11), bn, dn, ds, nil, td, 0)
	bn, dn, ds = nm("12")
	srv.namespaceManager.nodes[vpN(12)] = NewVariableNode(srv, vpN(12), bn, dn, ds, nil, td[1:], ua.DataValue{}, ua.DataTypeIDInt32, -1, nil, 3, 0, false, nil)
	bn, dn, ds = nm("13")
	srv.namespaceManager.nodes[vpN(13)] = NewMethodNode(srv, vpN(13), bn, dn, ds, nil, nil, true)
	bn, dn, ds = nm("14")
	srv.namespaceManager.nodes[vpN(14)] = NewObjectTypeNode(srv, vpN(14), bn, dn, ds, nil, nil, false)
	bn, dn, ds = nm("16")
	srv.namespaceManager.nodes[vpN(16)] = NewObjectNode(srv, vpN(16), bn, dn, ds, []ua.RolePermissionType{{RoleID: vpAdmin, Permissions: ua.PermissionTypeRead}}, nil, 0)
}

var vpClasses = map[uint32]ua.NodeClass{11: ua.NodeClassObject, 12: ua.NodeClassVariable, 13: ua.NodeClassMethod, 14: ua.NodeClassObjectType}

// VP_C24_filters: which references are returned.
func VP_C24_filters() { vpFilters(vp.Bound(2, 3), 0) }

// VP_C24_fields: what is returned of a reference.
func VP_C24_fields() { vpFilters(1, uint32(vp.U8("result mask"))) }

func vpFilters(n int, mask uint32) {
	srv, conn, ch := vpRangeSetup()
	vpRefTypes(srv)
	vpTargets(srv)
	var refs []ua.Reference
	var types, targets []uint32
	for i := 0; i < n; i++ {
		t, to := uint32(102), uint32(12)
		if i != 1 {
			t = 101 + uint32(vp.Choice("type", 4))
			to = 11 + uint32(vp.Choice("target", 5))
		}
		types, targets = append(types, t), append(targets, to)
		refs = append(refs, ua.NewReference(vpN(t), vp.Bool("inverse"), vpX(to)))
	}
	vpSource(srv, 10, refs)
	// what the user must not see, among them
	hidden := vp.Choice("hidden", n+1)
	all := append(append([]ua.Reference{}, refs[:hidden]...), ua.NewReference(vpN(101), vp.Bool("inverse"), vpX(16)))
	vpSource(srv, 10, append(all, refs[hidden:]...))
	d := ua.BrowseDescription{NodeID: vpN(10), IncludeSubtypes: vp.Bool("include subtypes"), NodeClassMask: uint32(vp.U8("class mask")), ResultMask: mask}
	d.BrowseDirection = ua.BrowseDirection(vp.Range("direction", 0, 3))
	ask := uint32(vp.Choice("asked type", 7)) // 0 none, 1..4, 5 not a reference type, 6 unknown
	if ask >= 1 && ask <= 4 {
		d.ReferenceTypeID = vpN(100 + ask)
	} else if ask == 5 {
		d.ReferenceTypeID = vpN(14)
	} else if ask == 6 {
		d.ReferenceTypeID = vpN(15)
	}
	var res ua.BrowseResponse
	st := vpDo(srv, conn, ch, &ua.BrowseRequest{RequestHeader: vpHeader(1), NodesToBrowse: []ua.BrowseDescription{d}}, &res)
	vp.Assert(st == ua.Good && len(res.Results) == 1, "one result per node")
	if len(res.Results) != 1 {
		return
	}
	r := res.Results[0]
	if d.BrowseDirection == 3 {
		vp.Assert(r.StatusCode == ua.BadBrowseDirectionInvalid, "an invalid direction is refused")
		return
	}
	if ask > 4 {
		vp.Assert(r.StatusCode == ua.BadReferenceTypeIDInvalid, "an invalid reference type is refused")
		return
	}
	vp.Assert(r.StatusCode == ua.Good && r.ContinuationPoint == "", "a valid request is served")
	k := 0
	for i := 0; i < n; i++ {
		if targets[i] == 15 {
			continue
		}
		cls := vpClasses[targets[i]]
		dir := vp.Or(d.BrowseDirection == ua.BrowseDirectionBoth, refs[i].IsInverse == (d.BrowseDirection == ua.BrowseDirectionInverse))
		t := types[i] - 100
		typ := ask == 0 || ask == t || d.IncludeSubtypes && t < 4 && ask < t
		if !vp.And(dir, vp.And(typ, vp.Or(d.NodeClassMask == 0, d.NodeClassMask&uint32(cls) != 0))) {
			continue
		}
		vp.Assert(k < len(r.References), "every matching reference is returned")
		if k >= len(r.References) {
			return
		}
		g := r.References[k]
		k++
		vp.Assert(g.NodeID == vpX(targets[i]), "matching references are returned in order")
		m := d.ResultMask
		none := ua.NodeID(nil)
		if m&1 != 0 {
			none = vpN(types[i])
		}
		vp.Assert(g.ReferenceTypeID == none, "the reference type is returned when asked for")
		vp.Assert(g.IsForward == vp.And(m&2 != 0, !refs[i].IsInverse), "the direction is returned when asked for")
		if m&4 != 0 {
			vp.Assert(g.NodeClass == cls, "the node class is returned when asked for")
		} else {
			vp.Assert(g.NodeClass == 0, "the node class is returned only when asked for")
		}
		name := map[uint32]string{11: "11", 12: "12", 13: "13", 14: "14"}[targets[i]]
		vp.Assert(g.BrowseName.Name == vpIf(m&8 != 0, "n"+name), "the browse name is returned when asked for")
		vp.Assert(g.DisplayName.Text == vpIf(m&16 != 0, "d"+name), "the display name is returned when asked for")
		hasTD := g.TypeDefinition == vpX(14)
		vp.Assert(hasTD == vp.And(m&32 != 0, targets[i] <= 12), "the type definition of objects and variables is returned when asked for")
	}
	vp.Assert(k == len(r.References), "no other reference is returned")
}

func vpIf(c bool, s string) string {
	if c {
		return s
	}
	return ""
}

func vpBrowse(srv *Server, conn *vpConn, ch *serverSecureChannel, token uint32, max int, ids ...uint32) []ua.BrowseResult {
	var ds []ua.BrowseDescription
	for _, id := range ids {
		ds = append(ds, ua.BrowseDescription{NodeID: vpN(id), ResultMask: 63})
	}
	var res ua.BrowseResponse
	st := vpDo(srv, conn, ch, &ua.BrowseRequest{RequestHeader: vpHeader(token), RequestedMaxReferencesPerNode: uint32(max), NodesToBrowse: ds}, &res)
	vp.Assert(st == ua.Good && len(res.Results) == len(ids), "one result per node")
	if len(res.Results) != len(ids) {
		vp.Stop()
	}
	return res.Results
}

func vpNext(srv *Server, conn *vpConn, ch *serverSecureChannel, token uint32, release bool, cp ua.ByteString) ua.BrowseResult {
	var res ua.BrowseNextResponse
	st := vpDo(srv, conn, ch, &ua.BrowseNextRequest{RequestHeader: vpHeader(token), ReleaseContinuationPoints: release, ContinuationPoints: []ua.ByteString{cp}}, &res)
	vp.Assert(st == ua.Good && len(res.Results) == 1, "one result per continuation point")
	if len(res.Results) != 1 {
		vp.Stop()
	}
	return res.Results[0]
}

func vpPagingSetup(total int) (*Server, *vpConn, *serverSecureChannel) {
	srv, conn, ch := vpRangeSetup()
	vpSession(srv, 2, 5, ua.AnonymousIdentity{})
	var refs []ua.Reference
	for i := 0; i < total; i++ {
		id := uint32(20 + i)
		vpSource(srv, id, nil)
		refs = append(refs, ua.NewReference(ua.ReferenceTypeIDOrganizes, false, vpX(id)))
	}
	vpSource(srv, 10, refs)
	return srv, conn, ch
}

func VP_C24_paging() {
	total := vp.Choice("references", vp.Bound(5, 7))
	max := vp.Choice("page size", vp.Bound(4, 6))
	srv, conn, ch := vpPagingSetup(total)
	r := vpBrowse(srv, conn, ch, 1, max, 10)[0]
	got := 0
	var used []ua.ByteString
	for page := 0; page <= total; page++ {
		vp.Assert(r.StatusCode == ua.Good, "a page is served")
		vp.Assert(max == 0 || len(r.References) <= max, "a page has at most the requested number of references")
		for _, d := range r.References {
			vp.Assert(d.NodeID == vpX(uint32(20+got)), "the pages together are the references, in order, each once")
			got++
		}
		vp.Assert((r.ContinuationPoint != "") == (got < total), "a continuation point is given exactly if references remain")
		if r.ContinuationPoint == "" {
			break
		}
		for _, u := range used {
			vp.Assert(u != r.ContinuationPoint, "a continuation point is used once")
		}
		cp := r.ContinuationPoint
		used = append(used, cp)
		if vp.Bool("another session tries it") {
			o := vpNext(srv, conn, ch, 2, false, cp)
			vp.Assert(o.StatusCode == ua.BadContinuationPointInvalid && len(o.References) == 0, "a continuation point belongs to its session")
		}
		if vp.Bool("released") {
			o := vpNext(srv, conn, ch, 1, true, cp)
			vp.Assert(o.StatusCode == ua.Good && len(o.References) == 0 && o.ContinuationPoint == "", "a continuation point can be released")
			got = total
			break
		}
		r = vpNext(srv, conn, ch, 1, false, cp)
	}
	vp.Assert(got == total, "the pages together are all references")
	for _, u := range used {
		o := vpNext(srv, conn, ch, 1, false, u)
		vp.Assert(o.StatusCode == ua.BadContinuationPointInvalid && len(o.References) == 0, "a used continuation point is invalid")
	}
}

func VP_C24_point() {
	srv, conn, ch := vpPagingSetup(3)
	r := vpBrowse(srv, conn, ch, 1, 1, 10)[0]
	cp := vp.Str("continuation point", vp.Choice("length", 7))
	o := vpNext(srv, conn, ch, 1, vp.Bool("release"), ua.ByteString(cp))
	if ua.ByteString(cp) != r.ContinuationPoint {
		vp.Assert(len(o.References) == 0 && (cp == "" || o.StatusCode == ua.BadContinuationPointInvalid), "a made up continuation point is invalid")
		o = vpNext(srv, conn, ch, 1, false, r.ContinuationPoint)
		vp.Assert(o.StatusCode == ua.Good && len(o.References) == 1 && o.References[0].NodeID == vpX(21), "a made up continuation point disturbs nothing")
	}
}

func VP_C24_limit() {
	srv, conn, ch := vpRangeSetup()
	limit := 1 + vp.Choice("limit", 2)
	srv.serverCapabilities.MaxBrowseContinuationPoints = uint16(limit)
	vpSession(srv, 2, 5, ua.AnonymousIdentity{})
	for i := uint32(20); i < 23; i++ {
		vpSource(srv, i, nil)
	}
	for i := uint32(10); i < 13; i++ {
		vpSource(srv, i, []ua.Reference{ua.NewReference(ua.ReferenceTypeIDOrganizes, false, vpX(20)), ua.NewReference(ua.ReferenceTypeIDOrganizes, false, vpX(21)), ua.NewReference(ua.ReferenceTypeIDOrganizes, true, vpX(22))})
	}
	open := []ua.ByteString{}
	for step := 0; step < 3; step++ {
		k := 1 + vp.Choice("browsed at once", 3)
		rs := vpBrowse(srv, conn, ch, 2, 1, []uint32{10, 11, 12}[:k]...)
		good := 0
		for _, r := range rs {
			if r.StatusCode == ua.Good {
				good++
				vp.Assert(len(r.References) == 1 && r.ContinuationPoint != "", "a page is served")
				open = append(open, r.ContinuationPoint)
			} else {
				vp.Assert(r.StatusCode == ua.BadNoContinuationPoints && len(r.References) == 0, "a browse beyond the limit is refused")
			}
		}
		want := limit - (len(open) - good)
		if k < want {
			want = k
		}
		vp.Assert(good == want, "exactly the allowed number of continuation points is given")
		if len(open) > 0 && vp.Bool("finish one") {
			o := vpNext(srv, conn, ch, 2, false, open[0])
			vp.Assert(o.StatusCode == ua.Good && len(o.References) == 1 && o.ContinuationPoint == "" && o.References[0].NodeID == vpX(21), "the rest is served")
			open = open[1:]
		}
	}
}
