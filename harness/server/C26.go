package server

import (
	"math"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:bound graphs of 4 nodes with any names of one character and 3 (quick) / 4 (thorough) references with any target, direction and one of two types, including cycles, diamonds and references to a missing node; paths of 0..2 (quick) / 0..3 (thorough) elements with any name, direction, reference type and subtype flag
//vp:outside references to other servers

type vpEdge struct {
	from, to uint32
	typ      uint32
	inverse  bool
}

func VP_C26_path() {
	srv, conn, ch := vpRangeSetup()
	vpRefTypes(srv)
	var edges []vpEdge
	for i, from := range []uint32{20, 20, 21, 22}[:vp.Bound(3, 4)] {
		e := vpEdge{from: from, to: 21 + uint32(vp.Choice("to", 3)), typ: 102, inverse: vp.Bool("inverse")}
		if i == 0 {
			e.to = 20 + uint32(vp.Choice("first to", 4))
		}
		if e.to == 23 && i == 2 {
			e.to = 29 // missing
		}
		if i < 2 && vp.Bool("unrelated type") {
			e.typ = 104
		}
		edges = append(edges, e)
	}
	names := map[uint32]byte{}
	for id := uint32(20); id < 24; id++ {
		c := vp.U8("name")
		vp.Assume(vp.Or(c == 'a', c == 'b'))
		names[id] = c
		var refs []ua.Reference
		for _, e := range edges {
			if e.from == id {
				refs = append(refs, ua.NewReference(vpN(e.typ), e.inverse, vpX(e.to)))
			}
		}
		srv.namespaceManager.nodes[vpN(id)] = NewObjectNode(srv, vpN(id), ua.QualifiedName{NamespaceIndex: 2, Name: string([]byte{c})}, ua.LocalizedText{}, ua.LocalizedText{}, nil, refs, 0)
	}
	start := []uint32{20, 29}[vp.Choice("start", 2)]
	n := 1
	if start == 20 {
		n = vp.Choice("elements", vp.Bound(3, 4))
	}
	els := []ua.RelativePathElement{}
	empty := false
	cur := map[uint32]int{}
	if start == 20 {
		cur[20] = 1
	}
	for i := 0; i < n; i++ {
		nm := vp.Str("element", vp.Choice("name length", 2))
		for j := 0; j < len(nm); j++ {
			vp.Assume(vp.Or(nm[j] == 'a', nm[j] == 'b'))
		}
		ns := uint16(vp.Range("namespace", 1, 2))
		el := ua.RelativePathElement{IsInverse: vp.Bool("el inverse"), IncludeSubtypes: vp.Bool("subtypes"), TargetName: ua.QualifiedName{NamespaceIndex: ns, Name: nm}}
		ask := vp.Choice("el type", 3)
		if ask > 0 {
			el.ReferenceTypeID = vpN(100 + uint32(ask)) // 101 has the subtype 102
		}
		els = append(els, el)
		empty = empty || nm == ""
		next := map[uint32]int{}
		for _, e := range edges {
			k := cur[e.from]
			if k == 0 || e.to == 29 || len(nm) == 0 {
				continue
			}
			typ := ask == 0 || ask == 2 && e.typ == 102 || ask == 1 && e.typ == 102 && el.IncludeSubtypes
			if vp.And(typ, vp.And(e.inverse == el.IsInverse, vp.And(names[e.to] == nm[0], ns == 2))) {
				next[e.to] += k
			}
		}
		cur = next
	}
	var res ua.TranslateBrowsePathsToNodeIDsResponse
	st := vpDo(srv, conn, ch, &ua.TranslateBrowsePathsToNodeIDsRequest{RequestHeader: vpHeader(1), BrowsePaths: []ua.BrowsePath{{StartingNode: vpN(start), RelativePath: ua.RelativePath{Elements: els}}}}, &res)
	vp.Assert(st == ua.Good && len(res.Results) == 1, "one result per path")
	if len(res.Results) != 1 {
		return
	}
	r := res.Results[0]
	switch {
	case n == 0:
		vp.Assert(r.StatusCode == ua.BadNothingToDo, "an empty path is refused")
	case empty:
		vp.Assert(r.StatusCode == ua.BadBrowseNameInvalid, "a path with an empty name is refused")
	case start == 29:
		vp.Assert(r.StatusCode == ua.BadNodeIDUnknown, "an unknown starting node is refused")
	case len(cur) == 0:
		vp.Assert(r.StatusCode == ua.BadNoMatch && len(r.Targets) == 0, "a path without match is refused")
	default:
		vp.Assert(r.StatusCode == ua.Good, "a path with matches is translated")
		got := map[uint32]int{}
		for _, t := range r.Targets {
			id, ok := t.TargetID.NodeID.(ua.NodeIDNumeric)
			vp.Assert(ok && t.RemainingPathIndex == math.MaxUint32 && t.TargetID == vpX(id.ID), "targets are complete")
			got[id.ID]++
		}
		for id := uint32(20); id < 24; id++ {
			vp.Assert((got[id] > 0) == (cur[id] > 0), "the targets are exactly the nodes the path leads to")
		}
	}
}
