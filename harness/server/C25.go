package server

import (
	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:bound four nodes of one namespace and one of namespace 0, added in one call or in two, joined in a chain and by two more references between any of them, of any type, in any direction; any of the nodes deleted by any of the five operations, then added again
//vp:outside references to nodes that are added in a later call, references of the types HasTypeDefinition and HasModellingRule (they have no inverse), the time between two calls of another goroutine

type vpTree struct {
	m     *NamespaceManager
	ids   []ua.NodeID // 0 is the one of namespace 0
	nodes []Node
}

func (g *vpTree) object(i int, refs []ua.Reference) {
	g.nodes[i] = NewObjectNode(g.m.server, g.ids[i], ua.QualifiedName{Name: "n"}, ua.LocalizedText{}, ua.LocalizedText{}, nil, refs, 0)
}

func vpTreeSetup() *vpTree {
	srv := vpServer()
	g := &vpTree{m: srv.namespaceManager, ids: []ua.NodeID{ua.ObjectIDObjectsFolder, vpN(1), vpN(2), vpN(3), vpN(4)}, nodes: make([]Node, 5)}
	g.object(0, nil)
	g.m.nodes[g.ids[0]] = g.nodes[0]
	return g
}

// at is the number of a node, or -1.
func (g *vpTree) at(id ua.NodeID) int {
	for i, x := range g.ids {
		if x == id {
			return i
		}
	}
	return -1
}

func vpOneWay(t ua.NodeID) bool {
	return t == ua.ReferenceTypeIDHasTypeDefinition || t == ua.ReferenceTypeIDHasModellingRule
}

// vpPart tells whether a type makes its target a part of its source.
func vpPart(t ua.NodeID) bool {
	return t == ua.ReferenceTypeIDHasComponent || t == ua.ReferenceTypeIDHasProperty || t == ua.ReferenceTypeIDHasSubtype || t == ua.ReferenceTypeIDHasOrderedComponent
}

// consistent tells whether every reference has its inverse, once, and leads to a node that is there.
func (g *vpTree) consistent(there []bool) {
	both, dead, once := true, true, true
	for i := range g.ids {
		n, ok := g.m.FindNode(g.ids[i])
		vp.Assert(ok == there[i] && (!ok || n == g.nodes[i]), "a node can be found while it is there")
		if !ok {
			continue
		}
		refs := n.References()
		for a, r := range refs {
			if vpOneWay(r.ReferenceTypeID) {
				continue
			}
			t := g.at(ua.ToNodeID(r.TargetID, g.m.namespaces))
			if t < 0 || !there[t] {
				dead = false
				continue
			}
			found := false
			for _, q := range g.nodes[t].References() {
				if q.ReferenceTypeID == r.ReferenceTypeID && q.IsInverse != r.IsInverse && ua.ToNodeID(q.TargetID, g.m.namespaces) == g.ids[i] {
					found = true
				}
			}
			both = both && found
			for b := range refs {
				if b != a && refs[b] == r {
					once = false
				}
			}
		}
	}
	vp.Assert(dead, "no reference leads to a node that is deleted")
	vp.Assert(both, "every reference has its inverse")
	vp.Assert(once, "no reference is there twice")
}

// under has the nodes below one, by the references that make a node a part of another.
func (g *vpTree) under(i int, in []bool) {
	for _, r := range g.nodes[i].References() {
		if r.IsInverse || !vpPart(r.ReferenceTypeID) {
			continue
		}
		if t := g.at(ua.ToNodeID(r.TargetID, g.m.namespaces)); t >= 0 && !in[t] {
			in[t] = true
			g.under(t, in)
		}
	}
}

// links of each node: 0 - 1 - 2 - 3 - 4, and more of any kind.
func (g *vpTree) links(more, last int) [][]ua.Reference {
	refs := make([][]ua.Reference, 5)
	for i := 1; i < 5; i++ {
		refs[i] = append(refs[i], ua.NewReference(ua.ReferenceTypeIDHasComponent, true, ua.NewExpandedNodeID(g.ids[i-1])))
	}
	for i := 0; i < more; i++ {
		from, to := 1+vp.Choice("from", last), vp.Choice("to", last+1)
		r := ua.NewReference(ua.NodeIDNumeric{ID: vp.U32("type")}, vp.Bool("inverse"), ua.NewExpandedNodeID(g.ids[to]))
		for _, q := range refs[from] {
			vp.Assume(q != r)
		}
		refs[from] = append(refs[from], r)
	}
	return refs
}

func (g *vpTree) add(refs [][]ua.Reference) {
	for i := 1; i < 5; i++ {
		g.object(i, refs[i])
	}
	vp.Assert(g.m.AddNodes(g.nodes[1:]...) == nil, "nodes are added")
}

func (g *vpTree) delete(i int) (there []bool) {
	there = []bool{true, true, true, true, true}
	below := make([]bool, 5)
	below[i] = true
	g.under(i, below)
	switch vp.Choice("delete", 5) {
	case 0:
		err := g.m.DeleteNodeByID(g.ids[i])
		if i == 0 {
			vp.Reach("protected")
			vp.Assert(err == ua.BadNodeIDInvalid, "a node of namespace 0 is not deleted")
			return
		}
		vp.Assert(err == nil, "a node is deleted")
		there[i] = false
	case 1:
		k, err := g.m.DeleteNodeByIDRecursive(g.ids[i])
		if i == 0 {
			vp.Assert(err == ua.BadNodeIDInvalid && k == 0, "a node of namespace 0 is not deleted")
			return
		}
		c := 0
		for j := 1; j < 5; j++ {
			if below[j] {
				there[j] = false
				c++
			}
		}
		vp.Assert(err == nil && k == c, "the number of nodes deleted is told")
	case 2:
		vp.Assert(g.m.DeleteNode(g.nodes[i], false) == nil, "a node is deleted")
		there[i] = false
	case 3:
		vp.Assert(g.m.DeleteNode(g.nodes[i], true) == nil, "a node is deleted")
		for j := range below {
			there[j] = !below[j]
		}
	default:
		vp.Assert(g.m.DeleteNodes([]Node{g.nodes[i], g.nodes[4]}, false) == nil, "a node is deleted")
		there[i], there[4] = false, false
	}
	return
}

// VP_C25_delete: nodes are deleted, with what is below them or without.
func VP_C25_delete() {
	g := vpTreeSetup()
	g.add(g.links(1, 4))
	there := []bool{true, true, true, true, true}
	g.consistent(there)
	i := vp.Choice("node", 5)
	there = g.delete(i)
	g.consistent(there)
	if !there[i] {
		vp.Assert(g.m.DeleteNodeByID(vpN(9)) == ua.BadNodeIDUnknown, "a node that is not there is not deleted")
		if i > 0 {
			vp.Assert(g.m.DeleteNodeByID(g.ids[i]) == ua.BadNodeIDUnknown, "a node that is not there is not deleted")
			_, err := g.m.DeleteNodeByIDRecursive(g.ids[i])
			vp.Assert(err == ua.BadNodeIDUnknown, "a node that is not there is not deleted")
		}
	}
	g.consistent(there)
}

// VP_C25_graph: nodes that are joined in any way, cycles among them.
func VP_C25_graph() {
	g := vpTreeSetup()
	g.add(g.links(2, vp.Bound(3, 4)))
	there := []bool{true, true, true, true, true}
	g.consistent(there)
	i := 1 + vp.Choice("node", vp.Bound(1, 4))
	g.consistent(g.delete(i))
}

// VP_C25_again: nodes come back after they were deleted.
func VP_C25_again() {
	g := vpTreeSetup()
	refs := g.links(1, 4)
	g.add(refs)
	i := 1 + vp.Choice("node", 4)
	there := g.delete(i)
	g.consistent(there)
	var back []Node
	for j := 1; j < 5; j++ {
		if there[j] {
			continue
		}
		var rs []ua.Reference
		for _, r := range refs[j] {
			if t := g.at(ua.ToNodeID(r.TargetID, g.m.namespaces)); there[t] || t >= j {
				rs = append(rs, r)
			}
		}
		g.object(j, rs)
		back = append(back, g.nodes[j])
		there[j] = true
	}
	if !there[0] {
		vp.Stop()
	}
	if vp.Choice("add", 2) == 0 {
		vp.Assert(g.m.AddNodes(back...) == nil, "nodes are added")
	} else if len(back) == 1 {
		vp.Assert(g.m.AddNode(back[0]) == nil, "nodes are added")
	} else {
		vp.Stop()
	}
	g.consistent(there)
}

// VP_C25_types: the types below a type, and whether one is.
func VP_C25_types() {
	g := vpTreeSetup()
	parent := make([]int, 5)
	for i := 1; i < 5; i++ {
		parent[i] = vp.Choice("supertype", i)
		g.object(i, []ua.Reference{ua.NewReference(ua.ReferenceTypeIDHasSubtype, true, ua.NewExpandedNodeID(g.ids[parent[i]]))})
	}
	vp.Assert(g.m.AddNodes(g.nodes[1:]...) == nil, "nodes are added")
	for i := range g.ids {
		got := g.m.GetSubTypes(g.nodes[i])
		n := 0
		for j := 1; j < 5; j++ {
			k := j
			for k != i && k != 0 {
				k = parent[k]
			}
			is := k == i && j != i
			has := false
			for _, x := range got {
				has = has || x == g.nodes[j]
			}
			vp.Assert(is == has, "exactly the types below a type are its subtypes")
			vp.Assert(j == i || g.m.IsSubtype(g.ids[j], g.ids[i]) == is, "a type is a subtype of those above it")
			if is {
				n++
			}
		}
		vp.Assert(len(got) == n, "exactly the types below a type are its subtypes")
	}
}
