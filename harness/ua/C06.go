package ua

import (
	"strings"

	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use codec
//vp:bound numeric identifiers up to 3 digits (thorough 6), namespace indices up to 3 digits (every), string identifiers of any bytes up to 4 (6) long, opaque identifiers up to 2 (3) bytes, every GUID; expanded ids: uris up to 2 (3) bytes, server index up to 2 (4) digits; qualified names up to 2 (4) bytes; browse paths of up to 2 (3) names with 2-digit namespace indices; arbitrary texts up to 7 (9) bytes for the parser's totality
//vp:assume namespace uris contain no ';' (the textual form has no escape for it); names in a browse path contain no '/'
//vp:outside longer identifiers

func vpTextID(name string) NodeID {
	ns := vp.U16(name + ".ns")
	vp.Assume(int(ns) < vp.Bound(1000, 65536))
		switch vp.Choice(name+".kind", 4) {
	case 0:
		id := vp.U32(name + ".id")
		vp.Assume(int(id) < vp.Bound(1000, 1000000))
		vp.Assume(ns != 0 || id != 0)
		return NodeIDNumeric{ns, id}
	case 1:
		return NodeIDString{ns, vpStr(name+".s", vp.Bound(4, 6))}
	case 2:
		return NodeIDGUID{ns, vpGUID(name + ".g")}
	default:
		return NodeIDOpaque{ns, ByteString(vpStr(name+".b", vp.Bound(2, 3)))}
	}
}

func vpIDText(n NodeID) string {
	switch n := n.(type) {
	case NodeIDNumeric:
		return n.String()
	case NodeIDString:
		return n.String()
	case NodeIDGUID:
		return n.String()
	case NodeIDOpaque:
		return n.String()
	}
	return ""
}

func VP_C06_nodeid() {
	n := vpTextID("n")
	m := ParseNodeID(vpIDText(n))
	vp.Assert(m != nil, "the text of a node id parses")
	vp.Assert(m == n, "parsing the text of a node id yields that node id")
	vp.Reach("nodeid")
}

func VP_C06_expanded() {
	e := ExpandedNodeID{ServerIndex: vp.U32("svr"), NamespaceURI: vpStr("uri", vp.Bound(2, 3))}
	vp.Assume(int(e.ServerIndex) < vp.Bound(100, 10000))
	for i := 0; i < len(e.NamespaceURI); i++ {
		vp.Assume(e.NamespaceURI[i] != ';')
	}
	switch vp.Choice("kind", 4) {
	case 0:
		n := NodeIDNumeric{vp.U16("ns"), vp.U32("id")}
		vp.Assume(n.NamespaceIndex < 100 && n.ID < 100 && n.ID > 0)
		e.NodeID = n
	case 1:
		e.NodeID = NodeIDString{0, vpStr("s", 2)}
	case 2:
		e.NodeID = NodeIDOpaque{0, ByteString(vpStr("b", 1))}
	}
	f := ParseExpandedNodeID(e.String())
	vp.Assert(f.ServerIndex == e.ServerIndex && f.NamespaceURI == e.NamespaceURI, "server and namespace of an expanded node id survive the text form")
	vp.Assert(f.NodeID == e.NodeID, "the identifier of an expanded node id survives the text form")
	vp.Reach("expanded")
}

func VP_C06_qualifiedname() {
	q := QualifiedName{vp.U16("ns"), vpStr("s", vp.Bound(2, 4))}
	vp.Assert(ParseQualifiedName(q.String()) == q, "parsing the text of a qualified name yields that name")
	vp.Reach("name")
}

func VP_C06_browsepath() {
	n := 1 + vp.Choice("n", vp.Bound(2, 3))
	path := make([]QualifiedName, n)
	toks := make([]string, n)
	for i := range path {
		path[i] = QualifiedName{vp.U16("ns"), vpStr("s", vp.Bound(1, 2))}
		vp.Assume(path[i].NamespaceIndex < 100)
		vp.Assume(!strings.Contains(path[i].Name, "/"))
		toks[i] = path[i].String()
	}
	got := ParseBrowsePath(strings.Join(toks, "/"))
	vp.Assert(len(got) == n, "a browse path keeps its length")
	for i := range path {
		vp.Assert(got[i] == path[i], "a browse path keeps its names in order")
	}
	vp.Reach("path")
}

// the parsers accept any text: they return an identifier or the null value
func VP_C06_total() {
	s := vpStr("s", vp.Bound(7, 9))
	n := ParseNodeID(s)
	switch x := n.(type) {
	case nil:
		vp.Reach("not a node id")
	case NodeIDString:
		// everything after "s=" is the identifier
		vp.Assert(strings.HasSuffix(s, "s="+x.ID), "a string identifier is taken verbatim")
		vp.Reach("string id")
	case NodeIDNumeric:
		vp.Assert(x.NamespaceIndex != 0 || x.ID != 0, "the null identifier is nil")
		vp.Reach("numeric id")
	default:
		vp.Reach("other id")
	}
}

// namespace index and namespace uri are interchangeable through the namespace table
func VP_C06_namespaces() {
	k := vp.Choice("table", 5)
	uris := []string{"http://opcfoundation.org/UA/", "urn:a", "urn:b", "urn:c"}[:k]
	var n NodeID
	ns := vp.U16("ns")
	switch vp.Choice("kind", 4) {
	case 0:
		n = NodeIDNumeric{ns, vp.U32("id")}
	case 1:
		n = NodeIDString{ns, vpStr("s", 2)}
	case 2:
		n = NodeIDGUID{ns, vpGUID("g")}
	case 3:
		n = NodeIDOpaque{ns, ByteString(vpStr("b", 2))}
	}
	e := ToExpandedNodeID(n, uris)
	vp.Assert(e.ServerIndex == 0, "a local id stays local")
	if ns > 0 && int(ns) < k {
		vp.Assert(e.NamespaceURI == uris[ns], "the namespace uri is the one at the index")
	}
	vp.Assert(ToNodeID(e, uris) == n, "node id to expanded node id and back is the identity")
	f := e
	f.NamespaceURI = "urn:unknown"
	vp.Assert(ToNodeID(f, uris) == nil, "an unknown namespace uri has no node id")
	vp.Reach("namespaces")
}
