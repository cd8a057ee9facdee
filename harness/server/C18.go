package server

import (
	"reflect"
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
	"github.com/google/uuid"
)

//vp:use chan
//vp:use srv
//vp:bound every pair of a written type (24 types as scalar, as array of 1..3 elements and as 2 or 3 dimensional array, and null) and a declared type (24 types), every declared rank -3..3; string, byte string and array limits with every length around the limit
//vp:outside write handlers supplied by the application; limits on elements inside arrays

// vpSliceTypes: index in vpArrays -> the scalar of that type.
func vpScalar(i int) ua.Variant {
	switch i {
	case 0:
		return vp.Bool("v")
	case 1:
		return vp.I8("v")
	case 2:
		return vp.U8("v")
	case 3:
		return vp.I16("v")
	case 4:
		return vp.U16("v")
	case 5:
		return vp.I32("v")
	case 6:
		return vp.U32("v")
	case 7:
		return vp.I64("v")
	case 8:
		return vp.U64("v")
	case 9:
		return float32(1.5)
	case 10:
		return 2.5
	case 11:
		return "text"
	case 12:
		return vpTime
	case 13:
		return vpGUID(7)
	case 14:
		return ua.ByteString("bytes")
	case 15:
		return ua.XMLElement("<a/>")
	case 16:
		return ua.NodeIDString{NamespaceIndex: 2, ID: "x"}
	case 17:
		return ua.ExpandedNodeID{NodeID: ua.NodeIDNumeric{ID: 4}}
	case 18:
		return ua.StatusCode(vp.U32("v"))
	case 19:
		return ua.QualifiedName{NamespaceIndex: 1, Name: "q"}
	case 20:
		return ua.LocalizedText{Text: "t", Locale: "l"}
	case 21:
		return ua.Range{Low: 1, High: 2}
	case 22:
		return ua.DataValue{Value: int32(3)}
	}
	return nil
}

func vpMulti(i, dims int) ua.Variant {
	switch i {
	case 0:
		return [][]bool{{true, false}, {false, false}}
	case 2:
		return [][]byte{{1, 2}, {3, 4}}
	case 5:
		if dims == 3 {
			return [][][]int32{{{1, 2}, {3, 4}}, {{5, 6}, {7, 8}}}
		}
		return [][]int32{{1, 2}, {3, 4}}
	case 10:
		if dims == 3 {
			return [][][]float64{{{1, 2}}, {{3, 4}}}
		}
		return [][]float64{{1, 2}, {3, 4}}
	case 11:
		return [][]string{{"a", "b"}}
	case 12:
		return [][]time.Time{{vpTime}}
	case 13:
		return [][]uuid.UUID{{vpGUID(1)}}
	case 16:
		return [][]ua.NodeID{{ua.NodeIDNumeric{ID: 1}}}
	case 21:
		return [][]ua.ExtensionObject{{ua.Range{Low: 1}}}
	case 23:
		return [][]ua.Variant{{int32(1), "a"}}
	}
	return nil
}

var vpMultiTypes = []int{0, 2, 5, 10, 11, 12, 13, 16, 21, 23}

func vpTypesSetup() (*Server, *vpConn, *serverSecureChannel, int, int32, *VariableNode) {
	srv, conn, ch := vpRangeSetup()
	dest := vp.Choice("declared type", 24)
	rank := int32(vp.Choice("declared rank", 7) - 3)
	n := vpAddVariable(srv, vpVarID, "before", vpArrays[dest].dataType, rank, 3)
	return srv, conn, ch, dest, rank, n
}

// vpAccepts: a value of type t (index in vpArrays) and dims dimensions suits a variable of the declared type and rank.
func vpAccepts(t, dims, dest int, rank int32) bool {
	if dest != t && dest != 23 {
		return false
	}
	switch rank {
	case ua.ValueRankAny:
		return true
	case ua.ValueRankScalarOrOneDimension:
		return dims <= 1
	case ua.ValueRankOneOrMoreDimensions:
		return dims >= 1
	case ua.ValueRankScalar:
		return dims == 0
	}
	return int(rank) == dims
}

func vpWritten(n *VariableNode, st ua.StatusCode, ok bool, v ua.Variant) {
	vp.Assert((st == ua.Good) == ok, "a write is accepted exactly when type and rank suit the variable")
	if st == ua.Good {
		vp.Assert(reflect.DeepEqual(n.Value().Value, v) && n.Value().StatusCode == ua.Good, "an accepted write stores the value")
	} else {
		vp.Assert(reflect.DeepEqual(n.Value().Value, "before"), "a refused write changes nothing")
		vp.Assert(st == ua.BadTypeMismatch, "a value that does not suit is a type mismatch")
	}
}

func VP_C18_scalar() {
	srv, conn, ch, dest, rank, n := vpTypesSetup()
	t := vp.Choice("written type", 24)
	v := vpScalar(t)
	st := vpWrite(srv, conn, ch, vpVarID, "", v)
	if t == 23 {
		vp.Assert(vp.Or(st == ua.Good, reflect.DeepEqual(n.Value().Value, "before")), "a refused write changes nothing")
		return
	}
	if t == 14 && dest == 2 && rank == 1 {
		vpWritten(n, st, true, []byte("bytes"))
		return
	}
	vpWritten(n, st, vpAccepts(t, 0, dest, rank), v)
}

func VP_C18_array() {
	srv, conn, ch, dest, rank, n := vpTypesSetup()
	t := vp.Choice("written type", 24)
	v := vpSlice(vpArrays[t].b, 0, 1+vp.Choice("elements", 3))
	st := vpWrite(srv, conn, ch, vpVarID, "", v)
	if t == 2 && dest == 14 && rank == -1 {
		vpWritten(n, st, true, ua.ByteString(v.([]byte)))
		return
	}
	vpWritten(n, st, vpAccepts(t, 1, dest, rank), v)
}

func VP_C18_multi() {
	srv, conn, ch, dest, rank, n := vpTypesSetup()
	t := vpMultiTypes[vp.Choice("written type", len(vpMultiTypes))]
	dims := 2
	if (t == 5 || t == 10) && vp.Bool("three dimensions") {
		dims = 3
	}
	v := vpMulti(t, dims)
	st := vpWrite(srv, conn, ch, vpVarID, "", v)
	vpWritten(n, st, vpAccepts(t, dims, dest, rank), v)
}

// VP_C18_subtype: the declared type may be a subtype of the written one's built-in type, at any depth.
func VP_C18_subtype() {
	srv, conn, ch := vpRangeSetup()
	names := []ua.NodeID{ua.DataTypeIDInt32, ua.DataTypeIDEnumeration, ua.DataTypeIDStructure, ua.DataTypeIDString, ua.DataTypeIDDouble, ua.DataTypeIDDateTime}
	base := vp.Choice("base type", len(names))
	depth := 1 + vp.Choice("depth", 3)
	up := names[base]
	for i := 0; i < depth; i++ {
		bn, dn, ds := ua.QualifiedName{Name: "t"}, ua.LocalizedText{Text: "t"}, ua.LocalizedText{}
		id := ua.NodeIDNumeric{NamespaceIndex: 2, ID: uint32(100 + i)}
		srv.namespaceManager.nodes[id] = NewDataTypeNode(srv, id, bn, dn, ds, nil, []ua.Reference{
			ua.NewReference(ua.ReferenceTypeIDHasEncoding, false, ua.NewExpandedNodeID(ua.DataTypeIDBoolean)),
			ua.NewReference(ua.ReferenceTypeIDHasSubtype, false, ua.NewExpandedNodeID(ua.DataTypeIDGUID)),
			ua.NewReference(ua.ReferenceTypeIDHasSubtype, true, ua.NewExpandedNodeID(up))}, false, nil)
		up = id
	}
	n := vpAddVariable(srv, vpVarID, "before", up, -1, 3)
	for k := 0; k < 2; k++ { // the second time the type comes from the cache
		w := vp.Choice("written type", 5)
		v := []ua.Variant{int32(5), "text", 2.5, vpTime, ua.Range{Low: 1}}[w]
		n.SetValue(ua.DataValue{Value: "before"})
		st := vpWrite(srv, conn, ch, vpVarID, "", v)
		ok := []bool{base <= 1, base == 3, base == 4, base == 5, base == 2}[w]
		vpWritten(n, st, ok, v)
	}
}

// VP_C18_abstract: a variable of an abstract numeric type takes numbers only.
func VP_C18_abstract() {
	srv, conn, ch := vpRangeSetup()
	bn, dn, ds := ua.QualifiedName{Name: "t"}, ua.LocalizedText{Text: "t"}, ua.LocalizedText{}
	add := func(id, up ua.NodeID) {
		srv.namespaceManager.nodes[id] = NewDataTypeNode(srv, id, bn, dn, ds, nil, []ua.Reference{ua.NewReference(ua.ReferenceTypeIDHasSubtype, true, ua.NewExpandedNodeID(up))}, true, nil)
	}
	add(ua.DataTypeIDNumber, ua.DataTypeIDBaseDataType)
	add(ua.DataTypeIDInteger, ua.DataTypeIDNumber)
	add(ua.DataTypeIDUInteger, ua.DataTypeIDNumber)
	for i, up := range []ua.NodeID{nil, ua.DataTypeIDInteger, ua.DataTypeIDUInteger, ua.DataTypeIDInteger, ua.DataTypeIDUInteger, ua.DataTypeIDInteger, ua.DataTypeIDUInteger, ua.DataTypeIDInteger, ua.DataTypeIDUInteger, ua.DataTypeIDNumber, ua.DataTypeIDNumber} {
		if up != nil {
			add(vpArrays[i].dataType, up)
		}
	}
	dest := vp.Choice("declared type", 3)
	n := vpAddVariable(srv, vpVarID, "before", []ua.NodeID{ua.DataTypeIDNumber, ua.DataTypeIDInteger, ua.DataTypeIDUInteger}[dest], -1, 3)
	t := vp.Choice("written type", 23)
	v := vpScalar(t)
	st := vpWrite(srv, conn, ch, vpVarID, "", v)
	signed, unsigned := t == 1 || t == 3 || t == 5 || t == 7, t == 2 || t == 4 || t == 6 || t == 8
	switch {
	case dest == 0 && (signed || unsigned || t == 9 || t == 10), dest == 1 && signed, dest == 2 && unsigned:
		vpWritten(n, st, true, v)
	default:
		vp.Assert(st == ua.BadTypeMismatch, "a variable of an abstract numeric type refuses values of other types")
	}
}

func VP_C18_limits() {
	srv, conn, ch := vpRangeSetup()
	srv.serverCapabilities.MaxStringLength = uint32(vp.Range("max string", 0, 5))
	srv.serverCapabilities.MaxByteStringLength = uint32(vp.Range("max byte string", 0, 5))
	srv.serverCapabilities.MaxArrayLength = uint32(vp.Range("max array", 0, 5))
	l := vp.Choice("length", 4)
	var v ua.Variant
	var limit uint32
	dt, rank := ua.NodeID(ua.DataTypeIDString), int32(-1)
	switch k := vp.Choice("kind", 26); k {
	case 0:
		v, limit = "abc"[:l], srv.serverCapabilities.MaxStringLength
	case 1:
		v, limit, dt = ua.ByteString("abc"[:l]), srv.serverCapabilities.MaxByteStringLength, ua.DataTypeIDByteString
	default:
		v, limit, dt, rank = vpSlice(vpArrays[k-2].a, 0, l), srv.serverCapabilities.MaxArrayLength, vpArrays[k-2].dataType, 1
	}
	n := vpAddVariable(srv, vpVarID, "before", dt, rank, 3)
	st := vpWrite(srv, conn, ch, vpVarID, "", v)
	ok := uint32(l) <= limit
	vp.Assert((st == ua.Good) == ok, "a value beyond the length limits of the server is refused, any other accepted")
	if !ok {
		vp.Assert(st == ua.BadOutOfRange && reflect.DeepEqual(n.Value().Value, "before"), "a value beyond the length limits changes nothing")
	}
}

// VP_C18_status: status and historizing; a written value reads back the same.
func VP_C18_readback() {
	srv, conn, ch := vpRangeSetup()
	n := vpAddVariable(srv, vpVarID, int32(1), ua.DataTypeIDInt32, -1, 3)
	if vp.Bool("historizing") {
		var res ua.WriteResponse
		st := vpDo(srv, conn, ch, &ua.WriteRequest{RequestHeader: vpHeader(1), NodesToWrite: []ua.WriteValue{{NodeID: vpVarID, AttributeID: ua.AttributeIDHistorizing, Value: ua.DataValue{Value: true}}}}, &res)
		vp.Assert(st == ua.Good && n.Historizing(), "historizing can be switched on")
	}
	v, w := vp.I32("value"), vp.I32("second value")
	st := ua.StatusCode(vp.U32("status"))
	var res ua.WriteResponse
	r := vpDo(srv, conn, ch, &ua.WriteRequest{RequestHeader: vpHeader(1), NodesToWrite: []ua.WriteValue{
		{NodeID: vpVarID, AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: v, StatusCode: st}},
		{NodeID: ua.NodeIDNumeric{ID: 99999}, AttributeID: ua.AttributeIDValue, Value: ua.DataValue{Value: w}}}}, &res)
	vp.Assert(r == ua.Good && len(res.Results) == 2, "one result per write")
	if len(res.Results) == 2 {
		vp.Assert(res.Results[0] == ua.Good && res.Results[1] == ua.BadNodeIDUnknown, "each result belongs to its write")
	}
	got := vpRead(srv, conn, ch, vpVarID, "")
	vp.Assert(got.Value == ua.Variant(v) && got.StatusCode == st, "a written value reads back the same")
}
