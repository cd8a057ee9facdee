package server

import (
	"bytes"
	"reflect"
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
	"github.com/djherbis/buffer"
	"github.com/gammazero/workerpool"
	"github.com/google/uuid"
)

// vpAdmin is a role with every permission, vpUser the identity that has it.
var vpAdmin = ua.NodeIDNumeric{ID: 9001}

// vpServer is a server with an empty address space and the default limits; every user has the role vpAdmin.
func vpServer() *Server {
	srv := &Server{
		localDescription:         ua.ApplicationDescription{ApplicationURI: "urn:vp"},
		maxSessionCount:          100,
		maxSubscriptionCount:     100,
		serverCapabilities:       ua.NewServerCapabilities(),
		maxBufferSize:            8192,
		closing:                  make(chan struct{}),
		serverUris:               []string{"urn:vp"},
		serverDiagnosticsSummary: &ua.ServerDiagnosticsSummaryDataType{},
		rolePermissions:          []ua.RolePermissionType{{RoleID: vpAdmin, Permissions: ua.PermissionType(0x7FFFFFFF)}},
		rolesProvider: GetRolesFunc(func(any, string, string) ([]ua.NodeID, error) {
			return []ua.NodeID{vpAdmin}, nil
		}),
	}
	srv.workerpool = workerpool.New(4)
	srv.sessionManager = NewSessionManager(srv)
	srv.subscriptionManager = NewSubscriptionManager(srv)
	srv.namespaceManager = NewNamespaceManager(srv)
	srv.scheduler = NewScheduler(srv)
	return srv
}

// vpSrvChannel is an open channel of mode None to the server.
func vpSrvChannel(srv *Server, id uint32) (*vpConn, *serverSecureChannel) {
	conn := &vpConn{}
	ch := &serverSecureChannel{
		srv: srv, conn: conn, securityMode: ua.MessageSecurityModeNone,
		sendBufferSize: 8192, receiveBufferSize: 8192,
		sendBuffer: make([]byte, 8192), receiveBuffer: make([]byte, 64), encryptionBuffer: make([]byte, 64),
		securityPolicyURI: ua.SecurityPolicyURINone, securityPolicy: new(ua.SecurityPolicyNone),
		bufferPool: buffer.NewMemPoolAt(8192),
		channelID:  id,
	}
	ch.bytesPool.New = func() any { s := make([]byte, 8192); return &s }
	return conn, ch
}

// vpSession is an activated session of the user bound to channel id.
func vpSession(srv *Server, token uint32, channel uint32, user any) *Session {
	s := NewSession(srv, ua.NodeIDNumeric{NamespaceIndex: 1, ID: 500 + token}, "s", ua.NodeIDNumeric{NamespaceIndex: 1, ID: token}, "nonce", 3600000, ua.ApplicationDescription{}, "", "", "", 0)
	srv.sessionManager.Add(s)
	s.SetUserIdentity(user)
	s.SetSecureChannelId(channel)
	return s
}

// vpHeader is a request header of the session with token.
func vpHeader(token uint32) ua.RequestHeader {
	return ua.RequestHeader{AuthenticationToken: ua.NodeIDNumeric{NamespaceIndex: 1, ID: token}, RequestHandle: 77}
}

// vpReply decodes the k-th message written to the connection: into res, or as the fault (returned) it is.
// Every message carries the id of the request it answers.
func vpReply(conn *vpConn, k int, requestid uint32, res ua.ServiceResponse) ua.StatusCode {
	vp.Assert(len(conn.out) > k, "the request is answered")
	if len(conn.out) <= k {
		vp.Stop()
	}
	b := conn.out[k]
	vp.Assert(vpLE32(b[20:]) == requestid, "the answer carries the id of its request")
	_, c := vpSrvChannel(vpDecodeServer, 0)
	dec := ua.NewBinaryDecoder(bytes.NewReader(b[24:]), c)
	var id ua.NodeID
	vp.Assert(dec.ReadNodeID(&id) == nil, "the answer is well formed")
	n, _ := id.(ua.NodeIDNumeric)
	if n.ID == 397 {
		var f ua.ServiceFault
		vp.Assert(dec.Decode(&f) == nil, "the answer is well formed")
		vp.Assert(f.ServiceResult != ua.Good, "a fault has a bad result")
		return f.ServiceResult
	}
	want, ok := ua.FindBinaryEncodingIDForType(reflect.TypeOf(res).Elem())
	vp.Assert(ok && ua.ToNodeID(want, nil) == id, "the answer has the type of its request")
	vp.Assert(dec.Decode(res) == nil, "the answer is well formed")
	return res.Header().ServiceResult
}

var vpDecodeServer = func() *Server {
	srv := &Server{maxBufferSize: 8192, localDescription: ua.ApplicationDescription{ApplicationURI: "urn:vp"}}
	srv.namespaceManager = NewNamespaceManager(srv)
	return srv
}()

// vpDo sends one request of the session with token 1 and decodes the answer.
func vpDo(srv *Server, conn *vpConn, ch *serverSecureChannel, req ua.ServiceRequest, res ua.ServiceResponse) ua.StatusCode {
	id := uint32(4000 + len(conn.out))
	k := len(conn.out)
	err := srv.handleRequest(ch, req, id)
	vp.Assert(err == nil, "the request is answered")
	st := vpReply(conn, k, id, res)
	vp.Assert(len(conn.out) == k+1, "the request is answered once")
	return st
}

// vpAddVariable adds a variable to the address space without references.
func vpAddVariable(srv *Server, id ua.NodeID, value ua.Variant, dataType ua.NodeID, rank int32, access byte) *VariableNode {
	n := NewVariableNode(srv, id, ua.QualifiedName{Name: "v"}, ua.LocalizedText{Text: "v"}, ua.LocalizedText{}, nil, nil,
		ua.NewDataValue(value, ua.Good, vpTime, 0, vpTime, 0), dataType, rank, nil, access, 0, false, nil)
	srv.namespaceManager.nodes[id] = n
	return n
}

var vpTime = time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)

type vpArrayCase struct {
	a, b     any // three elements each, all different
	dataType ua.NodeID
}

func vpGUID(b byte) uuid.UUID { return uuid.UUID{b, 1, 2} }

// vpArrays has an example of every array type a variable can hold.
var vpArrays = []vpArrayCase{
	{[]bool{true, false, true}, []bool{false, true, true}, ua.DataTypeIDBoolean},
	{[]int8{1, 2, 3}, []int8{11, 12, 13}, ua.DataTypeIDSByte},
	{[]byte{1, 2, 3}, []byte{11, 12, 13}, ua.DataTypeIDByte},
	{[]int16{1, 2, 3}, []int16{11, 12, 13}, ua.DataTypeIDInt16},
	{[]uint16{1, 2, 3}, []uint16{11, 12, 13}, ua.DataTypeIDUInt16},
	{[]int32{1, 2, 3}, []int32{11, 12, 13}, ua.DataTypeIDInt32},
	{[]uint32{1, 2, 3}, []uint32{11, 12, 13}, ua.DataTypeIDUInt32},
	{[]int64{1, 2, 3}, []int64{11, 12, 13}, ua.DataTypeIDInt64},
	{[]uint64{1, 2, 3}, []uint64{11, 12, 13}, ua.DataTypeIDUInt64},
	{[]float32{1, 2, 3}, []float32{11, 12, 13}, ua.DataTypeIDFloat},
	{[]float64{1, 2, 3}, []float64{11, 12, 13}, ua.DataTypeIDDouble},
	{[]string{"abc", "bcd", "cde"}, []string{"xyz", "yz", "z"}, ua.DataTypeIDString},
	{[]time.Time{vpTime, vpTime.Add(1e9), vpTime.Add(2e9)}, []time.Time{vpTime.Add(5e9), vpTime.Add(6e9), vpTime.Add(7e9)}, ua.DataTypeIDDateTime},
	{[]uuid.UUID{vpGUID(1), vpGUID(2), vpGUID(3)}, []uuid.UUID{vpGUID(11), vpGUID(12), vpGUID(13)}, ua.DataTypeIDGUID},
	{[]ua.ByteString{"abc", "bcd", "cde"}, []ua.ByteString{"xyz", "yz", "z"}, ua.DataTypeIDByteString},
	{[]ua.XMLElement{"a", "b", "c"}, []ua.XMLElement{"x", "y", "z"}, ua.DataTypeIDXMLElement},
	{[]ua.NodeID{ua.NodeIDNumeric{ID: 1}, ua.NodeIDNumeric{ID: 2}, ua.NodeIDNumeric{ID: 3}}, []ua.NodeID{ua.NodeIDNumeric{ID: 11}, ua.NodeIDNumeric{ID: 12}, ua.NodeIDNumeric{ID: 13}}, ua.DataTypeIDNodeID},
	{[]ua.ExpandedNodeID{{NodeID: ua.NodeIDNumeric{ID: 1}}, {NodeID: ua.NodeIDNumeric{ID: 2}}, {NodeID: ua.NodeIDNumeric{ID: 3}}}, []ua.ExpandedNodeID{{NodeID: ua.NodeIDNumeric{ID: 11}}, {NodeID: ua.NodeIDNumeric{ID: 12}}, {NodeID: ua.NodeIDNumeric{ID: 13}}}, ua.DataTypeIDExpandedNodeID},
	{[]ua.StatusCode{1, 2, 3}, []ua.StatusCode{11, 12, 13}, ua.DataTypeIDStatusCode},
	{[]ua.QualifiedName{{Name: "a"}, {Name: "b"}, {Name: "c"}}, []ua.QualifiedName{{Name: "x"}, {Name: "y"}, {Name: "z"}}, ua.DataTypeIDQualifiedName},
	{[]ua.LocalizedText{{Text: "a"}, {Text: "b"}, {Text: "c"}}, []ua.LocalizedText{{Text: "x"}, {Text: "y"}, {Text: "z"}}, ua.DataTypeIDLocalizedText},
	{[]ua.ExtensionObject{ua.Range{Low: 1}, ua.Range{Low: 2}, ua.Range{Low: 3}}, []ua.ExtensionObject{ua.Range{Low: 11}, ua.Range{Low: 12}, ua.Range{Low: 13}}, ua.DataTypeIDStructure},
	{[]ua.DataValue{{Value: int32(1)}, {Value: int32(2)}, {Value: int32(3)}}, []ua.DataValue{{Value: int32(11)}, {Value: int32(12)}, {Value: int32(13)}}, ua.DataTypeIDDataValue},
	{[]ua.Variant{int32(1), "b", int32(3)}, []ua.Variant{int32(11), "y", int32(13)}, ua.DataTypeIDBaseDataType},
}

func vpSlice(a any, i, j int) any { return reflect.ValueOf(a).Slice(i, j).Interface() }

func vpRead(srv *Server, conn *vpConn, ch *serverSecureChannel, id ua.NodeID, t string) ua.DataValue {
	var res ua.ReadResponse
	req := &ua.ReadRequest{RequestHeader: vpHeader(1), NodesToRead: []ua.ReadValueID{{NodeID: id, AttributeID: ua.AttributeIDValue, IndexRange: t}}}
	st := vpDo(srv, conn, ch, req, &res)
	vp.Assert(st == ua.Good && len(res.Results) == 1, "a read gives one result per node")
	if len(res.Results) != 1 {
		vp.Stop()
	}
	return res.Results[0]
}

func vpWrite(srv *Server, conn *vpConn, ch *serverSecureChannel, id ua.NodeID, t string, v ua.Variant) ua.StatusCode {
	var res ua.WriteResponse
	req := &ua.WriteRequest{RequestHeader: vpHeader(1), NodesToWrite: []ua.WriteValue{{NodeID: id, AttributeID: ua.AttributeIDValue, IndexRange: t, Value: ua.DataValue{Value: v}}}}
	st := vpDo(srv, conn, ch, req, &res)
	vp.Assert(st == ua.Good && len(res.Results) == 1, "a write gives one result per node")
	if len(res.Results) != 1 {
		vp.Stop()
	}
	return res.Results[0]
}

var vpVarID = ua.NodeIDNumeric{NamespaceIndex: 2, ID: 7}

func vpRangeSetup() (*Server, *vpConn, *serverSecureChannel) {
	srv := vpServer()
	conn, ch := vpSrvChannel(srv, 5)
	vpSession(srv, 1, 5, ua.AnonymousIdentity{})
	return srv, conn, ch
}

func vpN(id uint32) ua.NodeID { return ua.NodeIDNumeric{NamespaceIndex: 2, ID: id} }

func vpX(id uint32) ua.ExpandedNodeID { return ua.NewExpandedNodeID(vpN(id)) }

// vpRefTypes adds reference types 101 > 102 > 103 (each a subtype of the one before) and 104.
func vpRefTypes(srv *Server) {
	for i := uint32(101); i <= 104; i++ {
		var refs []ua.Reference
		if i == 102 || i == 103 {
			refs = []ua.Reference{ua.NewReference(ua.ReferenceTypeIDHasSubtype, true, vpX(i-1))}
		}
		srv.namespaceManager.nodes[vpN(i)] = NewReferenceTypeNode(srv, vpN(i), ua.QualifiedName{Name: "r"}, ua.LocalizedText{}, ua.LocalizedText{}, nil, refs, false, false, ua.LocalizedText{})
	}
}

func vpSource(srv *Server, id uint32, refs []ua.Reference) {
	srv.namespaceManager.nodes[vpN(id)] = NewObjectNode(srv, vpN(id), ua.QualifiedName{Name: "s"}, ua.LocalizedText{}, ua.LocalizedText{}, nil, refs, 0)
}
