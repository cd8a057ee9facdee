package ua

import (
	"reflect"
	"time"

	"github.com/djherbis/buffer"
	"github.com/google/uuid"

	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use codec
//vp:use structs
//vp:use fill
//vp:bound every one of the 284 structured types of the schema; every value of every scalar field (booleans alternate through the message, in both phases); array lengths 0,1,2 (thorough: up to 3) in all arrays of the message at once (arrays inside array elements: half of that); strings 0..2 bytes; 7 profiles of identifier form, variant content, extension object content and optional-field presence
//vp:assume the oracle (field order, field types, encoding ids) is the OPC Foundation binary schema shipped in schema/Opc.Ua.Types.bsd
//vp:outside arrays longer than the bound, more deeply nested extension objects and variants than the profiles build

// vpRefStruct is the reference encoding: the fields the schema lists, in the order the schema lists them.
func (r *vpRef) structure(name string, v reflect.Value) {
	k, ok := vpIndex[name]
	vp.Assert(ok, "every structured type is in the schema")
	for _, f := range vpStructs[k].fields {
		fv := v.FieldByName(f.name)
		if !f.array {
			r.field(f.kind, fv)
			continue
		}
		r.u32(uint32(fv.Len()))
		for j := 0; j < fv.Len(); j++ {
			r.field(f.kind, fv.Index(j))
		}
	}
}

func (r *vpRef) field(kind string, v reflect.Value) {
	switch kind {
	case "Boolean":
		if v.Bool() {
			r.u8(1)
		} else {
			r.u8(0)
		}
	case "SByte":
		r.u8(byte(v.Int()))
	case "Byte":
		r.u8(byte(v.Uint()))
	case "Int16":
		r.u16(uint16(v.Int()))
	case "UInt16":
		r.u16(uint16(v.Uint()))
	case "Int32":
		r.u32(uint32(v.Int()))
	case "UInt32", "StatusCode":
		r.u32(uint32(v.Uint()))
	case "Int64":
		r.u64(uint64(v.Int()))
	case "enum8", "enum16", "enum32":
		var x uint64
		switch v.Kind() {
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			x = uint64(v.Int())
		default:
			x = v.Uint()
		}
		switch kind {
		case "enum8":
			r.u8(byte(x))
		case "enum16":
			r.u16(uint16(x))
		default:
			r.u32(uint32(x))
		}
	case "Float":
		r.f32(v.Interface().(float32))
	case "Double":
		r.f64(v.Interface().(float64))
	case "String", "ByteString":
		r.str(v.String())
	case "Guid":
		r.guid(v.Interface().(uuid.UUID))
	case "DateTime":
		r.time(v.Interface().(time.Time))
	case "NodeId":
		if v.IsNil() {
			r.nodeID(nil, 0)
		} else {
			r.nodeID(v.Interface().(NodeID), 0)
		}
	case "ExpandedNodeId":
		r.xnodeID(v.Interface().(ExpandedNodeID))
	case "QualifiedName":
		q := v.Interface().(QualifiedName)
		r.u16(q.NamespaceIndex)
		r.str(q.Name)
	case "LocalizedText":
		r.text(v.Interface().(LocalizedText))
	case "DiagnosticInfo":
		r.diag(v.Interface().(DiagnosticInfo))
	case "DataValue":
		r.data(v.Interface().(DataValue))
	case "Variant":
		r.variant(v.Interface())
	case "ExtensionObject":
		r.ext(v.Interface())
	default:
		r.structure(kind[len("struct "):], v)
	}
}

func (r *vpRef) variant(v any) {
	switch x := v.(type) {
	case nil:
		r.u8(0)
	case bool:
		r.u8(1)
		if x {
			r.u8(1)
		} else {
			r.u8(0)
		}
	case int32:
		r.u8(6)
		r.u32(uint32(x))
	case uint64:
		r.u8(9)
		r.u64(x)
	case string:
		r.u8(12)
		r.str(x)
	case []int32:
		r.u8(6 | 0x80)
		r.u32(uint32(len(x)))
		for _, y := range x {
			r.u32(uint32(y))
		}
	case []string:
		r.u8(12 | 0x80)
		r.u32(uint32(len(x)))
		for _, y := range x {
			r.str(y)
		}
	default:
		vp.Assert(false, "variant content kept its type")
	}
}

func (r *vpRef) ext(v any) {
	var name string
	var id uint32
	switch v.(type) {
	case nil:
		r.u8(0)
		r.u8(0)
		r.u8(0)
		return
	case SimpleAttributeOperand:
		name, id = "SimpleAttributeOperand", 603
	case LiteralOperand:
		name, id = "LiteralOperand", 597
	case ElementOperand:
		name, id = "ElementOperand", 594
	default:
		vp.Assert(false, "extension object content kept its type")
	}
	r.nodeID(NodeIDNumeric{0, id}, 0)
	r.u8(1)
	body := vpRef{}
	p := reflect.New(reflect.TypeOf(v)).Elem()
	p.Set(reflect.ValueOf(v))
	body.structure(name, p)
	r.u32(uint32(len(body.b)))
	r.b = append(r.b, body.b...)
}

func (r *vpRef) data(d DataValue) {
	var b byte
	if d.Value != nil {
		b |= 1
	}
	if d.StatusCode != 0 {
		b |= 2
	}
	if !d.SourceTimestamp.IsZero() {
		b |= 4
	}
	if !d.ServerTimestamp.IsZero() {
		b |= 8
	}
	if d.SourcePicoseconds != 0 {
		b |= 16
	}
	if d.ServerPicoseconds != 0 {
		b |= 32
	}
	r.u8(b)
	if d.Value != nil {
		r.variant(d.Value)
	}
	if b&2 != 0 {
		r.u32(uint32(d.StatusCode))
	}
	if b&4 != 0 {
		r.time(d.SourceTimestamp)
	}
	if b&16 != 0 {
		r.u16(d.SourcePicoseconds)
	}
	if b&8 != 0 {
		r.time(d.ServerTimestamp)
	}
	if b&32 != 0 {
		r.u16(d.ServerPicoseconds)
	}
}

func vpMsg(i int) {
	n := vp.Choice("n", vp.Bound(3, 4))
	p := vp.Choice("profile", 7)
	vpParity = p&1 != 0
	s := &vpStructs[i]
	x := s.mk()
	xv := reflect.ValueOf(x).Elem()
	vpFill("x", xv, n, p)
	ref := vpRef{}
	ref.structure(s.name, xv)
	bs := vpEnc(func(e *BinaryEncoder) error { return e.Encode(x) })
	vpSameBytes(bs, ref.b, s.name+" is encoded in schema order")
	y := s.mk()
	vpDec(bs, func(d *BinaryDecoder) error { return d.Decode(y) })
	ref2 := vpRef{}
	ref2.structure(s.name, reflect.ValueOf(y).Elem())
	vpSameBytes(ref2.b, ref.b, s.name+" decodes to the value that was encoded")

	// the same message as the body of an extension object, through both writers
	var hdr vpRef
	hdr.nodeID(NodeIDNumeric{0, s.id}, 0)
	hdr.u8(1)
	hdr.u32(uint32(len(ref.b)))
	hdr.b = append(hdr.b, ref.b...)
	b1 := vpEnc(func(e *BinaryEncoder) error { return e.WriteExtensionObject(x) })
	vpSameBytes(b1, hdr.b, s.name+" as extension object")
	mem := buffer.NewPartitionAt(vpPool)
	vp.Assert(NewBinaryEncoder(mem, NewEncodingContext()).WriteExtensionObject(x) == nil, "encoding succeeds")
	b2 := make([]byte, mem.Len())
	k, _ := mem.ReadAt(b2, 0)
	vp.Assert(k == len(hdr.b), s.name+" as extension object in a message buffer: length")
	vpSameBytes(b2, hdr.b, s.name+" as extension object in a message buffer")
	var z ExtensionObject
	vpDec(b1, func(d *BinaryDecoder) error { return d.ReadExtensionObject(&z) })
	vp.Assert(z != nil && reflect.TypeOf(z) == xv.Type(), s.name+" as extension object keeps its type")
	ref3 := vpRef{}
	zp := reflect.New(xv.Type()).Elem()
	zp.Set(reflect.ValueOf(z))
	ref3.structure(s.name, zp)
	vpSameBytes(ref3.b, ref.b, s.name+" as extension object decodes to the value that was encoded")
	vp.Reach("message")
}

var vpPool = buffer.NewMemPoolAt(64)

func VP_C03_types() { vpMsg(vp.Choice("type", len(vpStructs))) }
