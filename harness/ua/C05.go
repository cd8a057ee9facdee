package ua

import (
	"bytes"
	"reflect"
	"time"

	"github.com/google/uuid"

	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use codec
//vp:use structs
//vp:use fill
//vp:bound every strict prefix of the encoding of: every built-in type (strings up to 3 bytes), Variant scalars and arrays of the profiles, and every structured message of the schema with arrays of length 0 and 1 and all profiles; every value of every scalar field
//vp:outside longer strings and arrays

func vpCut(bs []byte, f func(d *BinaryDecoder) error, label string) {
	k := vp.Choice("cut", len(bs))
	err := f(NewBinaryDecoder(bytes.NewReader(bs[:k]), NewEncodingContext()))
	vp.Assert(err != nil, label)
	vp.Reach("cut")
}

func VP_C05_scalars() {
	const l = "a truncated built-in value is rejected"
	switch vp.Choice("type", 16) {
	case 0:
		var x bool
		vpCut(vp.Bytes("b", 1), func(d *BinaryDecoder) error { return d.ReadBoolean(&x) }, l)
	case 1:
		var x int8
		vpCut(vp.Bytes("b", 1), func(d *BinaryDecoder) error { return d.ReadSByte(&x) }, l)
	case 2:
		var x uint16
		vpCut(vp.Bytes("b", 2), func(d *BinaryDecoder) error { return d.ReadUInt16(&x) }, l)
	case 3:
		var x int32
		vpCut(vp.Bytes("b", 4), func(d *BinaryDecoder) error { return d.ReadInt32(&x) }, l)
	case 4:
		var x uint64
		vpCut(vp.Bytes("b", 8), func(d *BinaryDecoder) error { return d.ReadUInt64(&x) }, l)
	case 5:
		var x float32
		vpCut(vp.Bytes("b", 4), func(d *BinaryDecoder) error { return d.ReadFloat(&x) }, l)
	case 6:
		var x float64
		vpCut(vp.Bytes("b", 8), func(d *BinaryDecoder) error { return d.ReadDouble(&x) }, l)
	case 7:
		bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteString(vpStr("s", 3)) })
		var x string
		vpCut(bs, func(d *BinaryDecoder) error { return d.ReadString(&x) }, l)
	case 8:
		bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteByteString(ByteString(vpStr("s", 3))) })
		var x ByteString
		vpCut(bs, func(d *BinaryDecoder) error { return d.ReadByteString(&x) }, l)
	case 9:
		var x time.Time
		vpCut(vp.Bytes("b", 8), func(d *BinaryDecoder) error { return d.ReadDateTime(&x) }, l)
	case 10:
		var x uuid.UUID
		vpCut(vp.Bytes("b", 16), func(d *BinaryDecoder) error { return d.ReadGUID(&x) }, l)
	case 11:
		n := vpNodeID("n", 5, 3)
		bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteNodeID(n) })
		var x NodeID
		vpCut(bs, func(d *BinaryDecoder) error { return d.ReadNodeID(&x) }, l)
	case 12:
		n := vpExpandedNodeID("n", 2)
		bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteExpandedNodeID(n) })
		var x ExpandedNodeID
		vpCut(bs, func(d *BinaryDecoder) error { return d.ReadExpandedNodeID(&x) }, l)
	case 13:
		q := QualifiedName{vp.U16("q"), vpStr("s", 3)}
		bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteQualifiedName(q) })
		var x QualifiedName
		vpCut(bs, func(d *BinaryDecoder) error { return d.ReadQualifiedName(&x) }, l)
	case 14:
		q := LocalizedText{vpStr("t", 2), vpStr("s", 2)}
		bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteLocalizedText(q) })
		var x LocalizedText
		vpCut(bs, func(d *BinaryDecoder) error { return d.ReadLocalizedText(&x) }, l)
	case 15:
		q := vpDiag("d", 0)
		bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteDiagnosticInfo(q) })
		var x DiagnosticInfo
		vpCut(bs, func(d *BinaryDecoder) error { return d.ReadDiagnosticInfo(&x) }, l)
	}
}

// any variant encoding: an arbitrary valid scalar or array header followed by enough arbitrary bytes
func VP_C05_variant() {
	v := vpAnyVariant("v")
	bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteVariant(v) })
	var x Variant
	vpCut(bs, func(d *BinaryDecoder) error { return d.ReadVariant(&x) }, "a truncated Variant is rejected")
}

func VP_C05_datavalue() {
	v := vpFillData("v", vp.Choice("profile", 8))
	v.Value = vpFillVariant("w", vp.Choice("value", 7))
	bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteDataValue(v) })
	label := "a truncated DataValue is rejected"
	if bs[0] == 1 {
		label = "a truncated DataValue holding only a value is rejected"
	}
	var x DataValue
	vpCut(bs, func(d *BinaryDecoder) error { return d.ReadDataValue(&x) }, label)
}

func VP_C05_extensionobject() {
	v := vpFillExt("v", 1+vp.Choice("profile", 4))
	bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteExtensionObject(v) })
	var x ExtensionObject
	vpCut(bs, func(d *BinaryDecoder) error { return d.ReadExtensionObject(&x) }, "a truncated ExtensionObject is rejected")
}

func vpHasData(s *vpStruct) bool {
	for _, f := range s.fields {
		if f.kind == "DataValue" {
			return true
		}
		if len(f.kind) > 7 && f.kind[:7] == "struct " && vpHasData(&vpStructs[vpIndex[f.kind[7:]]]) {
			return true
		}
	}
	return false
}

func VP_C05_messages() {
	s := &vpStructs[vp.Choice("type", len(vpStructs))]
	n, p := vp.Choice("n", 2), vp.Choice("profile", vp.Bound(4, 7))
	x := s.mk()
	vpFill("x", reflect.ValueOf(x).Elem(), n, p)
	bs := vpEnc(func(e *BinaryEncoder) error { return e.Encode(x) })
	if len(bs) == 0 {
		vp.Stop()
	}
	y := s.mk()
	label := "a truncated message is rejected"
	if vpHasData(s) {
		label = "a truncated message with data values is rejected"
	}
	vpCutSym(bs, func(d *BinaryDecoder) error { return d.Decode(y) }, label)
}

// vpCutSym cuts at one of the last few positions, at the first, or in the middle
func vpCutSym(bs []byte, f func(d *BinaryDecoder) error, label string) {
	k := vp.Choice("cut", vp.Bound(4, 8))
	switch {
	case k == 0:
		k = 0
	case k == 1:
		k = len(bs) / 2
	default:
		k = len(bs) - (k - 1)
	}
	if k < 0 {
		k = 0
	}
	err := f(NewBinaryDecoder(bytes.NewReader(bs[:k]), NewEncodingContext()))
	vp.Assert(err != nil, label)
	vp.Reach("cut")
}
