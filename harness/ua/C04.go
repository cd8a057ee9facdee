package ua

import (
	"bytes"
	"time"

	"github.com/google/uuid"

	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use structs
//vp:bound arbitrary input bytes, every length 0..N: scalars N=12/18; DiagnosticInfo, ExtensionObject N=8/10; Variant and DataValue of any nesting N=5/7 and 5/6; array and matrix variants of every non-nesting element type N=14/22 and 22/26 (matrices of node ids and texts: at most 2 elements announced); the body of every structured message N=6/8 (quick/thorough)
//vp:assume the allocator can satisfy a request of the length announced by the input (exhausting memory with a huge length prefix, or with huge dimensions of an array that has no elements, is outside)
//vp:outside inputs longer than the bound; stack exhaustion by deeply nested DiagnosticInfo/Variant/ExtensionObject

// vpTotal runs a decoder over an arbitrary byte string: it returns a value or an error, without panicking or looping.
func vpTotal(n int, f func(d *BinaryDecoder) error) {
	b := vp.Bytes("b", vp.Choice("len", n+1))
	r := bytes.NewReader(b)
	err := f(NewBinaryDecoder(r, NewEncodingContext()))
	if err == nil {
		vp.Reach("accepted")
	} else {
		vp.Reach("rejected")
	}
}

func VP_C04_scalars() {
	N := vp.Bound(12, 18)
	switch vp.Choice("type", 11) {
	case 0:
		var x string
		vpTotal(N, func(d *BinaryDecoder) error { return d.ReadString(&x) })
	case 1:
		var x ByteString
		vpTotal(N, func(d *BinaryDecoder) error { return d.ReadByteString(&x) })
	case 2:
		var x time.Time
		vpTotal(N, func(d *BinaryDecoder) error { return d.ReadDateTime(&x) })
	case 3:
		var x uuid.UUID
		vpTotal(18, func(d *BinaryDecoder) error { return d.ReadGUID(&x) })
	case 4:
		var x NodeID
		vpTotal(N, func(d *BinaryDecoder) error { return d.ReadNodeID(&x) })
	case 5:
		var x ExpandedNodeID
		vpTotal(N, func(d *BinaryDecoder) error { return d.ReadExpandedNodeID(&x) })
	case 6:
		var x QualifiedName
		vpTotal(N, func(d *BinaryDecoder) error { return d.ReadQualifiedName(&x) })
	case 7:
		var x LocalizedText
		vpTotal(N, func(d *BinaryDecoder) error { return d.ReadLocalizedText(&x) })
	case 8:
		var x XMLElement
		vpTotal(N, func(d *BinaryDecoder) error { return d.ReadXMLElement(&x) })
	case 9:
		var x []string
		vpTotal(N, func(d *BinaryDecoder) error { return d.ReadStringArray(&x) })
	case 10:
		var x StatusCode
		vpTotal(6, func(d *BinaryDecoder) error { return d.ReadStatusCode(&x) })
	}
}

func VP_C04_variant() {
	var x Variant
	vpTotal(vp.Bound(5, 7), func(d *BinaryDecoder) error { return d.ReadVariant(&x) })
}

// vpTotalAs is vpTotal with a given first byte.
func vpTotalAs(first byte, n, min int, cap func(b []byte), f func(d *BinaryDecoder) error) {
	b := vp.Bytes("b", 1+n-vp.Choice("len", vp.Bound(min, n)+1))
	b[0] = first
	cap(b)
	if f(NewBinaryDecoder(bytes.NewReader(b), NewEncodingContext())) == nil {
		vp.Reach("accepted")
	} else {
		vp.Reach("rejected")
	}
}

// arrays of every simple element type
func VP_C04_array() {
	var x Variant
	vpTotalAs(0x80|byte(vp.Choice("type", 22)), vp.Bound(13, 21), 13, func([]byte) {}, func(d *BinaryDecoder) error { return d.ReadVariant(&x) })
}

// matrices of every simple element type: the announced dimensions are unrelated to the announced element count
func VP_C04_matrix() {
	var x Variant
	vpTotalAs(0xC0|byte(vp.Choice("type", 22)), vp.Bound(21, 25), 0, func(b []byte) {
		if t := b[0] & 0x3f; t == 17 || t == 18 || t == 21 {
			vp.Assume(b[2]|b[3]|b[4] == 0 && b[1] <= 2) // element types with many forms: at most 2 elements
		}
		if len(b) > 12 && (b[1]|b[2]|b[3]|b[4] == 0 || b[4] >= 0x80) {
			// no elements: keep the rows that the dimensions ask for within the bound
			for i := 9; i+3 < len(b); i += 4 {
				vp.Assume(b[i+1]|b[i+2]|b[i+3] == 0 && b[i] < 4 || b[i+3] >= 0x80)
			}
		}
	}, func(d *BinaryDecoder) error { return d.ReadVariant(&x) })
}

func VP_C04_datavalue() {
	var x DataValue
	vpTotal(vp.Bound(5, 6), func(d *BinaryDecoder) error { return d.ReadDataValue(&x) })
}

func VP_C04_diagnosticinfo() {
	var x DiagnosticInfo
	vpTotal(vp.Bound(8, 10), func(d *BinaryDecoder) error { return d.ReadDiagnosticInfo(&x) })
}

func VP_C04_extensionobject() {
	var x ExtensionObject
	vpTotal(vp.Bound(8, 10), func(d *BinaryDecoder) error { return d.ReadExtensionObject(&x) })
}

func VP_C04_messages() {
	s := &vpStructs[vp.Choice("type", len(vpStructs))]
	x := s.mk()
	vpTotal(vp.Bound(6, 8), func(d *BinaryDecoder) error { return d.Decode(x) })
}
