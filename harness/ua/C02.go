package ua

import (
	"time"

	"github.com/google/uuid"

	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use codec
//vp:bound every built-in type as scalar, 1-, 2- and 3-dimensional array; every element value; 1-D lengths nil,0..2 (quick) / 0..4 (thorough); each dimension of a matrix 0..2 (quick) / 0..3 (thorough); strings inside elements up to 2 bytes
//vp:outside ragged matrices, matrices of more than 3 dimensions, arrays longer than the bound

func vpRT(v Variant, id byte, dims []int32) Variant {
	bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteVariant(v) })
	// header and dimensions follow the format
	want := id
	if dims != nil {
		want |= 0x80
		if len(dims) > 1 {
			want |= 0x40
		}
	}
	vp.Assert(len(bs) > 0 && bs[0] == want, "the encoding byte names the type and shape")
	if len(dims) > 1 {
		r := vpRef{}
		r.u32(uint32(len(dims)))
		for _, d := range dims {
			r.u32(uint32(d))
		}
		vp.Assert(len(bs) >= len(r.b)+5, "dimensions are present")
		vp.Assert(vp.EqBytes(bs[len(bs)-len(r.b):], r.b), "dimensions follow the elements")
	}
	var v2 Variant
	vpDec(bs, func(d *BinaryDecoder) error { return d.ReadVariant(&v2) })
	return v2
}

func vpVar[T any](id byte, mk func(string) T, eq func(a, b T) bool) {
	shape := vp.Choice("shape", 4)
	max := vp.Bound(2, 4)
	md := vp.Bound(2, 3)
	switch shape {
	case 0:
		x := mk("x")
		y, ok := vpRT(Variant(x), id, nil).(T)
		vp.Assert(ok, "scalar type survives")
		vp.Assert(eq(x, y), "scalar value survives")
	case 1:
		n := vp.Choice("n", max+2)
		var xs []T
		if n <= max {
			xs = make([]T, n)
			for i := range xs {
				xs[i] = mk("x")
			}
		}
		ys, ok := vpRT(Variant(xs), id, []int32{int32(n)}).([]T)
		vp.Assert(ok, "array type survives")
		vp.Assert(len(ys) == len(xs) && (ys == nil) == (xs == nil), "array length survives")
		for i := range xs {
			vp.Assert(eq(xs[i], ys[i]), "array elements survive in order")
		}
	case 2:
		r, c := vp.Choice("r", md+1), vp.Choice("c", md+1)
		if r == 0 {
			c = 0
		}
		xs := make([][]T, r)
		for i := range xs {
			xs[i] = make([]T, c)
			for j := range xs[i] {
				xs[i][j] = mk("x")
			}
		}
		ys, ok := vpRT(Variant(xs), id, []int32{int32(r), int32(c)}).([][]T)
		vp.Assert(ok, "matrix type survives")
		vp.Assert(len(ys) == r, "matrix shape survives")
		for i := range xs {
			vp.Assert(len(ys[i]) == c, "matrix shape survives")
			for j := range xs[i] {
				vp.Assert(eq(xs[i][j], ys[i][j]), "matrix elements survive in place")
			}
		}
	case 3:
		r, c, d := 1+vp.Choice("r", md), 1+vp.Choice("c", md), 1+vp.Choice("d", md)
		xs := make([][][]T, r)
		for i := range xs {
			xs[i] = make([][]T, c)
			for j := range xs[i] {
				xs[i][j] = make([]T, d)
				for k := range xs[i][j] {
					xs[i][j][k] = mk("x")
				}
			}
		}
		ys, ok := vpRT(Variant(xs), id, []int32{int32(r), int32(c), int32(d)}).([][][]T)
		vp.Assert(ok, "cube type survives")
		vp.Assert(len(ys) == r, "cube shape survives")
		for i := range xs {
			vp.Assert(len(ys[i]) == c, "cube shape survives")
			for j := range xs[i] {
				vp.Assert(len(ys[i][j]) == d, "cube shape survives")
				for k := range xs[i][j] {
					vp.Assert(eq(xs[i][j][k], ys[i][j][k]), "cube elements survive in place")
				}
			}
		}
	}
	vp.Reach("shape")
}

func vpEq[T comparable](a, b T) bool { return a == b }

func VP_C02_int() {
	switch vp.Choice("type", 9) {
	case 0:
		vpVar(1, vp.Bool, vpEq[bool])
	case 1:
		vpVar(2, vp.I8, vpEq[int8])
	case 2:
		vpVar(3, vp.U8, vpEq[uint8])
	case 3:
		vpVar(4, vp.I16, vpEq[int16])
	case 4:
		vpVar(5, vp.U16, vpEq[uint16])
	case 5:
		vpVar(6, vp.I32, vpEq[int32])
	case 6:
		vpVar(7, vp.U32, vpEq[uint32])
	case 7:
		vpVar(8, vp.I64, vpEq[int64])
	case 8:
		vpVar(9, vp.U64, vpEq[uint64])
	}
}

func VP_C02_other() {
	fixed := func(n string) string { return vp.Str(n, 2) }
	switch vp.Choice("type", 10) {
	case 0:
		vpVar(10, vp.F32, vpEqF32)
	case 1:
		vpVar(11, vp.F64, vpEqF64)
	case 2:
		vpVar(12, fixed, vpEq[string])
	case 3:
		vpVar(13, vpTime, vpEqTime)
	case 4:
		vpVar(14, vpGUID, vpEq[uuid.UUID])
	case 5:
		vpVar(15, func(n string) ByteString { return ByteString(fixed(n)) }, vpEq[ByteString])
	case 6:
		vpVar(16, func(n string) XMLElement { return XMLElement(fixed(n)) }, vpEq[XMLElement])
	case 7:
		vpVar(19, func(n string) StatusCode { return StatusCode(vp.U32(n)) }, vpEq[StatusCode])
	case 8:
		vpVar(20, func(n string) QualifiedName { return QualifiedName{vp.U16(n + ".ns"), fixed(n)} }, vpEq[QualifiedName])
	case 9:
		vpVar(21, func(n string) LocalizedText { return LocalizedText{fixed(n), fixed(n + ".loc")} }, vpEq[LocalizedText])
	}
}

func VP_C02_nodeids() {
	switch vp.Choice("type", 5) {
	case 0:
		// scalars keep the concrete node id type
		vpVarNodeScalar()
	case 1:
		vpVarArr(17, func(n string) NodeID {
			x := NodeIDNumeric{vp.U16(n + ".ns"), vp.U32(n + ".id")}
			vp.Assume(x.ID > 70000)
			return x
		}, vpEq[NodeID])
	case 2:
		vpVarArr(17, func(n string) NodeID { return NodeIDString{vp.U16(n + ".ns"), vp.Str(n, 2)} }, vpEq[NodeID])
	case 3:
		vpVar(18, func(n string) ExpandedNodeID {
			return ExpandedNodeID{ServerIndex: 1 + uint32(vp.U8(n+".svr")), NamespaceURI: vp.Str(n, 2), NodeID: NodeIDNumeric{0, 70000 + uint32(vp.U16(n+".id"))}}
		}, vpEq[ExpandedNodeID])
	case 4:
		vpVarArr(17, func(n string) NodeID {
			g := NodeIDGUID{NamespaceIndex: 3}
			g.ID = vpGUID(n)
			return g
		}, vpEq[NodeID])
	}
}

func vpVarNodeScalar() {
	n := vpNodeID("n", 4, 2)
	v2 := vpRT(Variant(n), 17, nil)
	vp.Assert(v2 == Variant(n), "node id variant survives")
}

// vpVarArr is vpVar without the scalar shape.
func vpVarArr[T any](id byte, mk func(string) T, eq func(a, b T) bool) {
	n := vp.Choice("n", vp.Bound(3, 5))
	m := vp.Choice("rows", 3)
	if m == 0 {
		xs := make([]T, n)
		for i := range xs {
			xs[i] = mk("x")
		}
		ys, ok := vpRT(Variant(xs), id, []int32{int32(n)}).([]T)
		vp.Assert(ok, "array type survives")
		vp.Assert(len(ys) == len(xs), "array length survives")
		for i := range xs {
			vp.Assert(eq(xs[i], ys[i]), "array elements survive in order")
		}
		return
	}
	if m == 1 {
		xs := make([][]T, 2)
		for i := range xs {
			xs[i] = make([]T, n)
			for j := range xs[i] {
				xs[i][j] = mk("x")
			}
		}
		ys, ok := vpRT(Variant(xs), id, []int32{2, int32(n)}).([][]T)
		vp.Assert(ok && len(ys) == 2, "matrix type and shape survive")
		for i := range xs {
			vp.Assert(len(ys[i]) == n, "matrix shape survives")
			for j := range xs[i] {
				vp.Assert(eq(xs[i][j], ys[i][j]), "matrix elements survive in place")
			}
		}
		return
	}
	vp.Assume(n > 0)
	xs := make([][][]T, 2)
	for i := range xs {
		xs[i] = make([][]T, n)
		for j := range xs[i] {
			xs[i][j] = []T{mk("x")}
		}
	}
	ys, ok := vpRT(Variant(xs), id, []int32{2, int32(n), 1}).([][][]T)
	vp.Assert(ok && len(ys) == 2, "cube type and shape survive")
	for i := range xs {
		vp.Assert(len(ys[i]) == n, "cube shape survives")
		for j := range xs[i] {
			vp.Assert(len(ys[i][j]) == 1, "cube shape survives")
			vp.Assert(eq(xs[i][j][0], ys[i][j][0]), "cube elements survive in place")
		}
	}
}

func vpInner(n string) Variant {
	switch vp.Choice(n+".in", 4) {
	case 0:
		return Variant(vp.U32(n))
	case 1:
		return Variant([]int16{vp.I16(n), vp.I16(n + "b")})
	case 2:
		return Variant(vp.Str(n, 2))
	}
	return nil
}

func vpEqInner(a, b Variant) bool {
	if x, ok := a.([]int16); ok {
		y, ok := b.([]int16)
		return ok && len(x) == len(y) && x[0] == y[0] && x[1] == y[1]
	}
	return a == b
}

func VP_C02_nested() {
	dv := func(n string) DataValue {
		return DataValue{Value: Variant(vp.U16(n)), StatusCode: StatusCode(vp.U32(n + ".st")), SourceTimestamp: time.Unix(1000, 0).UTC(), ServerTimestamp: time.Unix(2000, 500).UTC(), SourcePicoseconds: 7}
	}
	switch vp.Choice("type", 4) {
	case 0:
		vpVarArr(23, dv, func(a, b DataValue) bool { return vpEqDataValue(a, b, vpEqInner) })
	case 1:
		vpVarArr(24, vpInner, vpEqInner)
	case 2:
		x := dv("x")
		y, ok := vpRT(Variant(x), 23, nil).(DataValue)
		vp.Assert(ok && vpEqDataValue(x, y, vpEqInner), "a data value inside a variant survives")
	case 3:
		vpVarArr(22, func(n string) ExtensionObject {
			return ExtensionObject(RelativePathElement{ReferenceTypeID: NodeIDNumeric{1, 5}, IsInverse: vp.Bool(n), TargetName: QualifiedName{vp.U16(n + ".q"), "a"}})
		}, func(a, b ExtensionObject) bool { return a == b })
	}
}

// A scalar structure is carried as an extension object.
func VP_C02_structure() {
	x := Argument{Name: vp.Str("name", 2), DataType: NodeIDNumeric{0, uint32(vp.U16("dt")) + 70000}, ValueRank: vp.I32("rank"), ArrayDimensions: []uint32{vp.U32("d0")}, Description: LocalizedText{Text: "t"}}
	v2 := vpRT(Variant(x), 22, nil)
	y, ok := v2.(Argument)
	vp.Assert(ok, "structure type survives")
	vp.Assert(y.Name == x.Name && y.DataType == x.DataType && y.ValueRank == x.ValueRank && len(y.ArrayDimensions) == 1 && y.ArrayDimensions[0] == x.ArrayDimensions[0] && y.Description == x.Description, "structure fields survive")
}
