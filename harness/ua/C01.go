package ua

import (
	"math"
	"time"

	"github.com/google/uuid"

	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use codec
//vp:bound every value of every fixed-size built-in; strings, byte strings, uris up to 3 bytes (quick) / 6 bytes (thorough); diagnostic info nested to depth 1 (quick) / 2 (thorough)
//vp:bound date-times from 1601 to 9999 at 100 ns resolution, plus every instant outside that range within years -9999..29000 for the clamping rule
//vp:outside null identifiers (i=0 in namespace 0 and the like), which the format does not distinguish from absent ones

func VP_C01_numbers() {
	b, i8, u8, i16, u16, i32, u32 := vp.Bool("b"), vp.I8("i8"), vp.U8("u8"), vp.I16("i16"), vp.U16("u16"), vp.I32("i32"), vp.U32("u32")
	i64, u64, f32, f64, st := vp.I64("i64"), vp.U64("u64"), vp.F32("f32"), vp.F64("f64"), StatusCode(vp.U32("st"))
	bs := vpEnc(func(e *BinaryEncoder) error {
		for _, err := range []error{e.WriteBoolean(b), e.WriteSByte(i8), e.WriteByte(u8), e.WriteInt16(i16), e.WriteUInt16(u16), e.WriteInt32(i32), e.WriteUInt32(u32),
			e.WriteInt64(i64), e.WriteUInt64(u64), e.WriteFloat(f32), e.WriteDouble(f64), e.WriteStatusCode(st)} {
			if err != nil {
				return err
			}
		}
		return nil
	})
	r := vpRef{}
	if b {
		r.u8(1)
	} else {
		r.u8(0)
	}
	r.u8(uint8(i8))
	r.u8(u8)
	r.u16(uint16(i16))
	r.u16(u16)
	r.u32(uint32(i32))
	r.u32(u32)
	r.u64(uint64(i64))
	r.u64(u64)
	r.u32(math.Float32bits(f32))
	r.u64(math.Float64bits(f64))
	r.u32(uint32(st))
	vpSameBytes(bs, r.b, "numbers are little-endian with their natural size")
	var b2 bool
	var i82 int8
	var u82 uint8
	var i162 int16
	var u162 uint16
	var i322 int32
	var u322 uint32
	var i642 int64
	var u642 uint64
	var f322 float32
	var f642 float64
	var st2 StatusCode
	vpDec(bs, func(d *BinaryDecoder) error {
		for _, err := range []error{d.ReadBoolean(&b2), d.ReadSByte(&i82), d.ReadByte(&u82), d.ReadInt16(&i162), d.ReadUInt16(&u162), d.ReadInt32(&i322), d.ReadUInt32(&u322),
			d.ReadInt64(&i642), d.ReadUInt64(&u642), d.ReadFloat(&f322), d.ReadDouble(&f642), d.ReadStatusCode(&st2)} {
			if err != nil {
				return err
			}
		}
		return nil
	})
	vp.Assert(b2 == b, "boolean survives")
	vp.Assert(i82 == i8 && u82 == u8 && i162 == i16 && u162 == u16, "8 and 16 bit integers survive")
	vp.Assert(i322 == i32 && u322 == u32 && st2 == st, "32 bit integers survive")
	vp.Assert(i642 == i64 && u642 == u64, "64 bit integers survive")
	vp.Assert(vpEqF32(f322, f32) && vpEqF64(f642, f64), "floats survive bit for bit")
	vp.Reach("done")
}

func VP_C01_strings() {
	n := vp.Bound(3, 6)
	s, bstr, x := vpStr("s", n), ByteString(vpStr("bs", n)), XMLElement(vpStr("x", n))
	bs := vpEnc(func(e *BinaryEncoder) error {
		for _, err := range []error{e.WriteString(s), e.WriteByteString(bstr), e.WriteXMLElement(x)} {
			if err != nil {
				return err
			}
		}
		return nil
	})
	r := vpRef{}
	r.str(s)
	r.str(string(bstr))
	r.str(string(x))
	vpSameBytes(bs, r.b, "strings carry their byte length")
	var s2 string
	var b2 ByteString
	var x2 XMLElement
	vpDec(bs, func(d *BinaryDecoder) error {
		for _, err := range []error{d.ReadString(&s2), d.ReadByteString(&b2), d.ReadXMLElement(&x2)} {
			if err != nil {
				return err
			}
		}
		return nil
	})
	vp.Assert(s2 == s && b2 == bstr && x2 == x, "strings survive")
	vp.Reach("done")
}

func VP_C01_guid() {
	g := vpGUID("g")
	bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteGUID(g) })
	r := vpRef{}
	r.guid(g)
	vpSameBytes(bs, r.b, "guid layout")
	var g2 uuid.UUID
	vpDec(bs, func(d *BinaryDecoder) error { return d.ReadGUID(&g2) })
	vp.Assert(g2 == g, "guid survives")
}

func VP_C01_datetime() {
	t := vpTime("t")
	bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteDateTime(t) })
	r := vpRef{}
	r.time(t)
	vpSameBytes(bs, r.b, "date-time is ticks of 100 ns since 1601")
	var t2 time.Time
	vpDec(bs, func(d *BinaryDecoder) error { return d.ReadDateTime(&t2) })
	vp.Assert(vpEqTime(t, t2), "date-time survives")
	vp.Reach("done")
}

func VP_C01_datetimeclamp() {
	sec := vp.I64("sec")
	ns := vp.U32("ns")
	vp.Assume(ns < 1000000000)
	vp.Assume(sec > -377705116800 && sec < 850000000000)
	vp.Assume(sec < -11644473600 || sec >= 253402300799)
	t := time.Unix(sec, int64(ns)).UTC()
	bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteDateTime(t) })
	r := vpRef{}
	if sec < 0 {
		r.u64(0)
	} else {
		r.u64(0x7FFFFFFFFFFFFFFF)
	}
	vpSameBytes(bs, r.b, "date-times outside the format's range are clamped to its ends")
	var t2 time.Time
	vpDec(bs, func(d *BinaryDecoder) error { return d.ReadDateTime(&t2) })
	if sec < 0 {
		vp.Assert(t2.Unix() == -11644473600 && t2.Nanosecond() == 0, "early date-times become 1601-01-01")
	} else {
		vp.Assert(t2.Unix() == 253402300799, "late date-times become 9999-12-31")
	}
}

func VP_C01_nodeid() {
	n := vpNodeID("n", 5, vp.Bound(3, 6))
	bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteNodeID(n) })
	r := vpRef{}
	r.nodeID(n, 0)
	vpSameBytes(bs, r.b, "node id uses the most compact form")
	var n2 NodeID
	vpDec(bs, func(d *BinaryDecoder) error { return d.ReadNodeID(&n2) })
	vp.Assert(n2 == n, "node id survives")
	vp.Reach("done")
}

func VP_C01_expandednodeid() {
	n := vpExpandedNodeID("n", vp.Bound(2, 5))
	bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteExpandedNodeID(n) })
	r := vpRef{}
	r.xnodeID(n)
	vpSameBytes(bs, r.b, "expanded node id layout")
	var n2 ExpandedNodeID
	vpDec(bs, func(d *BinaryDecoder) error { return d.ReadExpandedNodeID(&n2) })
	vp.Assert(n2 == n, "expanded node id survives")
	vp.Reach("done")
}

func VP_C01_names() {
	k := vp.Bound(3, 6)
	q := QualifiedName{vp.U16("ns"), vpStr("name", k)}
	l := LocalizedText{vpStr("text", k), vpStr("locale", k)}
	bs := vpEnc(func(e *BinaryEncoder) error {
		if err := e.WriteQualifiedName(q); err != nil {
			return err
		}
		return e.WriteLocalizedText(l)
	})
	r := vpRef{}
	r.u16(q.NamespaceIndex)
	r.str(q.Name)
	r.text(l)
	vpSameBytes(bs, r.b, "qualified name and localized text layout")
	var q2 QualifiedName
	var l2 LocalizedText
	vpDec(bs, func(d *BinaryDecoder) error {
		if err := d.ReadQualifiedName(&q2); err != nil {
			return err
		}
		return d.ReadLocalizedText(&l2)
	})
	vp.Assert(q2 == q, "qualified name survives")
	vp.Assert(l2 == l, "localized text survives")
}

func VP_C01_diagnosticinfo() {
	v := vpDiag("d", vp.Bound(1, 2))
	bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteDiagnosticInfo(v) })
	r := vpRef{}
	r.diag(v)
	vpSameBytes(bs, r.b, "diagnostic info layout")
	var v2 DiagnosticInfo
	vpDec(bs, func(d *BinaryDecoder) error { return d.ReadDiagnosticInfo(&v2) })
	vp.Assert(vpEqDiag(v, v2), "diagnostic info survives")
}

func VP_C01_datavalue() {
	v := DataValue{StatusCode: StatusCode(vp.U32("st")), SourcePicoseconds: vp.U16("sp"), ServerPicoseconds: vp.U16("vp")}
	if vp.Choice("hasvalue", 2) == 1 {
		v.Value = vp.U32("v")
	}
	if vp.Choice("hassrc", 2) == 1 {
		v.SourceTimestamp = vpTime("src")
	}
	if vp.Choice("hassvr", 2) == 1 {
		v.ServerTimestamp = vpTime("svr")
	}
	bs := vpEnc(func(e *BinaryEncoder) error { return e.WriteDataValue(v) })
	r := vpRef{}
	var m byte
	if v.Value != nil {
		m |= 1
	}
	if v.StatusCode != 0 {
		m |= 2
	}
	if !v.SourceTimestamp.IsZero() {
		m |= 4
	}
	if !v.ServerTimestamp.IsZero() {
		m |= 8
	}
	if v.SourcePicoseconds != 0 {
		m |= 16
	}
	if v.ServerPicoseconds != 0 {
		m |= 32
	}
	r.u8(m)
	if m&1 != 0 {
		r.u8(7)
		r.u32(v.Value.(uint32))
	}
	if m&2 != 0 {
		r.u32(uint32(v.StatusCode))
	}
	if m&4 != 0 {
		r.time(v.SourceTimestamp)
	}
	if m&16 != 0 {
		r.u16(v.SourcePicoseconds)
	}
	if m&8 != 0 {
		r.time(v.ServerTimestamp)
	}
	if m&32 != 0 {
		r.u16(v.ServerPicoseconds)
	}
	vpSameBytes(bs, r.b, "data value layout")
	var v2 DataValue
	vpDec(bs, func(d *BinaryDecoder) error { return d.ReadDataValue(&v2) })
	vp.Assert(vpEqDataValue(v, v2, func(a, b Variant) bool { return a == b }), "data value survives")
	vp.Reach("done")
}
