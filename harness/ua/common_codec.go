package ua

import (
	"bytes"
	"io"
	"math"
	"time"

	"github.com/google/uuid"

	vp "github.com/awcullen/opcua/verifvp"
)

// ---- arbitrary built-in values ----

func vpNS(name string) uint16 { return vp.U16(name + ".ns") }

func vpStr(name string, max int) string { return vp.Str(name, vp.Choice(name+".len", max+1)) }

func vpGUID(name string) (g uuid.UUID) { copy(g[:], vp.Bytes(name, 16)); return }

// vpTime is any instant from 1601-01-01 to 9999-12-31T23:59:58 with 100 ns resolution.
func vpTime(name string) time.Time {
	sec := vp.I64(name + ".sec")
	tick := vp.U32(name + ".tick")
	vp.Assume(sec > -11644473600 && sec < 253402300799-1)
	vp.Assume(tick < 10000000)
	return time.Unix(sec, int64(tick)*100).UTC()
}

// vpNodeID is any node id; the null forms are normalised by the codec and excluded here.
func vpNodeID(name string, kinds int, max int) NodeID {
	switch vp.Choice(name+".kind", kinds) {
	case 0:
		n := NodeIDNumeric{vpNS(name), vp.U32(name + ".id")}
		vp.Assume(n.NamespaceIndex != 0 || n.ID != 0)
		return n
	case 1:
		n := NodeIDString{vpNS(name), vpStr(name+".s", max)}
		vp.Assume(n.NamespaceIndex != 0 || n.ID != "")
		return n
	case 2:
		n := NodeIDGUID{vpNS(name), vpGUID(name + ".g")}
		vp.Assume(n.NamespaceIndex != 0 || n.ID != uuid.UUID{})
		return n
	case 3:
		n := NodeIDOpaque{vpNS(name), ByteString(vpStr(name+".b", max))}
		vp.Assume(n.NamespaceIndex != 0 || n.ID != "")
		return n
	default:
		return nil
	}
}

func vpExpandedNodeID(name string, max int) ExpandedNodeID {
	e := ExpandedNodeID{ServerIndex: vp.U32(name + ".svr"), NamespaceURI: vpStr(name+".uri", max), NodeID: vpNodeID(name, 5, max)}
	if e.NamespaceURI != "" {
		// the namespace index is not transmitted next to a namespace uri
		switch n := e.NodeID.(type) {
		case NodeIDNumeric:
			vp.Assume(n.NamespaceIndex == 0)
		case NodeIDString:
			vp.Assume(n.NamespaceIndex == 0)
		case NodeIDGUID:
			vp.Assume(n.NamespaceIndex == 0)
		case NodeIDOpaque:
			vp.Assume(n.NamespaceIndex == 0)
		}
	}
	return e
}

func vpDiag(name string, depth int) DiagnosticInfo {
	d := DiagnosticInfo{}
	m := vp.Choice(name+".mask", 64)
	if m&1 != 0 {
		x := vp.I32(name + ".sym")
		d.SymbolicID = &x
	}
	if m&2 != 0 {
		x := vp.I32(name + ".nsu")
		d.NamespaceURI = &x
	}
	if m&4 != 0 {
		x := vp.I32(name + ".txt")
		d.LocalizedText = &x
	}
	if m&8 != 0 {
		x := vp.I32(name + ".loc")
		d.Locale = &x
	}
	if m&16 != 0 {
		x := vp.Str(name+".add", 2)
		d.AdditionalInfo = &x
	}
	if m&32 != 0 {
		x := StatusCode(vp.U32(name + ".st"))
		d.InnerStatusCode = &x
	}
	if depth > 0 && vp.Choice(name+".inner", 2) == 1 {
		x := vpDiag(name+".in", depth-1)
		d.InnerDiagnosticInfo = &x
	}
	return d
}

func vpEqI32(a, b *int32) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

func vpEqDiag(a, b DiagnosticInfo) bool {
	if !vpEqI32(a.SymbolicID, b.SymbolicID) || !vpEqI32(a.NamespaceURI, b.NamespaceURI) || !vpEqI32(a.Locale, b.Locale) || !vpEqI32(a.LocalizedText, b.LocalizedText) {
		return false
	}
	if (a.AdditionalInfo == nil) != (b.AdditionalInfo == nil) || a.AdditionalInfo != nil && *a.AdditionalInfo != *b.AdditionalInfo {
		return false
	}
	if (a.InnerStatusCode == nil) != (b.InnerStatusCode == nil) || a.InnerStatusCode != nil && *a.InnerStatusCode != *b.InnerStatusCode {
		return false
	}
	if (a.InnerDiagnosticInfo == nil) != (b.InnerDiagnosticInfo == nil) {
		return false
	}
	return a.InnerDiagnosticInfo == nil || vpEqDiag(*a.InnerDiagnosticInfo, *b.InnerDiagnosticInfo)
}

func vpEqTime(a, b time.Time) bool { return a.Unix() == b.Unix() && a.Nanosecond() == b.Nanosecond() }

func vpEqF32(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }
func vpEqF64(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

func vpEqDataValue(a, b DataValue, eq func(a, b Variant) bool) bool {
	return eq(a.Value, b.Value) && a.StatusCode == b.StatusCode && vpEqTime(a.SourceTimestamp, b.SourceTimestamp) && a.SourcePicoseconds == b.SourcePicoseconds &&
		vpEqTime(a.ServerTimestamp, b.ServerTimestamp) && a.ServerPicoseconds == b.ServerPicoseconds
}

// ---- running the codec ----

func vpEnc(f func(e *BinaryEncoder) error) []byte {
	var buf bytes.Buffer
	e := NewBinaryEncoder(&buf, NewEncodingContext())
	vp.Assert(f(e) == nil, "encoding a valid value succeeds")
	return buf.Bytes()
}

func vpDec(b []byte, f func(d *BinaryDecoder) error) {
	r := bytes.NewReader(b)
	d := NewBinaryDecoder(r, NewEncodingContext())
	vp.Assert(f(d) == nil, "decoding what was encoded succeeds")
	vp.Assert(r.Len() == 0, "decoding consumes exactly the encoded bytes")
}

var _ io.Reader

// ---- independent reference encoding (OPC UA Part 6, 5.2) ----

type vpRef struct{ b []byte }

func (r *vpRef) u8(v uint8)   { r.b = append(r.b, v) }
func (r *vpRef) u16(v uint16) { r.b = append(r.b, byte(v), byte(v>>8)) }
func (r *vpRef) u32(v uint32) { r.b = append(r.b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24)) }
func (r *vpRef) u64(v uint64) { r.u32(uint32(v)); r.u32(uint32(v >> 32)) }
func (r *vpRef) f32(v float32) { r.u32(math.Float32bits(v)) }
func (r *vpRef) f64(v float64) { r.u64(math.Float64bits(v)) }
func (r *vpRef) str(s string) {
	if len(s) == 0 {
		r.u32(0xFFFFFFFF)
		return
	}
	r.u32(uint32(len(s)))
	r.b = append(r.b, s...)
}
func (r *vpRef) guid(g uuid.UUID) {
	r.b = append(r.b, g[3], g[2], g[1], g[0], g[5], g[4], g[7], g[6])
	r.b = append(r.b, g[8:]...)
}
func (r *vpRef) time(t time.Time) { r.u64(uint64((t.Unix()+11644473600)*10000000 + int64(t.Nanosecond()/100))) }
func (r *vpRef) nodeID(n NodeID, flags byte) {
	switch n := n.(type) {
	case nil:
		r.u8(flags)
		r.u8(0)
	case NodeIDNumeric:
		if n.NamespaceIndex == 0 && n.ID < 256 {
			r.u8(flags)
			r.u8(byte(n.ID))
		} else if n.NamespaceIndex < 256 && n.ID < 65536 {
			r.u8(1 | flags)
			r.u8(byte(n.NamespaceIndex))
			r.u16(uint16(n.ID))
		} else {
			r.u8(2 | flags)
			r.u16(n.NamespaceIndex)
			r.u32(n.ID)
		}
	case NodeIDString:
		r.u8(3 | flags)
		r.u16(n.NamespaceIndex)
		r.str(n.ID)
	case NodeIDGUID:
		r.u8(4 | flags)
		r.u16(n.NamespaceIndex)
		r.guid(n.ID)
	case NodeIDOpaque:
		r.u8(5 | flags)
		r.u16(n.NamespaceIndex)
		r.str(string(n.ID))
	}
}
func (r *vpRef) xnodeID(e ExpandedNodeID) {
	var f byte
	if e.NamespaceURI != "" {
		f |= 0x80
	}
	if e.ServerIndex != 0 {
		f |= 0x40
	}
	r.nodeID(e.NodeID, f)
	if f&0x80 != 0 {
		r.str(e.NamespaceURI)
	}
	if f&0x40 != 0 {
		r.u32(e.ServerIndex)
	}
}
func (r *vpRef) text(t LocalizedText) {
	var f byte
	if t.Locale != "" {
		f |= 1
	}
	if t.Text != "" {
		f |= 2
	}
	r.u8(f)
	if f&1 != 0 {
		r.str(t.Locale)
	}
	if f&2 != 0 {
		r.str(t.Text)
	}
}
func (r *vpRef) diag(d DiagnosticInfo) {
	var f byte
	if d.SymbolicID != nil {
		f |= 0x01
	}
	if d.NamespaceURI != nil {
		f |= 0x02
	}
	if d.LocalizedText != nil {
		f |= 0x04
	}
	if d.Locale != nil {
		f |= 0x08
	}
	if d.AdditionalInfo != nil {
		f |= 0x10
	}
	if d.InnerStatusCode != nil {
		f |= 0x20
	}
	if d.InnerDiagnosticInfo != nil {
		f |= 0x40
	}
	r.u8(f)
	if d.SymbolicID != nil {
		r.u32(uint32(*d.SymbolicID))
	}
	if d.NamespaceURI != nil {
		r.u32(uint32(*d.NamespaceURI))
	}
	if d.Locale != nil {
		r.u32(uint32(*d.Locale))
	}
	if d.LocalizedText != nil {
		r.u32(uint32(*d.LocalizedText))
	}
	if d.AdditionalInfo != nil {
		r.str(*d.AdditionalInfo)
	}
	if d.InnerStatusCode != nil {
		r.u32(uint32(*d.InnerStatusCode))
	}
	if d.InnerDiagnosticInfo != nil {
		r.diag(*d.InnerDiagnosticInfo)
	}
}

func vpSameBytes(a, b []byte, label string) {
	vp.Assert(len(a) == len(b), label+": length")
	vp.Assert(vp.EqBytes(a, b), label)
}
