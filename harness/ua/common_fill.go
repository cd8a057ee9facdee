package ua

import (
	"reflect"
	"time"

	vp "github.com/awcullen/opcua/verifvp"
)

// vpFill gives every field of the struct an arbitrary value of the shape selected by n (array length) and p (profile).
func vpFill(name string, v reflect.Value, n, p int) {
	for i := 0; i < v.NumField(); i++ {
		vpFillOne(name, v.Field(i), n, p)
	}
}

func vpFillNodeID(name string, p int) NodeID {
	switch p {
	case 0:
		x := NodeIDNumeric{0, vp.U32(name)}
		vp.Assume(x.ID > 0 && x.ID < 256)
		return x
	case 1:
		x := NodeIDNumeric{vp.U16(name + ".ns"), vp.U32(name)}
		vp.Assume(x.NamespaceIndex < 256 && x.ID < 65536 && x.NamespaceIndex > 0 && x.ID > 255)
		return x
	case 2:
		x := NodeIDNumeric{vp.U16(name + ".ns"), vp.U32(name)}
		vp.Assume(x.NamespaceIndex > 255 && x.ID > 65535)
		return x
	case 3:
		x := NodeIDString{vp.U16(name + ".ns"), vp.Str(name, 2)}
		vp.Assume(x.NamespaceIndex != 0)
		return x
	case 4:
		x := NodeIDGUID{vp.U16(name + ".ns"), vpGUID(name)}
		vp.Assume(x.NamespaceIndex != 0)
		return x
	case 5:
		x := NodeIDOpaque{vp.U16(name + ".ns"), ByteString(vp.Str(name, 1))}
		vp.Assume(x.NamespaceIndex != 0)
		return x
	}
	return nil
}

func vpFillVariant(name string, p int) Variant {
	switch p {
	case 1:
		return vp.I32(name)
	case 2:
		return vp.Str(name, 2)
	case 3:
		return []int32{vp.I32(name), vp.I32(name)}
	case 4:
		return vp.U64(name)
	case 5:
		return vpParity
	case 6:
		return []string{vp.Str(name, 1)}
	}
	return nil
}

func vpFillExt(name string, p int) ExtensionObject {
	switch p {
	case 1, 4:
		return SimpleAttributeOperand{TypeDefinitionID: vpFillNodeID(name, p), BrowsePath: []QualifiedName{{vp.U16(name), vp.Str(name, 1)}}, AttributeID: vp.U32(name), IndexRange: vp.Str(name, 1)}
	case 2:
		return LiteralOperand{Value: vpFillVariant(name, 1)}
	case 3:
		return ElementOperand{Index: vp.U32(name)}
	}
	return nil
}

func vpFillData(name string, p int) DataValue {
	d := DataValue{Value: vpFillVariant(name, p)}
	if p&1 != 0 {
		d.StatusCode = StatusCode(vp.U32(name + ".st"))
		vp.Assume(d.StatusCode != 0)
		d.ServerTimestamp = vpTime(name + ".svr")
	}
	if p&2 != 0 {
		d.SourceTimestamp = vpTime(name + ".src")
		d.SourcePicoseconds = vp.U16(name + ".sp")
		vp.Assume(d.SourcePicoseconds != 0)
	}
	if p&4 != 0 {
		d.ServerPicoseconds = vp.U16(name + ".vp")
		vp.Assume(d.ServerPicoseconds != 0)
	}
	return d
}

func vpFillDiag(name string, p int) (d DiagnosticInfo) {
	if p&1 != 0 {
		x := vp.I32(name)
		d.SymbolicID = &x
		y := vp.Str(name, 1)
		d.AdditionalInfo = &y
	}
	if p&2 != 0 {
		x := vp.I32(name)
		d.LocalizedText = &x
		y := StatusCode(vp.U32(name))
		d.InnerStatusCode = &y
	}
	if p&4 != 0 {
		x := vp.I32(name)
		d.Locale = &x
		y := vp.I32(name)
		d.NamespaceURI = &y
	}
	return
}

func vpFillOne(name string, f reflect.Value, n, p int) {
	switch x := f.Addr().Interface().(type) {
	case *NodeID:
		*x = vpFillNodeID(name, p)
		return
	case *Variant:
		*x = vpFillVariant(name, p)
		return
	case *time.Time:
		*x = vpTime(name)
		return
	case *ExtensionObject:
		*x = vpFillExt(name, p)
		return
	case *ExpandedNodeID:
		*x = ExpandedNodeID{NodeID: vpFillNodeID(name, p)}
		if p&1 != 0 {
			x.ServerIndex = vp.U32(name)
			vp.Assume(x.ServerIndex != 0)
		}
		return
	case *QualifiedName:
		*x = QualifiedName{vp.U16(name), vp.Str(name, p%3)}
		return
	case *LocalizedText:
		*x = LocalizedText{vp.Str(name, p%3), vp.Str(name, p%2)}
		return
	case *DataValue:
		*x = vpFillData(name, p)
		return
	case *DiagnosticInfo:
		*x = vpFillDiag(name, p)
		return
	}
	switch f.Kind() {
	case reflect.Bool:
		vpParity = !vpParity
		f.Set(reflect.ValueOf(vpParity))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f.SetInt(vp.I64(name))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		f.SetUint(vp.U64(name))
	case reflect.Float32:
		f.Set(reflect.ValueOf(vp.F32(name)))
	case reflect.Float64:
		f.Set(reflect.ValueOf(vp.F64(name)))
	case reflect.String:
		f.SetString(vp.Str(name, p%3))
	case reflect.Array:
		f.Set(reflect.ValueOf(vpGUID(name)))
	case reflect.Struct:
		vpFill(name, f, n, p)
	case reflect.Slice:
		if n > 0 {
			s := reflect.MakeSlice(f.Type(), n, n)
			for i := 0; i < n; i++ {
				vpFillOne(name, s.Index(i), (n+1)/2, p)
			}
			f.Set(s)
		}
	default:
		vp.Assert(false, "the harness knows the kind of every field")
	}
}

var vpIndex = map[string]int{}

func init() {
	for i := range vpStructs {
		vpIndex[vpStructs[i].name] = i
	}
}

// neighbouring booleans of a message differ, so that exchanging them is visible; both phases are explored
var vpParity bool


// vpAnyVariant is a variant of any built-in type, scalar or array of one or two elements.
func vpAnyVariant(name string) Variant {
	a := vp.Choice(name+".array", 3)
	t := vp.Choice(name+".type", 18)
	switch t {
	case 0:
		return vpOf(name, a, func(string) bool { return true })
	case 1:
		return vpOf(name, a, vp.I8)
	case 2:
		return vpOf(name, a, vp.U8)
	case 3:
		return vpOf(name, a, vp.I16)
	case 4:
		return vpOf(name, a, vp.U16)
	case 5:
		return vpOf(name, a, vp.I32)
	case 6:
		return vpOf(name, a, vp.U32)
	case 7:
		return vpOf(name, a, vp.I64)
	case 8:
		return vpOf(name, a, vp.U64)
	case 9:
		return vpOf(name, a, vp.F32)
	case 10:
		return vpOf(name, a, vp.F64)
	case 11:
		return vpOf(name, a, func(n string) string { return vp.Str(n, 2) })
	case 12:
		return vpOf(name, a, vpTime)
	case 13:
		return vpOf(name, a, vpGUID)
	case 14:
		return vpOf(name, a, func(n string) ByteString { return ByteString(vp.Str(n, 2)) })
	case 15:
		return vpOf(name, a, func(n string) NodeID { return vpFillNodeID(n, 3) })
	case 16:
		return vpOf(name, a, func(n string) QualifiedName { return QualifiedName{vp.U16(n), vp.Str(n, 1)} })
	default:
		return vpOf(name, a, func(n string) LocalizedText { return LocalizedText{vp.Str(n, 1), vp.Str(n, 1)} })
	}
}

func vpOf[T any](name string, a int, mk func(string) T) Variant {
	if a == 0 {
		return mk(name)
	}
	xs := make([]T, a)
	for i := range xs {
		xs[i] = mk(name)
	}
	return xs
}
