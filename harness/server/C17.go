package server

import (
	"reflect"
	"strings"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:bound index range texts: any text of up to 4 (quick) / 6 (thorough) characters on arrays of int32, strings and byte strings of 0..3 elements; every array type of 3 elements with ranges "d", "d:d" and for string arrays "d:d,d:d" of any digits; values of 1..3 elements written
//vp:outside multidimensional arrays (the server refuses ranges on them); texts with signs ('+', '-') only checked for crashes

// vpRange is the reference: a text is "lo" or "lo:hi" with lo < hi.
func vpRange(t string) (lo, hi int, ok bool) {
	num := func(s string) (int, bool) {
		v := 0
		if len(s) == 0 {
			return 0, false
		}
		for i := 0; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' {
				return 0, false
			}
			v = v*10 + int(s[i]-'0')
		}
		return v, true
	}
	for i := 0; i < len(t); i++ {
		if t[i] == ':' {
			lo, ok = num(t[:i])
			if !ok {
				return 0, 0, false
			}
			hi, ok = num(t[i+1:])
			return lo, hi, ok && lo < hi
		}
	}
	lo, ok = num(t)
	return lo, lo, ok
}

func VP_C17_text() {
	srv, conn, ch := vpRangeSetup()
	n := vp.Choice("elements", 4)
	kind := vp.Choice("kind", 3)
	var val ua.Variant
	dt := ua.NodeID(ua.DataTypeIDInt32)
	rank := ua.ValueRankOneDimension
	ints := make([]int32, n)
	bs := vp.Bytes("text value", n)
	switch kind {
	case 0:
		for i := range ints {
			ints[i] = vp.I32("e")
		}
		val = ints
	case 1:
		for _, c := range bs {
			vp.Assume(c < 0x80)
		}
		val, dt, rank = string(bs), ua.DataTypeIDString, ua.ValueRankScalar
	case 2:
		val, dt, rank = ua.ByteString(bs), ua.DataTypeIDByteString, ua.ValueRankScalar
	}
	vpAddVariable(srv, vpVarID, val, dt, rank, 3)
	t := vp.Str("range", 1+vp.Choice("length", vp.Bound(4, 6)))
	r := vpRead(srv, conn, ch, vpVarID, t)
	sign := false
	for i := 0; i < len(t); i++ {
		sign = vp.Or(sign, vp.Or(t[i] == '+', t[i] == '-'))
	}
	if sign {
		return
	}
	lo, hi, ok := vpRange(t)
	if !ok {
		vp.Assert(vp.Or(r.StatusCode == ua.BadIndexRangeInvalid, vp.And(vp.Or(n == 0, strings.Contains(t, ",")), r.StatusCode == ua.BadIndexRangeNoData)), "an invalid range is refused")
		return
	}
	if lo >= n {
		vp.Assert(r.StatusCode == ua.BadIndexRangeNoData, "a range without data is refused")
		return
	}
	if hi >= n {
		hi = n - 1
	}
	vp.Assert(r.StatusCode == ua.Good, "a valid range is served")
	if r.StatusCode != ua.Good {
		return
	}
	lo, hi = vp.Concretize(lo), vp.Concretize(hi)
	switch kind {
	case 0:
		got, ok := r.Value.([]int32)
		vp.Assert(ok && len(got) == hi-lo+1, "the addressed number of elements is returned")
		for i, v := range got {
			vp.Assert(v == ints[lo+i], "the addressed elements are returned")
		}
	case 1:
		got, ok := r.Value.(string)
		vp.Assert(ok && len(got) == hi-lo+1 && vp.EqBytes([]byte(got), bs[lo:hi+1]), "the addressed characters are returned")
	case 2:
		got, ok := r.Value.(ua.ByteString)
		vp.Assert(ok && len(got) == hi-lo+1 && vp.EqBytes([]byte(got), bs[lo:hi+1]), "the addressed bytes are returned")
	}
}

// vpRangeText is "d" or "d:d" with the reference bounds.
func vpRangeText(name string) (t string, lo, hi int) {
	lo = vp.Range(name+" lo", 0, 4)
	hi = lo
	t = string([]byte{byte('0' + lo)})
	if vp.Choice(name+" form", 2) == 1 {
		hi = vp.Range(name+" hi", 0, 5)
		t += ":" + string([]byte{byte('0' + hi)})
		vp.Assume(lo < hi)
	}
	return t, vp.Concretize(lo), vp.Concretize(hi)
}

func VP_C17_readall() {
	srv, conn, ch := vpRangeSetup()
	c := vpArrays[vp.Choice("type", len(vpArrays))]
	vpAddVariable(srv, vpVarID, c.a, c.dataType, ua.ValueRankOneDimension, 3)
	t, lo, hi := vpRangeText("range")
	r := vpRead(srv, conn, ch, vpVarID, t)
	if lo >= 3 {
		vp.Assert(r.StatusCode == ua.BadIndexRangeNoData, "a range without data is refused")
		return
	}
	if hi >= 3 {
		hi = 2
	}
	vp.Assert(r.StatusCode == ua.Good && reflect.DeepEqual(r.Value, vpSlice(c.a, lo, hi+1)), "the addressed elements of every array type are returned")
	r = vpRead(srv, conn, ch, vpVarID, "")
	vp.Assert(r.StatusCode == ua.Good && reflect.DeepEqual(r.Value, c.a), "reading does not change the value")
}

func vpSub(s string, lo, hi int) (string, bool) {
	if lo >= len(s) {
		return "", false
	}
	if hi >= len(s) {
		hi = len(s) - 1
	}
	return s[lo : hi+1], true
}

func VP_C17_substrings() {
	srv, conn, ch := vpRangeSetup()
	src := []string{"abcd", "bc", "cde"}
	val, dt := ua.Variant(src), ua.NodeID(ua.DataTypeIDString)
	bytes := vp.Choice("kind", 2) == 1
	if bytes {
		val, dt = []ua.ByteString{"abcd", "bc", "cde"}, ua.DataTypeIDByteString
	}
	vpAddVariable(srv, vpVarID, val, dt, ua.ValueRankOneDimension, 3)
	t1, lo1, hi1 := vpRangeText("elements")
	t2, lo2, hi2 := vpRangeText("characters")
	if hi1 > 2 {
		hi1 = 2
	}
	get := func() []string {
		var out []string
		switch v := vpRead(srv, conn, ch, vpVarID, "").Value.(type) {
		case []string:
			out = v
		case []ua.ByteString:
			for _, b := range v {
				out = append(out, string(b))
			}
		}
		return out
	}
	if vp.Choice("op", 2) == 0 {
		r := vpRead(srv, conn, ch, vpVarID, t1+","+t2)
		var want []string
		ok := lo1 < 3
		for i := lo1; ok && i <= hi1; i++ {
			var s string
			s, ok = vpSub(src[i], lo2, hi2)
			want = append(want, s)
		}
		if !ok {
			vp.Assert(r.StatusCode == ua.BadIndexRangeNoData, "a range without data is refused")
			return
		}
		vp.Assert(r.StatusCode == ua.Good, "a valid range is served")
		if bytes {
			got, _ := r.Value.([]ua.ByteString)
			vp.Assert(len(got) == len(want), "the addressed elements are returned")
			for i, g := range got {
				vp.Assert(i >= len(want) || string(g) == want[i], "the addressed part of each element is returned")
			}
			return
		}
		vp.Assert(reflect.DeepEqual(r.Value, want), "the addressed part of each element is returned")
		return
	}
	// write the characters X.. into the addressed part of each addressed element
	k := 1 + vp.Choice("characters written", 4)
	m := 1 + vp.Choice("elements written", 3)
	var v ua.Variant
	if bytes {
		w := make([]ua.ByteString, m)
		for i := range w {
			w[i] = ua.ByteString("XYZU"[:k])
		}
		v = w
	} else {
		w := make([]string, m)
		for i := range w {
			w[i] = "XYZU"[:k]
		}
		v = w
	}
	st := vpWrite(srv, conn, ch, vpVarID, t1+","+t2, v)
	got := get()
	vp.Assert(len(got) == 3, "a write keeps the number of elements")
	if len(got) != 3 {
		return
	}
	fits := lo1 < 3 && m == hi1-lo1+1
	for i := lo1; fits && i <= hi1; i++ {
		fits = lo2+k <= len(src[i]) && (k == hi2-lo2+1 || hi2 >= len(src[i]))
	}
	if st == ua.Good {
		vp.Assert(fits, "a value of another size than the addressed part is refused")
	}
	for i := range got {
		want := src[i]
		if st == ua.Good && fits && i >= lo1 && i <= hi1 {
			want = src[i][:lo2] + "XYZU"[:k] + src[i][lo2+k:]
		}
		vp.Assert(got[i] == want, "a write replaces exactly the addressed part")
	}
}

func VP_C17_writeall() {
	srv, conn, ch := vpRangeSetup()
	c := vpArrays[vp.Choice("type", len(vpArrays))]
	dt := c.dataType
	if vp.Choice("any type", 2) == 1 {
		dt = ua.DataTypeIDBaseDataType
	}
	vpAddVariable(srv, vpVarID, c.a, dt, ua.ValueRankOneDimension, 3)
	before := vpSlice(c.a, 0, 3)
	t, lo, hi := vpRangeText("range")
	m := vp.Choice("written", 4)
	st := vpWrite(srv, conn, ch, vpVarID, t, vpSlice(c.b, 0, m))
	if st == ua.Good {
		vp.Assert(lo+m <= 3 && (m == hi-lo+1 || hi >= 3), "a value of another size than the range is refused")
	} else {
		vp.Assert(lo >= 3 || hi >= 3 || m != hi-lo+1, "a value of the size of the range is written")
	}
	if lo+m > 3 {
		m = 3 - lo
	}
	r := vpRead(srv, conn, ch, vpVarID, "")
	vp.Assert(r.StatusCode == ua.Good, "the variable stays readable")
	for i := 0; i < 3; i++ {
		want := vpSlice(c.a, i, i+1)
		if st == ua.Good && i >= lo && i < lo+m {
			want = vpSlice(c.b, i-lo, i-lo+1)
		}
		vp.Assert(reflect.ValueOf(r.Value).Len() == 3 && reflect.DeepEqual(vpSlice(r.Value, i, i+1), want), "a write replaces exactly the addressed elements")
	}
	vp.Assert(reflect.DeepEqual(before, c.a), "a value read earlier is not changed by a write")
}

func VP_C17_mismatch() {
	srv, conn, ch := vpRangeSetup()
	c := vpArrays[vp.Choice("type", len(vpArrays))]
	d := vpArrays[vp.Choice("written type", len(vpArrays))]
	dt := c.dataType
	if vp.Choice("any type", 2) == 1 {
		dt = ua.DataTypeIDBaseDataType
	}
	v := ua.Variant(vpSlice(d.b, 0, 1))
	switch vp.Choice("scalar", 3) {
	case 1:
		v = nil
	case 2:
		v = int32(5)
	}
	vpAddVariable(srv, vpVarID, c.a, dt, []int32{ua.ValueRankOneDimension, ua.ValueRankAny}[vp.Choice("rank", 2)], 3)
	st := vpWrite(srv, conn, ch, vpVarID, "1", v)
	r := vpRead(srv, conn, ch, vpVarID, "")
	if v == nil || reflect.TypeOf(v) != reflect.TypeOf(c.a) {
		byteArray := reflect.TypeOf(v) == reflect.TypeOf(ua.ByteString("")) && reflect.TypeOf(c.a) == reflect.TypeOf([]byte{})
		vp.Assert(st != ua.Good || byteArray, "a value of another type is refused")
		vp.Assert(st == ua.Good || reflect.DeepEqual(r.Value, c.a), "a refused write changes nothing")
	}
}
