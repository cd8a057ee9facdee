package server

import (
	"math"
	"reflect"
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:use pub
//vp:bound any two consecutive values of each of the eight integer types, any floating point number before or after one of six, any severities and subcodes of the status, equal or different source timestamps, seven deadbands, any for bytes, the three triggers; arrays of up to 2 elements; one pair of values of each of the 25 array types; 3 (thorough: 4) samples from -128 to 127 in a row with three deadbands
//vp:outside not-a-number following not-a-number, 64 bit integers that differ by 2^53 or more with a deadband as large, percent deadbands, limits bits of the status, sampling intervals (C21)

// vpReported is whether an item with the filter reports the second of two values.
func vpReported(f ua.DataChangeFilter, a, b ua.DataValue) bool {
	g := vpPubSetup(5, 20)
	g.v.SetValue(a)
	mi := g.newItem(g.sub, ua.MonitoringParameters{ClientHandle: 6, QueueSize: 10, Filter: f}, ua.MonitoringModeReporting)
	vp.Assert(mi.notificationsAvailable(time.Now(), false, false), "the first value is reported")
	n, _ := mi.notifications(10)
	vp.Assert(len(n) == 1, "the first value is reported")
	g.v.SetValue(b)
	mi.Poll()
	avail := mi.notificationsAvailable(time.Now(), false, false)
	n, _ = mi.notifications(10)
	vp.Assert(avail == (len(n) == 1) && len(n) <= 1, "a change is reported once")
	if len(n) == 1 {
		v := n[0].(ua.DataValue)
		vp.Assert(v.StatusCode == b.StatusCode, "a change is reported with its status")
	}
	return avail
}

type vpPair struct {
	a, b any
	diff bool    // they differ
	dist float64 // by this
	over uint64  // for integers, exactly
	skip bool
}

func vpSignedPair(a, b int64, va, vb any) vpPair {
	if a > b {
		return vpPair{va, vb, true, 0, uint64(a) - uint64(b), false}
	}
	return vpPair{va, vb, a != b, 0, uint64(b) - uint64(a), false}
}

func vpUnsignedPair(a, b uint64, va, vb any) vpPair {
	if a > b {
		return vpPair{va, vb, true, 0, a - b, false}
	}
	return vpPair{va, vb, a != b, 0, b - a, false}
}

func vpFloatPair(a, b float64, va, vb any) vpPair {
	return vpPair{va, vb, a != b, math.Abs(a - b), 0, a != a && b != b}
}

var vpFloats = []float64{0, 0.1, -1e16, math.MaxFloat32, math.Inf(-1), math.NaN()}

// vpDeadband is a deadband: any for the small types.
func vpDeadband(k int) float64 {
	if k == 0 || k == 4 {
		d := vp.F64("deadband value")
		vp.Assume(d >= 0)
		return d
	}
	return []float64{0, 0.5, 1, 1000.25, 1 << 40, math.MaxFloat64, math.Inf(1)}[vp.Choice("deadband value", 7)]
}

// vpNumbers are any two numbers of a type.
func vpNumbers(k int) vpPair {
	switch k {
	case 0:
		a, b := vp.I8("a"), vp.I8("b")
		return vpSignedPair(int64(a), int64(b), a, b)
	case 1:
		a, b := vp.I16("a"), vp.I16("b")
		return vpSignedPair(int64(a), int64(b), a, b)
	case 2:
		a, b := vp.I32("a"), vp.I32("b")
		return vpSignedPair(int64(a), int64(b), a, b)
	case 3:
		a, b := vp.I64("a"), vp.I64("b")
		return vpSignedPair(a, b, a, b)
	case 4:
		a, b := vp.U8("a"), vp.U8("b")
		return vpUnsignedPair(uint64(a), uint64(b), a, b)
	case 5:
		a, b := vp.U16("a"), vp.U16("b")
		return vpUnsignedPair(uint64(a), uint64(b), a, b)
	case 6:
		a, b := vp.U32("a"), vp.U32("b")
		return vpUnsignedPair(uint64(a), uint64(b), a, b)
	case 7:
		a, b := vp.U64("a"), vp.U64("b")
		return vpUnsignedPair(a, b, a, b)
	case 8:
		a, b := vp.F32("a"), float32(vpFloats[vp.Choice("b", len(vpFloats))])
		if vp.Choice("swap", 2) == 1 {
			a, b = b, a
		}
		return vpFloatPair(float64(a), float64(b), a, b)
	}
	a, b := vp.F64("a"), vpFloats[vp.Choice("b", len(vpFloats))]
	if vp.Choice("swap", 2) == 1 {
		a, b = b, a
	}
	return vpFloatPair(a, b, a, b)
}

// exceeds is whether the two differ by more than the deadband.
func (p vpPair) exceeds(d float64) bool {
	if !p.diff {
		return false
	}
	if k := reflect.TypeOf(p.a).Kind(); k == reflect.Float32 || k == reflect.Float64 {
		return !(p.dist <= d)
	}
	vp.Assume(p.over < 1<<53 || d < 1<<53)
	if p.over >= 1<<53 {
		return true
	}
	return float64(p.over) > d
}

// VP_C22_number: a change of a number is reported exactly if it exceeds the deadband, of its status and timestamp
// exactly if the trigger says so.
func VP_C22_number() {
	k := vp.Choice("type", 10)
	p := vpNumbers(k)
	vp.Assume(!p.skip)
	trigger := ua.DataChangeTrigger(vp.Choice("trigger", 3))
	f := ua.DataChangeFilter{Trigger: trigger}
	want := false
	if vp.Bool("deadband") {
		d := vpDeadband(k)
		f.DeadbandType, f.DeadbandValue = uint32(ua.DeadbandTypeAbsolute), d
		want = p.exceeds(d)
	} else {
		want = p.diff
	}
	if trigger == ua.DataChangeTriggerStatus {
		want = false
	}
	s1, s2 := ua.StatusCode(0), ua.StatusCode(0)
	t2 := vpTime
	switch vp.Choice("other", 3) {
	case 1:
		s1, s2 = ua.StatusCode(uint32(vp.U16("status"))<<16), ua.StatusCode(uint32(vp.U16("status"))<<16)
		vp.Assume(s1 != ua.BadWaitingForInitialData)
		want = want || s1 != s2
	case 2:
		t2 = t2.Add(time.Second)
		want = want || trigger == ua.DataChangeTriggerStatusValueTimestamp
	}
	got := vpReported(f, ua.NewDataValue(p.a, s1, vpTime, 0, vpTime, 0), ua.NewDataValue(p.b, s2, t2, 0, vpTime, 0))
	if want {
		vp.Reach("change")
		vp.Assert(got, "a change beyond the deadband, of the status, or of the timestamp is reported as the trigger says")
	} else {
		vp.Reach("no change")
		vp.Assert(!got, "what is no change, or within the deadband, is not reported")
	}
}

// VP_C22_drift: each sample is compared with the last one reported, also if the ones between were not.
func VP_C22_drift() {
	g := vpPubSetup(5, 20)
	mi := g.item
	mi.notificationsAvailable(time.Now(), false, false)
	mi.notifications(10)
	mi.queueSize = 20
	db := int32(vp.Choice("deadband", 3)) // 0: none
	f := ua.DataChangeFilter{Trigger: ua.DataChangeTriggerStatusValue}
	if db > 0 {
		f.DeadbandType, f.DeadbandValue = uint32(ua.DeadbandTypeAbsolute), float64(db)
	}
	if vp.Choice("trigger", 2) == 1 {
		f.Trigger = ua.DataChangeTriggerStatusValueTimestamp
	}
	mi.dataChangeFilter = f
	t0 := time.Now()
	if vp.Choice("sampling", 2) == 1 {
		mi.ts, mi.ti = t0, time.Second
	}
	last, at := int32(0), vpTime
	mi.previousQueuedValue = ua.NewDataValue(last, ua.Good, at, 0, t0, 0)
	var want []int32
	n := vp.Bound(3, 4)
	for i := 0; i < n; i++ {
		v := int32(int8(vp.U8("value")))
		ts := vpTime
		if f.Trigger == ua.DataChangeTriggerStatusValueTimestamp && vp.Choice("later", 2) == 1 {
			ts = vpTime.Add(time.Second)
		}
		mi.prequeue.PushBack(ua.NewDataValue(v, ua.Good, ts, 0, t0.Add(time.Duration(i)*time.Second), 0))
		if i == 1 && vp.Choice("look", 2) == 1 {
			mi.notificationsAvailable(t0.Add(time.Duration(i)*time.Second), false, false)
		}
		d := v - last
		if d > db || -d > db || ts != at {
			last, at = v, ts
			want = append(want, v)
		}
	}
	mi.notificationsAvailable(t0.Add(time.Duration(n)*time.Second), false, false)
	got, _ := mi.notifications(20)
	ok := len(got) == len(want)
	for i := range want {
		ok = ok && got[i].(ua.DataValue).Value.(int32) == want[i]
	}
	vp.Assert(ok, "a sample is compared with the last one reported")
}

// VP_C22_array: a change of an array is reported exactly if one of its elements changed by more than the deadband.
func VP_C22_array() {
	k := []int{0, 2, 4, 5, 7, 9}[vp.Choice("type", 6)]
	d := vpDeadband(k)
	f := ua.DataChangeFilter{Trigger: ua.DataChangeTriggerStatusValue, DeadbandType: uint32(ua.DeadbandTypeAbsolute), DeadbandValue: d}
	n := vp.Choice("length", 3)
	want := false
	p := vpNumbers(k)
	more := vp.Choice("longer", 2)
	t := reflect.SliceOf(reflect.TypeOf(p.a))
	a, b := reflect.MakeSlice(t, n, n), reflect.MakeSlice(t, n+more, n+more)
	for i := 0; i < n; i++ {
		if i > 0 {
			p = vpNumbers(k)
		}
		vp.Assume(!p.skip)
		want = p.exceeds(d) || want
		a.Index(i).Set(reflect.ValueOf(p.a))
		b.Index(i).Set(reflect.ValueOf(p.b))
	}
	want = want || more > 0
	got := vpReported(f, ua.NewDataValue(a.Interface(), 0, vpTime, 0, vpTime, 0), ua.NewDataValue(b.Interface(), 0, vpTime, 0, vpTime, 0))
	if want {
		vp.Reach("change")
		vp.Assert(got, "a change of an element beyond the deadband is reported")
	} else {
		vp.Reach("no change")
		vp.Assert(!got, "an array whose elements stay within the deadband is not reported")
	}
}

// VP_C22_types: a change of a value of any type is reported, an equal value is not.
func VP_C22_types() {
	c := vpArrays[vp.Choice("type", len(vpArrays))]
	a, b := c.a, c.b
	if vp.Bool("scalar") {
		a, b = reflect.ValueOf(a).Index(0).Interface(), reflect.ValueOf(b).Index(0).Interface()
	}
	same := vp.Bool("same")
	if same {
		b = a
		if reflect.TypeOf(a).Kind() == reflect.Slice {
			r := reflect.MakeSlice(reflect.TypeOf(a), 3, 3)
			for i := 0; i < 3; i++ {
				r.Index(i).Set(reflect.ValueOf(a).Index(i))
			}
			b = r.Interface()
		}
	}
	if vp.Bool("null") {
		b, same = nil, false
	}
	f := ua.DataChangeFilter{Trigger: ua.DataChangeTriggerStatusValue + ua.DataChangeTrigger(vp.Choice("trigger", 2))}
	got := vpReported(f, ua.NewDataValue(a, 0, vpTime, 0, vpTime, 0), ua.NewDataValue(b, 0, vpTime, 0, vpTime, 0))
	vp.Assert(got == !same, "a change of a value of any type is reported, an equal value is not")
}

// VP_C22_allowed: a deadband is accepted exactly for variables of numbers, another filter for none.
func VP_C22_allowed() {
	g := vpPubSetup(5, 20)
	k := vp.Choice("type", 25)
	id := vpN(300)
	n := vpAddVariable(g.srv, id, nil, ua.NodeIDNumeric{ID: uint32(k + 1)}, -1, 3)
	var f any
	want := true
	switch vp.Choice("filter", 4) {
	case 0:
	case 1:
		f = ua.DataChangeFilter{Trigger: ua.DataChangeTriggerStatusValue}
	case 2:
		f = ua.DataChangeFilter{Trigger: ua.DataChangeTriggerStatusValue, DeadbandType: uint32(ua.DeadbandTypeAbsolute), DeadbandValue: 1}
		want = k >= 1 && k <= 10
	default:
		f, want = ua.EventFilter{}, false
	}
	var st ua.StatusCode
	p := ua.MonitoringParameters{ClientHandle: 6, QueueSize: 1, Filter: f}
	if vp.Bool("modify") {
		vp.Reach("modify")
		mi := NewDataChangeMonitoredItem(g.sub, n, ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue}, ua.MonitoringModeReporting, ua.MonitoringParameters{ClientHandle: 5, QueueSize: 1}, ua.TimestampsToReturnBoth, 0)
		g.sub.AppendItem(mi)
		var res ua.ModifyMonitoredItemsResponse
		g.request(&ua.ModifyMonitoredItemsRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToModify: []ua.MonitoredItemModifyRequest{{MonitoredItemID: mi.ID(), RequestedParameters: p}}}, 4000)
		vp.Assert(g.take(4000, &res) == ua.Good && len(res.Results) == 1, "the request is answered")
		st = res.Results[0].StatusCode
		vp.Assert((mi.ClientHandle() == 6) == (st == ua.Good), "a refused change has no effect")
	} else {
		items := len(g.sub.items)
		var res ua.CreateMonitoredItemsResponse
		g.request(&ua.CreateMonitoredItemsRequest{RequestHeader: g.header(1), SubscriptionID: g.sub.id, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: []ua.MonitoredItemCreateRequest{{
			ItemToMonitor: ua.ReadValueID{NodeID: id, AttributeID: ua.AttributeIDValue}, MonitoringMode: ua.MonitoringModeReporting, RequestedParameters: p}}}, 4000)
		vp.Assert(g.take(4000, &res) == ua.Good && len(res.Results) == 1, "the request is answered")
		st = res.Results[0].StatusCode
		vp.Assert((len(g.sub.items) == items+1) == (st == ua.Good), "a refused item is not created")
	}
	if want {
		vp.Assert(st == ua.Good, "a filter that suits the variable is accepted")
	} else {
		vp.Assert(st == ua.BadFilterNotAllowed, "a filter that does not suit the variable is refused")
	}
}
