package ua

import (
	"time"

	vp "github.com/awcullen/opcua/verifvp"
)

//vp:bound each event type of the package with any severity and flags and fields that differ from each other

var vpT0 = time.Date(2024, 2, 3, 4, 5, 6, 700, time.UTC)

// VP_C23_base: the fields of an event, selected by the clauses of its type, rebuild the event.
func VP_C23_base() {
	e := BaseEvent{"a", NodeIDNumeric{1, 1}, NodeIDNumeric{1, 2}, "src", vpT0, vpT0.Add(time.Second), LocalizedText{"m", "l"}, vp.U16("severity")}
	var f []Variant
	for _, c := range BaseEventSelectClauses {
		f = append(f, e.GetAttribute(c))
	}
	var got BaseEvent
	vp.Assert(got.UnmarshalFields(f) == nil && got == e, "an event is rebuilt from its fields")
	vp.Assert(e.GetAttribute(SimpleAttributeOperand{TypeDefinitionID: ObjectTypeIDBaseEventType, BrowsePath: ParseBrowsePath("Shoe"), AttributeID: AttributeIDValue}) == nil, "a field an event has not is null")
}

func VP_C23_condition() {
	e := Condition{"a", NodeIDNumeric{1, 1}, NodeIDNumeric{1, 2}, "src", vpT0, vpT0.Add(time.Second), LocalizedText{"m", "l"}, vp.U16("severity"),
		NodeIDNumeric{1, 3}, "cond", NodeIDNumeric{1, 4}, vp.Bool("retain")}
	var f []Variant
	for _, c := range ConditionSelectClauses {
		f = append(f, e.GetAttribute(c))
	}
	var got Condition
	vp.Assert(got.UnmarshalFields(f) == nil && got == e, "an event is rebuilt from its fields")
}

func VP_C23_acknowledgeable() {
	e := AcknowledgeableCondition{"a", NodeIDNumeric{1, 1}, NodeIDNumeric{1, 2}, "src", vpT0, vpT0.Add(time.Second), LocalizedText{"m", "l"}, vp.U16("severity"),
		NodeIDNumeric{1, 3}, "cond", NodeIDNumeric{1, 4}, vp.Bool("retain"), vp.Bool("acked"), vp.Bool("confirmed")}
	var f []Variant
	for _, c := range AcknowledgeableConditionSelectClauses {
		f = append(f, e.GetAttribute(c))
	}
	var got AcknowledgeableCondition
	vp.Assert(got.UnmarshalFields(f) == nil && got == e, "an event is rebuilt from its fields")
}

func VP_C23_alarm() {
	e := AlarmCondition{"a", NodeIDNumeric{1, 1}, NodeIDNumeric{1, 2}, "src", vpT0, vpT0.Add(time.Second), LocalizedText{"m", "l"}, vp.U16("severity"),
		NodeIDNumeric{1, 3}, "cond", NodeIDNumeric{1, 4}, vp.Bool("retain"), vp.Bool("acked"), vp.Bool("confirmed"), vp.Bool("active")}
	var f []Variant
	for _, c := range AlarmConditionSelectClauses {
		f = append(f, e.GetAttribute(c))
	}
	var got AlarmCondition
	vp.Assert(got.UnmarshalFields(f) == nil && got == e, "an event is rebuilt from its fields")
}

// VP_C23_others: what is selected is the field named, and nothing an event has not.
func VP_C23_others() {
	b := BaseEvent{"a", NodeIDNumeric{1, 1}, NodeIDNumeric{1, 2}, "src", vpT0, vpT0.Add(time.Second), LocalizedText{"m", "l"}, vp.U16("severity")}
	var e interface {
		GetAttribute(SimpleAttributeOperand) Variant
	}
	var cs []SimpleAttributeOperand
	switch vp.Choice("event", 4) {
	case 0:
		e, cs = &b, BaseEventSelectClauses
	case 1:
		e = &Condition{b.EventID, b.EventType, b.SourceNode, b.SourceName, b.Time, b.ReceiveTime, b.Message, b.Severity,
			NodeIDNumeric{1, 3}, "cond", NodeIDNumeric{1, 4}, vp.Bool("retain")}
		cs = ConditionSelectClauses
	case 2:
		e = &AcknowledgeableCondition{b.EventID, b.EventType, b.SourceNode, b.SourceName, b.Time, b.ReceiveTime, b.Message, b.Severity,
			NodeIDNumeric{1, 3}, "cond", NodeIDNumeric{1, 4}, vp.Bool("retain"), vp.Bool("acked"), vp.Bool("confirmed")}
		cs = AcknowledgeableConditionSelectClauses
	default:
		e = &AlarmCondition{b.EventID, b.EventType, b.SourceNode, b.SourceName, b.Time, b.ReceiveTime, b.Message, b.Severity,
			NodeIDNumeric{1, 3}, "cond", NodeIDNumeric{1, 4}, vp.Bool("retain"), vp.Bool("acked"), vp.Bool("confirmed"), vp.Bool("active")}
		cs = AlarmConditionSelectClauses
	}
	c := cs[vp.Choice("field", len(cs))]
	whole := e.GetAttribute(c)
	vp.Assert(whole != nil, "an event has the fields of its type")
	switch vp.Choice("other", 5) {
	case 0:
		a := vp.U32("attribute")
		vp.Assume(a != c.AttributeID)
		c.AttributeID = a
	case 1:
		ns := vp.U16("namespace")
		c.BrowsePath = append([]QualifiedName{}, c.BrowsePath...)
		if len(c.BrowsePath) == 0 {
			return
		}
		last := len(c.BrowsePath) - 1
		vp.Assume(ns != c.BrowsePath[last].NamespaceIndex)
		c.BrowsePath[last].NamespaceIndex = ns
	case 2:
		c.BrowsePath = append(append([]QualifiedName{}, c.BrowsePath...), QualifiedName{0, vp.Str("name", 2)})
	case 3:
		n := vp.Str("name", 4)
		c.BrowsePath = []QualifiedName{{0, n}}
		vp.Assume(n != "Time")
	default:
		c.IndexRange = "0"
		vp.Assert(e.GetAttribute(c) != whole, "a part of a field is not the field")
		return
	}
	vp.Assert(e.GetAttribute(c) == nil, "a field an event has not is null")
}
