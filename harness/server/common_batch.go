package server

import (
	"time"

	"github.com/awcullen/opcua/ua"
)

// vpBatch is a service with a list of operations.
type vpBatch struct {
	limit   func(*ua.OperationLimits, uint32) // nil: no limit
	request func(h ua.RequestHeader, ops []int) ua.ServiceRequest
	res     func() (ua.ServiceResponse, func() []ua.StatusCode)
	good    ua.StatusCode // result of an operation on something that exists
	bad     ua.StatusCode // on something that does not
	effect  func() int    // number of operations performed so far, nil if there is nothing to see
	once    bool          // an operation works once
}

func vpStatus[T any](rs []T, f func(T) ua.StatusCode) []ua.StatusCode {
	out := make([]ua.StatusCode, len(rs))
	for i, r := range rs {
		out[i] = f(r)
	}
	return out
}

func vpPick[T any](ops []int, good, bad T) []T {
	out := make([]T, len(ops))
	for i, o := range ops {
		out[i] = good
		if o == 1 {
			out[i] = bad
		}
	}
	return out
}

func vpBatches(g *vpPub, calls *int) []vpBatch {
	no := vpN(999)
	same := func(s ua.StatusCode) ua.StatusCode { return s }
	items := func(l *ua.OperationLimits, n uint32) { l.MaxMonitoredItemsPerCall = n }
	return []vpBatch{
		{limit: func(l *ua.OperationLimits, n uint32) { l.MaxNodesPerRead = n }, good: ua.Good, bad: ua.BadNodeIDUnknown,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.ReadRequest{RequestHeader: h, TimestampsToReturn: ua.TimestampsToReturnBoth, NodesToRead: vpPick(ops, ua.ReadValueID{NodeID: vpVarID, AttributeID: 13}, ua.ReadValueID{NodeID: no, AttributeID: 13})}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.ReadResponse{}
				return r, func() []ua.StatusCode { return vpStatus(r.Results, func(v ua.DataValue) ua.StatusCode { return v.StatusCode }) }
			}},
		{limit: func(l *ua.OperationLimits, n uint32) { l.MaxNodesPerWrite = n }, good: ua.Good, bad: ua.BadNodeIDUnknown,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				v := ua.NewDataValue(int32(77), 0, time.Time{}, 0, time.Time{}, 0)
				return &ua.WriteRequest{RequestHeader: h, NodesToWrite: vpPick(ops, ua.WriteValue{NodeID: vpVarID, AttributeID: 13, Value: v}, ua.WriteValue{NodeID: no, AttributeID: 13, Value: v})}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.WriteResponse{}
				return r, func() []ua.StatusCode { return vpStatus(r.Results, same) }
			},
			effect: func() int {
				if g.v.Value().Value == int32(77) {
					return 1
				}
				return 0
			}, once: true},
		{limit: func(l *ua.OperationLimits, n uint32) { l.MaxNodesPerMethodCall = n }, good: ua.Good, bad: ua.BadMethodInvalid,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.CallRequest{RequestHeader: h, MethodsToCall: vpPick(ops, ua.CallMethodRequest{ObjectID: vpN(200), MethodID: vpN(201)}, ua.CallMethodRequest{ObjectID: vpN(200), MethodID: no})}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.CallResponse{}
				return r, func() []ua.StatusCode {
					return vpStatus(r.Results, func(v ua.CallMethodResult) ua.StatusCode { return v.StatusCode })
				}
			}, effect: func() int { return *calls }},
		{limit: func(l *ua.OperationLimits, n uint32) { l.MaxNodesPerBrowse = n }, good: ua.Good, bad: ua.BadNodeIDUnknown,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.BrowseRequest{RequestHeader: h, NodesToBrowse: vpPick(ops, ua.BrowseDescription{NodeID: vpVarID}, ua.BrowseDescription{NodeID: no})}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.BrowseResponse{}
				return r, func() []ua.StatusCode {
					return vpStatus(r.Results, func(v ua.BrowseResult) ua.StatusCode { return v.StatusCode })
				}
			}},
		{limit: func(l *ua.OperationLimits, n uint32) { l.MaxNodesPerBrowse = n }, good: ua.BadContinuationPointInvalid, bad: ua.Good,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.BrowseNextRequest{RequestHeader: h, ContinuationPoints: vpPick(ops, ua.ByteString("abcd"), ua.ByteString(""))}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.BrowseNextResponse{}
				return r, func() []ua.StatusCode {
					return vpStatus(r.Results, func(v ua.BrowseResult) ua.StatusCode { return v.StatusCode })
				}
			}},
		{limit: func(l *ua.OperationLimits, n uint32) { l.MaxNodesPerTranslateBrowsePathsToNodeIds = n }, good: ua.Good, bad: ua.BadNodeIDUnknown,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				p := ua.RelativePath{Elements: []ua.RelativePathElement{{ReferenceTypeID: ua.ReferenceTypeIDOrganizes, TargetName: ua.QualifiedName{Name: "m"}}}}
				return &ua.TranslateBrowsePathsToNodeIDsRequest{RequestHeader: h, BrowsePaths: vpPick(ops, ua.BrowsePath{StartingNode: vpN(200), RelativePath: p}, ua.BrowsePath{StartingNode: no, RelativePath: p})}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.TranslateBrowsePathsToNodeIDsResponse{}
				return r, func() []ua.StatusCode {
					return vpStatus(r.Results, func(v ua.BrowsePathResult) ua.StatusCode { return v.StatusCode })
				}
			}},
		{good: ua.Good, bad: ua.BadSubscriptionIDInvalid,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.SetPublishingModeRequest{RequestHeader: h, SubscriptionIDs: vpPick(ops, g.sub.id, 98765)}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.SetPublishingModeResponse{}
				return r, func() []ua.StatusCode { return vpStatus(r.Results, same) }
			},
			effect: func() int {
				if !g.sub.publishingEnabled {
					return 1
				}
				return 0
			}, once: true},
		{good: ua.Good, bad: ua.BadSubscriptionIDInvalid, once: true,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.DeleteSubscriptionsRequest{RequestHeader: h, SubscriptionIDs: vpPick(ops, g.sub.id, 98765)}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.DeleteSubscriptionsResponse{}
				return r, func() []ua.StatusCode { return vpStatus(r.Results, same) }
			},
			effect: func() int { return 1 - g.srv.subscriptionManager.Len() }},
		{limit: items, good: ua.Good, bad: ua.BadNodeIDUnknown,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.CreateMonitoredItemsRequest{RequestHeader: h, SubscriptionID: g.sub.id, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToCreate: vpPick(ops, ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: vpVarID, AttributeID: 13}, MonitoringMode: ua.MonitoringModeReporting},
					ua.MonitoredItemCreateRequest{ItemToMonitor: ua.ReadValueID{NodeID: no, AttributeID: 13}, MonitoringMode: ua.MonitoringModeReporting})}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.CreateMonitoredItemsResponse{}
				return r, func() []ua.StatusCode {
					return vpStatus(r.Results, func(v ua.MonitoredItemCreateResult) ua.StatusCode { return v.StatusCode })
				}
			}, effect: func() int { return len(g.sub.items) - 1 }},
		{limit: items, good: ua.Good, bad: ua.BadMonitoredItemIDInvalid,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.ModifyMonitoredItemsRequest{RequestHeader: h, SubscriptionID: g.sub.id, TimestampsToReturn: ua.TimestampsToReturnBoth, ItemsToModify: vpPick(ops, ua.MonitoredItemModifyRequest{MonitoredItemID: g.item.ID(), RequestedParameters: ua.MonitoringParameters{ClientHandle: 77}}, ua.MonitoredItemModifyRequest{MonitoredItemID: 98765})}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.ModifyMonitoredItemsResponse{}
				return r, func() []ua.StatusCode {
					return vpStatus(r.Results, func(v ua.MonitoredItemModifyResult) ua.StatusCode { return v.StatusCode })
				}
			},
			effect: func() int {
				if g.item.ClientHandle() == 77 {
					return 1
				}
				return 0
			}, once: true},
		{limit: items, good: ua.Good, bad: ua.BadMonitoredItemIDInvalid,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.SetMonitoringModeRequest{RequestHeader: h, SubscriptionID: g.sub.id, MonitoringMode: ua.MonitoringModeSampling, MonitoredItemIDs: vpPick(ops, g.item.ID(), 98765)}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.SetMonitoringModeResponse{}
				return r, func() []ua.StatusCode { return vpStatus(r.Results, same) }
			},
			effect: func() int {
				if g.item.MonitoringMode() == ua.MonitoringModeSampling {
					return 1
				}
				return 0
			}, once: true},
		{limit: items, good: ua.Good, bad: ua.BadMonitoredItemIDInvalid, once: true,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.DeleteMonitoredItemsRequest{RequestHeader: h, SubscriptionID: g.sub.id, MonitoredItemIDs: vpPick(ops, g.item.ID(), 98765)}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.DeleteMonitoredItemsResponse{}
				return r, func() []ua.StatusCode { return vpStatus(r.Results, same) }
			}, effect: func() int { return 1 - len(g.sub.items) }},
		{limit: func(l *ua.OperationLimits, n uint32) { l.MaxNodesPerHistoryReadData = n }, good: ua.BadHistoryOperationUnsupported, bad: ua.BadHistoryOperationUnsupported,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.HistoryReadRequest{RequestHeader: h, HistoryReadDetails: ua.ReadRawModifiedDetails{}, NodesToRead: vpPick(ops, ua.HistoryReadValueID{NodeID: vpVarID}, ua.HistoryReadValueID{NodeID: no})}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) { r := &ua.HistoryReadResponse{}; return r, nil }},
		{limit: func(l *ua.OperationLimits, n uint32) { l.MaxNodesPerRegisterNodes = n },
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.RegisterNodesRequest{RequestHeader: h, NodesToRegister: vpPick(ops, ua.NodeID(vpVarID), ua.NodeID(vpN(200)))}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.RegisterNodesResponse{}
				return r, func() []ua.StatusCode {
					return vpStatus(r.RegisteredNodeIDs, func(n ua.NodeID) ua.StatusCode {
						switch n {
						case vpVarID:
							return 0
						case vpN(200):
							return 1
						}
						return 2
					})
				}
			}, good: 0, bad: 1},
		{limit: func(l *ua.OperationLimits, n uint32) { l.MaxNodesPerRegisterNodes = n },
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.UnregisterNodesRequest{RequestHeader: h, NodesToUnregister: vpPick(ops, ua.NodeID(vpVarID), ua.NodeID(vpN(200)))}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) { return &ua.UnregisterNodesResponse{}, nil }},
		{good: ua.Good, bad: ua.BadMonitoredItemIDInvalid,
			request: func(h ua.RequestHeader, ops []int) ua.ServiceRequest {
				return &ua.SetTriggeringRequest{RequestHeader: h, SubscriptionID: g.sub.id, TriggeringItemID: g.item.ID(), LinksToAdd: vpPick(ops, g.item.ID(), 98765)}
			},
			res: func() (ua.ServiceResponse, func() []ua.StatusCode) {
				r := &ua.SetTriggeringResponse{}
				return r, func() []ua.StatusCode { return vpStatus(r.AddResults, same) }
			}},
	}
}
