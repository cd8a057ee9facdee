package server

import (
	"time"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:use chan
//vp:use srv
//vp:bound any requested timeout; three granted timeouts with any idle time up to 2^31 ms that is at least one second off the limit; up to 4 (quick) or 6 (thorough) sessions created, closed and expired in any order
//vp:outside the period of the expiry scan, wall clock changes

func vpCreate(srv *Server, conn *vpConn, ch *serverSecureChannel, timeout float64, res *ua.CreateSessionResponse) ua.StatusCode {
	return vpDo(srv, conn, ch, &ua.CreateSessionRequest{RequestHeader: ua.RequestHeader{RequestHandle: 77}, SessionName: "n", RequestedSessionTimeout: timeout}, res)
}

// VP_C14_timeout: the timeout granted is the one asked for, limited to 10 seconds .. 1 hour.
func VP_C14_timeout() {
	vp.Limit("rand", 1)
	srv := vpServer()
	conn, ch := vpSrvChannel(srv, 7)
	t := vp.F64("timeout")
	var res ua.CreateSessionResponse
	vp.Assert(vpCreate(srv, conn, ch, t, &res) == ua.Good, "a session is created")
	r := res.RevisedSessionTimeout
	vp.Assert(r >= 10000 && r <= 3600000, "the timeout granted is within the limits of the server")
	if t >= 10000 && t <= 3600000 {
		vp.Assert(r == t, "a timeout within the limits is granted as asked")
	}
	s, ok := srv.sessionManager.Get(res.AuthenticationToken)
	vp.Assert(ok && s.Timeout() == r, "the session has the timeout the client was told")
}

// VP_C14_expiry: a session is dropped exactly when it was idle for longer than its timeout; using it starts the time
// anew.
func VP_C14_expiry() {
	srv := vpServer()
	t := []float64{10000, 60000, 3600000}[vp.Choice("timeout", 3)]
	a := vpSession(srv, 1, 7, nil)
	b := vpSession(srv, 2, 7, nil)
	a.timeout = t
	idle := int64(vp.U32("idle") >> 1)
	vp.Assume(idle <= int64(t)-1000 || idle >= int64(t)+1000)
	a.SetLastAccess(time.Now().Add(-time.Duration(idle) * time.Millisecond))
	expired := idle > int64(t)
	scan := vp.Bool("scan")
	if scan {
		srv.sessionManager.checkForExpiredSessions()
		n := srv.sessionManager.Len()
		if expired {
			vp.Assert(n == 1, "a session idle for longer than its timeout is dropped")
		} else {
			vp.Assert(n == 2, "a session in use is kept")
		}
	}
	_, ok := srv.sessionManager.Get(ua.NodeIDNumeric{NamespaceIndex: 1, ID: 1})
	if expired {
		vp.Reach("expired")
		vp.Assert(!ok, "a session idle for longer than its timeout is gone")
	} else {
		vp.Reach("alive")
		vp.Assert(ok, "a session in use is kept")
		vp.Assert(time.Since(a.LastAccess()) < time.Second, "using a session starts its timeout anew")
	}
	s, ok := srv.sessionManager.Get(ua.NodeIDNumeric{NamespaceIndex: 1, ID: 2})
	vp.Assert(ok && s == b, "other sessions are not affected")
}

// VP_C14_count: there are never more sessions than allowed, every session allowed can be created, tokens and ids are
// unique, and a closed or expired session frees its place.
func VP_C14_count() {
	vp.Limit("rand", 1)
	srv := vpServer()
	max := vp.Choice("max", 3)
	srv.sessionManager.maxSessionCount = max // 0: no limit
	conn, ch := vpSrvChannel(srv, 7)
	var live []*Session
	var tokens, ids []ua.NodeID
	steps := vp.Bound(4, 6)
	for i := 0; i < steps; i++ {
		switch op := vp.Choice("op", 3); {
		case op == 0:
			var res ua.CreateSessionResponse
			st := vpCreate(srv, conn, ch, 60000, &res)
			if max > 0 && len(live) >= max {
				vp.Reach("full")
				vp.Assert(st == ua.BadTooManySessions, "there are never more sessions than allowed")
				break
			}
			vp.Assert(st == ua.Good, "a session that is allowed is created")
			for j := range tokens {
				vp.Assert(tokens[j] != res.AuthenticationToken && ids[j] != res.SessionID, "each session has a token and an id of its own")
			}
			tokens, ids = append(tokens, res.AuthenticationToken), append(ids, res.SessionID)
			s, ok := srv.sessionManager.Get(res.AuthenticationToken)
			vp.Assert(ok, "a session is created")
			if !ok {
				vp.Stop()
			}
			s.SetSecureChannelId(7)
			live = append(live, s)
		case len(live) == 0:
		case op == 1:
			token := live[0].AuthenticationToken()
			var res ua.CloseSessionResponse
			st := vpDo(srv, conn, ch, &ua.CloseSessionRequest{RequestHeader: ua.RequestHeader{AuthenticationToken: token, RequestHandle: 77}}, &res)
			vp.Assert(st == ua.Good, "a session can be closed")
			_, ok := srv.sessionManager.Get(token)
			vp.Assert(!ok, "a closed session is gone")
			vp.Reach("closed")
			live = live[1:]
		default:
			live[0].SetLastAccess(time.Now().Add(-time.Hour))
			srv.sessionManager.checkForExpiredSessions()
			live = live[1:]
		}
		vp.Assert(srv.sessionManager.Len() == len(live), "closed and expired sessions do not count")
	}
}

// VP_C14_close: closing a session deletes its subscriptions if asked to, and nothing else.
func VP_C14_close() {
	srv := vpServer()
	a := vpSession(srv, 1, 7, nil)
	b := vpSession(srv, 2, 7, nil)
	conn, ch := vpSrvChannel(srv, 7)
	sm := srv.subscriptionManager
	add := func(s *Session) *Subscription {
		sub := NewSubscription(sm, s, 1000, 30, 10, 0, true, 0)
		sub.startPublishing()
		sm.subscriptionsByID[sub.id] = sub
		return sub
	}
	na := vp.Choice("subscriptions", 3)
	for i := 0; i < na; i++ {
		add(a)
	}
	sb := add(b)
	del := vp.Bool("delete")
	var res ua.CloseSessionResponse
	st := vpDo(srv, conn, ch, &ua.CloseSessionRequest{RequestHeader: vpHeader(1), DeleteSubscriptions: del}, &res)
	vp.Assert(st == ua.Good, "a session can be closed")
	want := 1
	if !del {
		want += na
	}
	vp.Assert(sm.Len() == want, "closing a session deletes its subscriptions exactly if asked to")
	got, ok := sm.Get(sb.id)
	vp.Assert(ok && got == sb, "other sessions keep their subscriptions")
	_, ok = srv.sessionManager.Get(ua.NodeIDNumeric{NamespaceIndex: 1, ID: 1})
	vp.Assert(!ok, "a closed session is gone")
	_, ok = srv.sessionManager.Get(ua.NodeIDNumeric{NamespaceIndex: 1, ID: 2})
	vp.Assert(ok, "other sessions are not affected")
}
