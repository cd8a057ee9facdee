package server

import (
	"crypto/sha1"
	"fmt"

	"github.com/awcullen/opcua/ua"
	vp "github.com/awcullen/opcua/verifvp"
)

//vp:bound 2 (quick) / 3 (thorough) mapping rules, the first with 0..2 identities, the others with one, 0..2 applications, 0..2 endpoints; names and criteria of up to 2 characters; every identity kind, including an unknown one
//vp:use chan
//vp:use srv
//vp:outside the strength of SHA-1 as thumbprint

type vpEndpoint = struct {
	EndpointUrl         string
	SecurityMode        string
	SecurityPolicyURI   string
	TransportProfileUri string
}

// vpText is "", or one or two symbolic characters.
func vpText(name string) string { return vp.Str(name, vp.Choice(name+" length", 3)) }

func vpIdentity(kind int) (user any, name string, thumb string) {
	switch kind {
	case 0:
		return ua.AnonymousIdentity{}, "", ""
	case 1:
		name = vpText("user")
		return ua.UserNameIdentity{UserName: name, Password: "p"}, name, ""
	case 2:
		c := ua.ByteString([]string{"cert A", "cert B"}[vp.Choice("certificate", 2)])
		return ua.X509Identity{Certificate: c}, "", fmt.Sprintf("%x", sha1.Sum([]byte(c)))
	case 3:
		return ua.IssuedIdentity{TokenData: "x"}, "", ""
	case 4:
		return nil, "", ""
	}
	return 5, "", ""
}

// vpHasRole counts whether role is among roles.
func vpHasRole(roles []ua.NodeID, role ua.NodeID) bool {
	for _, r := range roles {
		if r == role {
			return true
		}
	}
	return false
}

// VP_C16_identity: which identities of a rule match.
func VP_C16_identity() {
	kind := vp.Choice("identity", 6)
	user, name, thumb := vpIdentity(kind)
	n := 1 + vp.Choice("rules", vp.Bound(2, 3))
	var rules []IdentityMappingRule
	want := make([]bool, n)
	any := false
	for i := 0; i < n; i++ {
		r := IdentityMappingRule{NodeID: ua.NodeIDNumeric{ID: uint32(100 + i)}, ApplicationsExclude: true, EndpointsExclude: true}
		k := vp.Choice("identities", 3)
		if i > 0 {
			k = 1
		}
		for j := 0; j < k; j++ {
			// Issued and authenticated tokens, groups and unknown criteria are never matched by name
			t := ua.IdentityCriteriaType(vp.Range("criteria type", 0, 7))
			crit := ""
			m := false
			switch {
			case kind == 0:
				m = t == ua.IdentityCriteriaTypeAnonymous
			case kind == 1:
				crit = vpText("criteria")
				m = vp.Or(t == ua.IdentityCriteriaTypeAuthenticatedUser, vp.And(t == ua.IdentityCriteriaTypeUserName, crit == name))
			case kind == 2:
				same := vp.Bool("same thumbprint")
				if same {
					crit = thumb
				} else {
					crit = "00" + thumb[2:]
				}
				m = vp.Or(t == ua.IdentityCriteriaTypeAuthenticatedUser, vp.And(t == ua.IdentityCriteriaTypeThumbprint, same))
			case kind == 3:
				m = t == ua.IdentityCriteriaTypeAuthenticatedUser
			}
			r.Identities = append(r.Identities, ua.IdentityMappingRuleType{CriteriaType: t, Criteria: crit})
			want[i] = vp.Or(want[i], m)
		}
		any = vp.Or(any, want[i])
		rules = append(rules, r)
	}
	vpCheckRoles(rules, want, any, user, "a", "e")
}

func vpCheckRoles(rules []IdentityMappingRule, want []bool, any bool, user any, app, ep string) {
	roles, err := NewRulesBasedRolesProvider(rules).GetRoles(user, app, ep)
	vp.Assert((err == nil) == any, "a user without a role is refused, any other is not")
	if err != nil {
		return
	}
	for i, r := range rules {
		vp.Assert(vpHasRole(roles, r.NodeID) == want[i], "a user has exactly the roles whose rules match")
	}
	for _, got := range roles {
		known := false
		for _, r := range rules {
			known = vp.Or(known, got == r.NodeID)
		}
		vp.Assert(known, "a user has exactly the roles whose rules match")
	}
}

// VP_C16_where: applications and endpoints included or excluded by a rule.
func VP_C16_where() {
	app, ep := vpText("application"), vpText("endpoint")
	n := 1 + vp.Choice("rules", vp.Bound(2, 2))
	var rules []IdentityMappingRule
	want := make([]bool, n)
	any := false
	for i := 0; i < n; i++ {
		r := IdentityMappingRule{NodeID: ua.NodeIDNumeric{ID: uint32(100 + i)}, ApplicationsExclude: vp.Bool("exclude apps"), EndpointsExclude: vp.Bool("exclude endpoints")}
		r.Identities = []ua.IdentityMappingRuleType{{CriteriaType: ua.IdentityCriteriaTypeAnonymous}}
		inA, inE := false, false
		if i == 0 {
			for j := vp.Choice("applications", 3); j > 0; j-- {
				a := vpText("listed application")
				r.Applications = append(r.Applications, a)
				inA = vp.Or(inA, a == app)
			}
			for j := vp.Choice("endpoints", 3); j > 0; j-- {
				e := vpText("listed endpoint")
				r.Endpoints = append(r.Endpoints, vpEndpoint{EndpointUrl: e})
				inE = vp.Or(inE, e == ep)
			}
		} else {
			a, e := vp.Str("listed application", 1), vp.Str("listed endpoint", 1)
			r.Applications = append(r.Applications, a)
			r.Endpoints = append(r.Endpoints, vpEndpoint{EndpointUrl: e})
			inA, inE = a == app, e == ep
		}
		want[i] = vp.And(inA != r.ApplicationsExclude, inE != r.EndpointsExclude)
		any = vp.Or(any, want[i])
		rules = append(rules, r)
	}
	vpCheckRoles(rules, want, any, ua.AnonymousIdentity{}, app, ep)
}

// VP_C16_session: the roles of a session decide what it may do.
func VP_C16_session() {
	srv := vpServer()
	conn, ch := vpSrvChannel(srv, 5)
	kind := vp.Choice("identity", 4)
	user, name, thumb := vpIdentity(kind)
	t := ua.IdentityCriteriaType(vp.Range("criteria type", 0, 7))
	crit := vpText("criteria")
	rule := IdentityMappingRule{NodeID: vpAdmin, ApplicationsExclude: vp.Bool("exclude apps"), EndpointsExclude: vp.Bool("exclude endpoints")}
	rule.Identities = []ua.IdentityMappingRuleType{{CriteriaType: t, Criteria: crit}}
	match := false
	switch kind {
	case 0:
		match = t == ua.IdentityCriteriaTypeAnonymous
	case 1:
		match = vp.Or(t == ua.IdentityCriteriaTypeAuthenticatedUser, vp.And(t == ua.IdentityCriteriaTypeUserName, crit == name))
	default:
		_ = thumb
		match = t == ua.IdentityCriteriaTypeAuthenticatedUser
	}
	where := vp.Choice("limited to", 3)
	inA, inE := false, false
	if where == 1 {
		inA = vp.Bool("the session's application is listed")
		rule.Applications = []string{"urn:other", "urn:other2"}
		if inA {
			rule.Applications[1] = "urn:app"
		}
	}
	if where == 2 {
		inE = vp.Bool("the session's endpoint is listed")
		rule.Endpoints = []vpEndpoint{{EndpointUrl: "opc.tcp://other"}}
		if inE {
			rule.Endpoints[0].EndpointUrl = "opc.tcp://here"
		}
	}
	srv.rolesProvider = NewRulesBasedRolesProvider([]IdentityMappingRule{rule})
	s := NewSession(srv, ua.NodeIDNumeric{NamespaceIndex: 1, ID: 501}, "s", ua.NodeIDNumeric{NamespaceIndex: 1, ID: 1}, "nonce", 3600000, ua.ApplicationDescription{ApplicationURI: "urn:app"}, "", "opc.tcp://here", "", 0)
	srv.sessionManager.Add(s)
	s.SetUserIdentity(user)
	s.SetSecureChannelId(5)
	vpAddVariable(srv, vpVarID, int32(5), ua.DataTypeIDInt32, ua.ValueRankScalar, 3)
	r := vpRead(srv, conn, ch, vpVarID, "")
	want := vp.And(match, vp.And(inA != rule.ApplicationsExclude, inE != rule.EndpointsExclude))
	switch {
	case inA:
		vp.Assert((r.StatusCode == ua.Good) == want, "a rule that names the application of the session is judged by it")
	case inE:
		vp.Assert((r.StatusCode == ua.Good) == want, "a rule that names the endpoint of the session is judged by it")
	default:
		vp.Assert((r.StatusCode == ua.Good) == want, "a session acts exactly with the roles of its user")
	}
}
