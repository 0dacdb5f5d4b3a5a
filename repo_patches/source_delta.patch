From 2f245059680d230d2896bd2d39b9dbaedbd82b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:40 +0000
Subject: [PATCH 01/48] fix: apply delete changes of a modify request to the
 result of earlier changes

A delete change looked at the values of the stored entry instead of the
values left by the preceding changes of the same request, so earlier changes
of the same attribute were lost.
---
 pkg/ldapentry/ldapentry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index d2e83ad..aa2de08 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -65,7 +65,7 @@ func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry
 					}
 				}
 			}
-			newValues := entryApplyModDelete(old.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
+			newValues := entryApplyModDelete(newEntry.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
 			newEntry.Attributes = entryReplaceValues(newEntry.Attributes, c.Modification.Type, newValues)
 		}
 	}
-- 
2.43.0


From 886e755066e900c9d8d4c7e227409c3456dd88e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:40 +0000
Subject: [PATCH 02/48] fix: do not store a value twice that is listed twice in
 an add change

Values were only compared with the values present before the change.
---
 pkg/ldapentry/ldapentry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index aa2de08..1d2d9ec 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -100,7 +100,7 @@ func entryApplyModAdd(curVals, addVals []string) (newVals []string) {
 	casefold := cases.Fold()
 	for _, newVal := range addVals {
 		present := false
-		for _, val := range curVals {
+		for _, val := range newVals {
 			if casefold.String(newVal) == casefold.String(val) {
 				present = true
 				break
-- 
2.43.0


From 51a05de033e49c90708ae9ff92f00656d4630272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:40 +0000
Subject: [PATCH 03/48] fix: reject modify changes that add nothing or have an
 unsupported kind

Both were ignored and the request was answered with success.
---
 pkg/ldapentry/ldapentry.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ldapentry/ldapentry.go b/pkg/ldapentry/ldapentry.go
index 1d2d9ec..b8d5444 100644
--- a/pkg/ldapentry/ldapentry.go
+++ b/pkg/ldapentry/ldapentry.go
@@ -29,6 +29,9 @@ func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry
 		nType := casefold.String(c.Modification.Type)
 		switch c.Operation {
 		case ldap.AddAttribute:
+			if len(c.Modification.Vals) == 0 {
+				return nil, ldap.NewError(ldap.LDAPResultProtocolError, errors.New("add change without values"))
+			}
 			newValues := entryApplyModAdd(newEntry.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
 			newEntry.Attributes = entryReplaceValues(newEntry.Attributes, c.Modification.Type, newValues)
 
@@ -67,6 +70,8 @@ func ApplyModify(old *ldap.Entry, mod *ldap.ModifyRequest) (newEntry *ldap.Entry
 			}
 			newValues := entryApplyModDelete(newEntry.GetEqualFoldAttributeValues(nType), c.Modification.Vals)
 			newEntry.Attributes = entryReplaceValues(newEntry.Attributes, c.Modification.Type, newValues)
+		default:
+			return nil, ldap.NewError(ldap.LDAPResultUnwillingToPerform, errors.New("unsupported change operation"))
 		}
 	}
 	return newEntry, nil
-- 
2.43.0


From 7cea8f618e959c7a93808e6596cf46fcdc76183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:22 +0000
Subject: [PATCH 04/48] fix: escape attribute types when normalizing a DN

An attribute type containing escaped special characters was written verbatim,
so the normalized DN did not parse, or denoted another entry: cn\=a\,o=b (one
RDN) and cn=a,o=b (two RDNs) had the same normalized form.
---
 pkg/ldapdn/ldapdn.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapdn/ldapdn.go b/pkg/ldapdn/ldapdn.go
index 6cff7cc..0c8ed61 100644
--- a/pkg/ldapdn/ldapdn.go
+++ b/pkg/ldapdn/ldapdn.go
@@ -3,6 +3,7 @@ package ldapdn
 import (
 	"bytes"
 	"encoding/hex"
+	"strings"
 
 	"github.com/go-ldap/ldap/v3"
 	"golang.org/x/text/cases"
@@ -25,12 +26,18 @@ func Normalize(dn *ldap.DN) string {
 			} else if r > 0 {
 				nDN += ","
 			}
-			nDN = nDN + caseFold.String(ava.Type) + "=" + encodeRDNValue(caseFold.String(ava.Value))
+			nDN = nDN + encodeRDNType(caseFold.String(ava.Type)) + "=" + encodeRDNValue(caseFold.String(ava.Value))
 		}
 	}
 	return nDN
 }
 
+// encodeRDNType applies the DN escaping rules to the type part of an RDN, where
+// in contrast to the value part an equal sign needs escaping as well.
+func encodeRDNType(rDNType string) string {
+	return strings.ReplaceAll(encodeRDNValue(rDNType), "=", "\\=")
+}
+
 // encodeRDNValue applies the DN escaping rules (RFC4514) to the supplied
 // string (the value part of an RDN). Returns the escaped string.
 // Note: This function is taken from https://github.com/go-ldap/ldap/pull/104
-- 
2.43.0


From b1958899488d81a3e31c212f2f3357df92c26308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:04 +0000
Subject: [PATCH 05/48] fix: do not crash when an extended operation is refused
 without a message

A back-end may refuse a password change with a result code and no error.
Taking the message of the missing error ended the whole server.
---
 pkg/ldapserver/extended.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/extended.go b/pkg/ldapserver/extended.go
index 83ad790..751f27c 100644
--- a/pkg/ldapserver/extended.go
+++ b/pkg/ldapserver/extended.go
@@ -33,7 +33,9 @@ func HandleExtendedRequest(req *ber.Packet, boundDN string, server *Server, conn
 		msg := ""
 		if err != nil {
 			if lerr, ok := err.(*ldap.Error); ok {
-				msg = lerr.Err.Error()
+				if lerr.Err != nil {
+					msg = lerr.Err.Error()
+				}
 				resCode = LDAPResultCode(lerr.ResultCode)
 			} else {
 				msg = err.Error()
-- 
2.43.0


From 2fad40dcb646767d515b91b1d274442ff87feb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:04 +0000
Subject: [PATCH 06/48] fix: answer compare requests with a compare response

The answer had the type of a request and the connection was closed, so
further requests already sent by the client were never answered.
---
 pkg/ldapserver/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 0ecab75..a3d2856 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -313,12 +313,12 @@ handler:
 			}
 
 		case ldap.ApplicationCompareRequest:
-			responsePacket := encodeLDAPResponse(messageID, ldap.ApplicationCompareRequest, ldap.LDAPResultOperationsError, "Unsupported operation: compare")
+			logger.V(1).Info("Unhandled operation", "type", ldap.ApplicationMap[uint8(req.Tag)], "tag", req.Tag)
+			responsePacket := encodeLDAPResponse(messageID, ldap.ApplicationCompareResponse, ldap.LDAPResultOperationsError, "Unsupported operation: compare")
 			if err = sendPacket(conn, responsePacket); err != nil {
 				logger.Error(err, "sendPacket error")
+				break handler
 			}
-			logger.V(1).Info("Unhandled operation", "type", ldap.ApplicationMap[uint8(req.Tag)], "tag", req.Tag)
-			break handler
 
 		case ldap.ApplicationDelRequest:
 			server.Stats.countDeletes(1)
-- 
2.43.0


From 4b5a75f6213c36fdccfe52bf76bdecd249ac76e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:04 +0000
Subject: [PATCH 07/48] fix: keep the connection open after a search that ends
 with an error

A search that fails or exceeds its size limit is answered, but then the
connection was closed and the following requests of the client were lost.
---
 pkg/ldapserver/server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index a3d2856..c3fef39 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -416,7 +416,6 @@ handler:
 					logger.Error(err, "sendPacket error")
 					break handler
 				}
-				break handler
 			} else {
 				if err = sendPacket(conn, encodeSearchDone(messageID, ldap.LDAPResultSuccess, doneControls)); err != nil {
 					logger.Error(err, "sendPacket error")
-- 
2.43.0


From c260be0589efb93946431d7af2430bfdb355127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:04 +0000
Subject: [PATCH 08/48] fix: report the result code of the search handler to
 the client

A non-success code without an error was answered as success.
---
 pkg/ldapserver/search.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ldapserver/search.go b/pkg/ldapserver/search.go
index 992707d..cb48d0f 100644
--- a/pkg/ldapserver/search.go
+++ b/pkg/ldapserver/search.go
@@ -89,6 +89,9 @@ func HandleSearchRequest(req *ber.Packet, controls *[]ldap.Control, messageID in
 			return &searchResp.Controls, ldap.NewError(ldap.LDAPResultOperationsError, err)
 		}
 	}
+	if resultErr == nil && searchResp.ResultCode != ldap.LDAPResultSuccess {
+		resultErr = ldap.NewError(uint16(searchResp.ResultCode), errors.New("search handler reported an error"))
+	}
 	return &searchResp.Controls, resultErr
 }
 
-- 
2.43.0


From 628cb63bf0855de5a14edc3a7832fb5dbf615a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:04 +0000
Subject: [PATCH 09/48] fix: release the statistics lock after counting an add

The lock was taken twice, so the first add blocked its connection and
everything that counts afterwards.
---
 pkg/ldapserver/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index c18e627..2b30685 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -47,7 +47,7 @@ func (stats *Stats) countAdds(delta uint64) {
 	if stats != nil {
 		stats.statsMutex.Lock()
 		stats.Adds += delta
-		stats.statsMutex.Lock()
+		stats.statsMutex.Unlock()
 	}
 }
 
-- 
2.43.0


From bdd2d2503eb913b79ca08b411608487a092ecc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:04 +0000
Subject: [PATCH 10/48] fix: include the peak number of connections in the
 statistics

---
 pkg/ldapserver/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/stats.go b/pkg/ldapserver/stats.go
index 2b30685..2a1dbcd 100644
--- a/pkg/ldapserver/stats.go
+++ b/pkg/ldapserver/stats.go
@@ -106,6 +106,7 @@ func (stats *Stats) Clone() *Stats {
 		stats.statsMutex.RLock()
 		s2.Conns = stats.Conns
 		s2.ConnsCurrent = stats.ConnsCurrent
+		s2.ConnsMax = stats.ConnsMax
 		s2.Adds = stats.Adds
 		s2.Binds = stats.Binds
 		s2.Deletes = stats.Deletes
-- 
2.43.0


From 9bef4fcce2277ac865d03df553bea1090394821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:04 +0000
Subject: [PATCH 11/48] fix: return the generated password instead of its hash

The client got the stored ARGON2 hash, which reveals the hash and does
not let the user log in.
---
 pkg/ldapserver/pwmodifyexop.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index 8d71965..da052c1 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -24,7 +24,7 @@ func init() {
 }
 
 func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, conn net.Conn) (*ber.Packet, error) {
-	var passwordGenerated bool
+	var generatedPassword string
 	logger.V(1).Info("HandlePasswordModifyExOp")
 	if boundDN == "" {
 		return nil, ldap.NewError(ldap.LDAPResultUnwillingToPerform, errors.New("authentication required"))
@@ -47,7 +47,7 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 			logger.Error(err, "Failed to generate new password")
 			return nil, ldap.NewError(ldap.LDAPResultOperationsError, errors.New("Failed to generate new Password"))
 		}
-		passwordGenerated = true
+		generatedPassword = pwReq.NewPassword
 	}
 	pwReq.NewPassword, err = ldappassword.Hash(pwReq.NewPassword, "{ARGON2}")
 	if err != nil {
@@ -75,9 +75,9 @@ func HandlePasswordModifyExOp(req *ber.Packet, boundDN string, server *Server, c
 		return nil, ldap.NewError(uint16(code), err)
 	}
 	var response *ber.Packet
-	if passwordGenerated {
+	if generatedPassword != "" {
 		response = ber.NewSequence("PasswdModifyResponseValue")
-		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, pwReq.NewPassword, "genPasswd"))
+		response.AppendChild(ber.NewString(ber.ClassContext, ber.TypePrimitive, 0, generatedPassword, "genPasswd"))
 	}
 	return response, nil
 }
-- 
2.43.0


From f9e9d186ca48ad2d8cb49c455498cdeeae7299e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:02 +0000
Subject: [PATCH 12/48] fix: do not crash on modify requests with incomplete
 changes

A change without operation, with an empty operation or without an
attribute ended the whole server.
---
 pkg/ldapserver/modify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ldapserver/modify.go b/pkg/ldapserver/modify.go
index f9f4c20..90c3c3a 100644
--- a/pkg/ldapserver/modify.go
+++ b/pkg/ldapserver/modify.go
@@ -82,6 +82,9 @@ func parseModList(req *ber.Packet) ([]ldap.Change, error) {
 
 	for _, c := range req.Children {
 		var change ldap.Change
+		if len(c.Children) != 2 || len(c.Children[0].Data.Bytes()) != 1 {
+			return nil, ldap.NewError(ldap.LDAPResultProtocolError, errors.New("error decoding change"))
+		}
 		switch c.Children[0].Data.Bytes()[0] {
 		default:
 			return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid change operation"))
-- 
2.43.0


From c67072c6fc845bd045d7240dd2312211b65bb7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:18 +0000
Subject: [PATCH 13/48] fix: route requests by whole name components without
 regard to case

Handlers were selected by comparing the end of the name as text, so
"O=Base" was not routed to "o=base" and "cn=x,foo=base" was routed to a
handler for "oo=base".
---
 pkg/ldapserver/server.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index c3fef39..0bf81c9 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -448,15 +448,19 @@ func sendPacket(conn net.Conn, packet *ber.Packet) error {
 
 func routeFunc(dn string, funcNames []string) string {
 	bestPick := ""
+	parsedDN, err := ldap.ParseDN(dn)
+	if err != nil {
+		return bestPick
+	}
+	bestLen := 0
 	for _, fn := range funcNames {
-		if strings.HasSuffix(dn, fn) {
-			l := len(strings.Split(bestPick, ","))
-			if bestPick == "" {
-				l = 0
-			}
-			if len(strings.Split(fn, ",")) > l {
-				bestPick = fn
-			}
+		suffix, err := ldap.ParseDN(fn)
+		if err != nil || len(suffix.RDNs) <= bestLen {
+			continue
+		}
+		if suffix.EqualFold(parsedDN) || suffix.AncestorOfFold(parsedDN) {
+			bestPick = fn
+			bestLen = len(suffix.RDNs)
 		}
 	}
 	return bestPick
-- 
2.43.0


From 9bb8781caa6c00657cdfef752f65b0b07be7903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:23 +0000
Subject: [PATCH 14/48] fix: evaluate all parts of a substring filter

Only the first part was compared, so "(cn=a*b)" matched everything that
starts with "a", and a filter without any non-empty part crashed the server.
---
 pkg/ldapserver/filter.go | 47 ++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index 1ec4cc1..bea8f3d 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -110,25 +110,11 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 			return false, ldap.LDAPResultOperationsError
 		}
 		attribute := f.Children[0].Value.(string)
-		bytes := f.Children[1].Children[0].Data.Bytes()
-		value := casefold.String(string(bytes))
 		for _, a := range entry.Attributes {
 			if strings.EqualFold(a.Name, attribute) {
 				for _, v := range a.Values {
-					v = casefold.String(v)
-					switch f.Children[1].Children[0].Tag {
-					case FilterSubstringsInitial:
-						if strings.HasPrefix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsAny:
-						if strings.Contains(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
-					case FilterSubstringsFinal:
-						if strings.HasSuffix(v, value) {
-							return true, ldap.LDAPResultSuccess
-						}
+					if matchSubstrings(casefold.String(v), f.Children[1].Children) {
+						return true, ldap.LDAPResultSuccess
 					}
 				}
 			}
@@ -146,6 +132,35 @@ func ServerApplyFilter(f *ber.Packet, entry *ldap.Entry) (bool, LDAPResultCode)
 	return false, ldap.LDAPResultSuccess
 }
 
+// matchSubstrings checks that all parts of a substring filter appear in the
+// (case folded) value, in order and without overlapping.
+func matchSubstrings(value string, parts []*ber.Packet) bool {
+	for _, p := range parts {
+		part := casefold.String(p.Data.String())
+		switch p.Tag {
+		case FilterSubstringsInitial:
+			if !strings.HasPrefix(value, part) {
+				return false
+			}
+			value = value[len(part):]
+		case FilterSubstringsAny:
+			i := strings.Index(value, part)
+			if i < 0 {
+				return false
+			}
+			value = value[i+len(part):]
+		case FilterSubstringsFinal:
+			if !strings.HasSuffix(value, part) {
+				return false
+			}
+			value = value[:len(value)-len(part)]
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPResultCode) {
 	// constrained search scope
 	parsedBaseDn, err := ldap.ParseDN(baseDN)
-- 
2.43.0


From 25da4fdf50de28483365397822a65a65f01839a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:25 +0000
Subject: [PATCH 15/48] fix: compare whole name components when applying the
 search scope

The parent of an entry was found by splitting its name at commas, so a
one-level search failed when an entry had an escaped comma in its name.
For subtree searches the scope was not applied at all.
---
 pkg/ldapserver/filter.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pkg/ldapserver/filter.go b/pkg/ldapserver/filter.go
index bea8f3d..992abf1 100644
--- a/pkg/ldapserver/filter.go
+++ b/pkg/ldapserver/filter.go
@@ -173,21 +173,19 @@ func ServerFilterScope(baseDN string, scope int, entry *ldap.Entry) (bool, LDAPR
 	}
 	switch scope {
 	case ldap.ScopeWholeSubtree: // The scope is constrained to the entry named by baseObject and to all its subordinates.
+		if !parsedDn.EqualFold(parsedBaseDn) && !parsedBaseDn.AncestorOfFold(parsedDn) {
+			return false, ldap.LDAPResultSuccess
+		}
 	case ldap.ScopeBaseObject: // The scope is constrained to the entry named by baseObject.
 		if !parsedDn.EqualFold(parsedBaseDn) {
 			return false, ldap.LDAPResultSuccess
 		}
 	case ldap.ScopeSingleLevel: // The scope is constrained to the immediate subordinates of the entry named by baseObject.
-		parts := strings.Split(entry.DN, ",")
-		if len(parts) < 2 && !parsedDn.EqualFold(parsedBaseDn) {
+		if len(parsedDn.RDNs) == 0 {
 			return false, ldap.LDAPResultSuccess
 		}
-		subDn := strings.Join(parts[1:], ",")
-		parsedSubDn, err := ldap.ParseDN(subDn)
-		if err != nil {
-			return false, ldap.LDAPResultOperationsError
-		}
-		if !parsedSubDn.EqualFold(parsedBaseDn) {
+		parentDn := &ldap.DN{RDNs: parsedDn.RDNs[1:]}
+		if !parentDn.EqualFold(parsedBaseDn) {
 			return false, ldap.LDAPResultSuccess
 		}
 	}
-- 
2.43.0


From 372bf118409ff1031aaebfc7d6c03aed657f4295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:26 +0000
Subject: [PATCH 16/48] fix: return an attribute only once if it is requested
 several times

---
 pkg/ldapserver/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ldapserver/search.go b/pkg/ldapserver/search.go
index cb48d0f..4f1d576 100644
--- a/pkg/ldapserver/search.go
+++ b/pkg/ldapserver/search.go
@@ -167,6 +167,7 @@ func filterAttributes(entry *ldap.Entry, attributes []string) (*ldap.Entry, erro
 		for _, requested := range attributes {
 			if requested == "*" || strings.EqualFold(attr.Name, requested) {
 				newAttributes = append(newAttributes, attr)
+				break
 			}
 		}
 	}
-- 
2.43.0


From 713702571c9aefcb7ab633ec7e3b524ab24a7448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:28 +0000
Subject: [PATCH 17/48] fix: return no values if the client asked for types
 only

---
 pkg/ldapserver/search.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/search.go b/pkg/ldapserver/search.go
index 4f1d576..92a817b 100644
--- a/pkg/ldapserver/search.go
+++ b/pkg/ldapserver/search.go
@@ -185,7 +185,11 @@ func encodeSearchResponse(messageID int64, req *ldap.SearchRequest, res *ldap.En
 
 	attrs := ber.Encode(ber.ClassUniversal, ber.TypeConstructed, ber.TagSequence, nil, "Attributes: ")
 	for _, attribute := range res.Attributes {
-		attrs.AppendChild(encodeSearchAttribute(attribute.Name, attribute.Values))
+		values := attribute.Values
+		if req.TypesOnly {
+			values = nil
+		}
+		attrs.AppendChild(encodeSearchAttribute(attribute.Name, values))
 	}
 
 	searchEntry.AppendChild(attrs)
-- 
2.43.0


From 21b253ca7b4bfcd02403ef56525d6a3a323cda91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:51 +0000
Subject: [PATCH 18/48] fix: accept anonymous binds to the database from local
 clients only

The option to allow anonymous binds is documented for local clients, and
the LDIF handler checks the address of the client. The boltdb handler
accepted anonymous binds from everywhere.
---
 server/handler/boltdb/handler.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/server/handler/boltdb/handler.go b/server/handler/boltdb/handler.go
index 4f192fb..a98b5df 100644
--- a/server/handler/boltdb/handler.go
+++ b/server/handler/boltdb/handler.go
@@ -121,8 +121,8 @@ func (h *boltdbHandler) Bind(bindDN, bindSimplePw string, conn net.Conn) (ldapse
 
 	// Handle anoymous bind
 	if bindDN == "" {
-		if !h.allowLocalAnonymousBind {
-			logger.Debugln("ldap anonymous Bind disabled")
+		if !h.anonymousAllowed(conn) {
+			logger.Debugln("ldap anonymous Bind not allowed")
 			return ldap.LDAPResultInvalidCredentials, nil
 		} else if bindSimplePw == "" {
 			return ldap.LDAPResultSuccess, nil
@@ -331,3 +331,12 @@ func (h *boltdbHandler) writeAllowed(boundDN string) bool {
 	}
 	return false
 }
+
+// anonymousAllowed returns true if conn may be used without authentication.
+func (h *boltdbHandler) anonymousAllowed(conn net.Conn) bool {
+	if !h.allowLocalAnonymousBind {
+		return false
+	}
+	host, _, _ := net.SplitHostPort(conn.RemoteAddr().String())
+	return net.ParseIP(host).IsLoopback()
+}
-- 
2.43.0


From 0890a6b78638489af5a717c7617c03915d0850c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:51 +0000
Subject: [PATCH 19/48] fix: do not let unauthenticated clients search the
 database

The boltdb handler refused anonymous binds but answered searches on
connections that never did a bind, including the password hashes.
---
 server/handler/boltdb/handler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/handler/boltdb/handler.go b/server/handler/boltdb/handler.go
index a98b5df..f9497d8 100644
--- a/server/handler/boltdb/handler.go
+++ b/server/handler/boltdb/handler.go
@@ -294,6 +294,13 @@ func (h *boltdbHandler) Search(boundDN string, req *ldap.SearchRequest, conn net
 		"attrs":  req.Attributes,
 	})
 
+	if boundDN == "" && !h.anonymousAllowed(conn) {
+		logger.Debugln("ldap anonymous search not allowed")
+		return ldapserver.ServerSearchResult{
+			ResultCode: ldap.LDAPResultInsufficientAccessRights,
+		}, nil
+	}
+
 	logger.Debug("Calling boltdb search")
 	entries, _ := h.bdb.Search(req.BaseDN, req.Scope)
 	logger.Debugf("boltdb search returned %d entries", len(entries))
-- 
2.43.0


From 2337d610ed7233c10120e000dc35faf0d152fc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:10 +0000
Subject: [PATCH 20/48] fix: do not crash on malformed stored passwords

An empty value, a crypt value without salt and a salted hash shorter than
its salt led to an index out of range.
---
 pkg/ldappassword/ldappassword.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index d4c801c..551a42f 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -21,6 +21,9 @@ import (
 var Argon2DefaultParams = argon2id.DefaultParams
 
 func Validate(password string, hash string) (bool, error) {
+	if hash == "" {
+		return false, fmt.Errorf("no password set")
+	}
 	algorithm := ""
 	if hash[0] == '{' {
 		algorithmEnd := strings.Index(hash[0:], "}")
@@ -52,6 +55,9 @@ func Validate(password string, hash string) (bool, error) {
 
 	case "{CRYPT}":
 		// By default the salt is a two character string.
+		if len(hash) < 2 {
+			return false, fmt.Errorf("crypt error: invalid hash")
+		}
 		salt := hash[:2]
 		if hash[0] == '$' {
 			// In the glibc2 version, salt format for additional encryption
@@ -74,6 +80,9 @@ func Validate(password string, hash string) (bool, error) {
 		if err != nil {
 			return false, fmt.Errorf("ssha error: %w", err)
 		}
+		if len(decodedBytes) < 4 {
+			return false, fmt.Errorf("ssha error: invalid hash")
+		}
 		salt := decodedBytes[len(decodedBytes)-4:]
 		h := sha1.New() //nolint,gosec
 		h.Write([]byte(password))
-- 
2.43.0


From 095995334cd44f6860ca059987aba92403abf895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:10 +0000
Subject: [PATCH 21/48] fix: reject passwords with a zero byte for crypt values

crypt takes a C string, so everything after a zero byte was ignored and
the right password followed by a zero byte and anything else matched.
---
 pkg/ldappassword/ldappassword.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index 551a42f..6e25d51 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -58,6 +58,10 @@ func Validate(password string, hash string) (bool, error) {
 		if len(hash) < 2 {
 			return false, fmt.Errorf("crypt error: invalid hash")
 		}
+		if strings.IndexByte(password, 0) >= 0 {
+			// crypt would ignore everything from there on.
+			return false, fmt.Errorf("invalid credentials")
+		}
 		salt := hash[:2]
 		if hash[0] == '$' {
 			// In the glibc2 version, salt format for additional encryption
-- 
2.43.0


From 007fa4f5551822a1c0996a8f181ec623b2fd9ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:39 +0000
Subject: [PATCH 22/48] fix: do not crash on add, delete and rename of the
 empty name

The empty string is a valid name without any component. Taking its parent
or its first component led to an index out of range, as did an empty new
name in a rename request.
---
 pkg/ldbbolt/ldbbolt.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 2d6f554..f93b429 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -180,7 +180,13 @@ func (bdb *LdbBolt) EntryPut(e *ldap.Entry) error {
 		panic(err)
 	}
 
-	dn, _ := ldap.ParseDN(e.DN)
+	dn, err := ldap.ParseDN(e.DN)
+	if err != nil {
+		return err
+	}
+	if len(dn.RDNs) == 0 {
+		return fmt.Errorf("'%s' is not a descendant of '%s'", e.DN, bdb.base)
+	}
 	parentDN := &ldap.DN{
 		RDNs: dn.RDNs[1:],
 	}
@@ -191,7 +197,7 @@ func (bdb *LdbBolt) EntryPut(e *ldap.Entry) error {
 	}
 
 	nParentDN := ldapdn.Normalize(parentDN)
-	err := bdb.db.Update(func(tx *bolt.Tx) error {
+	err = bdb.db.Update(func(tx *bolt.Tx) error {
 		id2entry := tx.Bucket([]byte("id2entry"))
 		id := bdb.getIDByDN(tx, nDN)
 		if id != 0 {
@@ -224,6 +230,9 @@ func (bdb *LdbBolt) EntryDelete(dn string) error {
 	if err != nil {
 		return err
 	}
+	if len(parsed.RDNs) == 0 {
+		return ErrEntryNotFound
+	}
 	pparentDN := &ldap.DN{
 		RDNs: parsed.RDNs[1:],
 	}
@@ -322,6 +331,13 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		return err
 	}
 
+	if len(olddn.RDNs) == 0 {
+		return ErrEntryNotFound
+	}
+	if len(newrdn.RDNs) == 0 {
+		return ldap.NewError(ldap.LDAPResultInvalidDNSyntax, errors.New("new RDN is empty"))
+	}
+
 	var newDN ldap.DN
 
 	newDN.RDNs = []*ldap.RelativeDN{newrdn.RDNs[0]}
-- 
2.43.0


From b196a4789d5e0e79a9ac9009ffc887b334688562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:39 +0000
Subject: [PATCH 23/48] fix: refuse to rename to a name with several components

Everything after the first component was silently dropped, so the entry
got another name than the one requested.
---
 pkg/ldbbolt/ldbbolt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index f93b429..f2e902d 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -334,8 +334,8 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 	if len(olddn.RDNs) == 0 {
 		return ErrEntryNotFound
 	}
-	if len(newrdn.RDNs) == 0 {
-		return ldap.NewError(ldap.LDAPResultInvalidDNSyntax, errors.New("new RDN is empty"))
+	if len(newrdn.RDNs) != 1 {
+		return ldap.NewError(ldap.LDAPResultInvalidDNSyntax, errors.New("new RDN must have exactly one component"))
 	}
 
 	var newDN ldap.DN
-- 
2.43.0


From 655a2928415adf79d8c10ae9ac0a5683be272540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:41 +0000
Subject: [PATCH 24/48] fix: refuse to rename the base entry of the database

A renamed base entry lies outside of the tree of the database: it was no
longer found, and nothing could be added any more.
---
 pkg/ldbbolt/ldbbolt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index f2e902d..5200e1a 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -347,6 +347,11 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		flatNewDN := ldapdn.Normalize(&newDN)
 		flatOldDN := ldapdn.Normalize(olddn)
 
+		// the base entry has to stay where it is
+		if flatOldDN == bdb.base {
+			return ldap.NewError(ldap.LDAPResultUnwillingToPerform, errors.New("cannot rename the base entry"))
+		}
+
 		// error out if there is an entry with the new name already
 		if id := bdb.getIDByDN(tx, flatNewDN); id != 0 {
 			return ErrEntryAlreadyExists
-- 
2.43.0


From 3c1c0da636fed01a6e969cd06d6227c88957ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:48 +0000
Subject: [PATCH 25/48] fix: do not crash on malformed controls

Decoding a control of an unexpected structure panics, which ended the
whole server. Such controls are ignored now like other undecodable ones.
---
 pkg/ldapserver/server.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index 0bf81c9..cccc2f2 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -8,6 +8,7 @@ package ldapserver
 import (
 	"crypto/tls"
 	"errors"
+	"fmt"
 	"io"
 	"log"
 	"net"
@@ -210,6 +211,17 @@ listener:
 	return nil
 }
 
+// decodeControl decodes a control of a request. Malformed controls make
+// ldap.DecodeControl panic.
+func decodeControl(packet *ber.Packet) (control ldap.Control, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			control, err = nil, fmt.Errorf("malformed control: %v", r)
+		}
+	}()
+	return ldap.DecodeControl(packet)
+}
+
 func (server *Server) handleConnection(conn net.Conn) {
 	boundDN := "" // "" == anonymous
 
@@ -244,7 +256,7 @@ handler:
 		controls := []ldap.Control{}
 		if len(packet.Children) > 2 {
 			for _, child := range packet.Children[2].Children {
-				c, err := ldap.DecodeControl(child)
+				c, err := decodeControl(child)
 				if err != nil {
 					logger.Error(err, "handleConnection decode control")
 					continue
-- 
2.43.0


From 09b1d7b69ea354e05f3f4762003b5dc63764aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:24 +0000
Subject: [PATCH 26/48] fix: refuse password changes with a body that cannot be
 decoded

A password change whose body was cut off or was something else than a
sequence was taken as the request to generate a new password for the
own entry.
---
 pkg/ldapserver/pwmodifyexop.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/ldapserver/pwmodifyexop.go b/pkg/ldapserver/pwmodifyexop.go
index da052c1..20a3256 100644
--- a/pkg/ldapserver/pwmodifyexop.go
+++ b/pkg/ldapserver/pwmodifyexop.go
@@ -87,16 +87,16 @@ func parsePasswordModifyExop(req *ber.Packet) (*ldap.PasswordModifyRequest, erro
 
 	// An absent (or empty) body of the request is valid. Translates into: "generate a new password for
 	// for the current user"
-	if req == nil {
+	if req == nil || req.Data == nil || req.Data.Len() == 0 {
 		return &pwReq, nil
 	}
 
-	inner := ber.DecodePacket(req.Data.Bytes())
-	if inner == nil {
-		return &pwReq, nil
+	inner, err := ber.DecodePacketErr(req.Data.Bytes())
+	if err != nil {
+		return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid request"))
 	}
 
-	if len(inner.Children) > 3 {
+	if inner.ClassType != ber.ClassUniversal || inner.TagType != ber.TypeConstructed || inner.Tag != ber.TagSequence || len(inner.Children) > 3 {
 		return nil, ldap.NewError(ldap.LDAPResultDecodingError, errors.New("invalid request"))
 	}
 
-- 
2.43.0


From a9f132b73d3f9f662ed1d374e00049e728670512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:32 +0000
Subject: [PATCH 27/48] fix: do not crash on argon2 values with invalid
 parameters

The hash function panics if a stored value has no iterations, threads or
key.
---
 pkg/ldappassword/ldappassword.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/ldappassword/ldappassword.go b/pkg/ldappassword/ldappassword.go
index 6e25d51..b925670 100644
--- a/pkg/ldappassword/ldappassword.go
+++ b/pkg/ldappassword/ldappassword.go
@@ -44,6 +44,13 @@ func Validate(password string, hash string) (bool, error) {
 	case "{ARGON2}":
 		// Follows the format used by the Argon2 reference C implementation and looks like this:
 		// $argon2id$v=19$m=65536,t=3,p=2$c29tZXNhbHQ$RdescudvJCsgt3ub+b+dWRWJTmaaJObG
+		params, _, _, err := argon2id.DecodeHash(hash)
+		if err != nil {
+			return false, fmt.Errorf("argon2 error: %w", err)
+		}
+		if params.Iterations < 1 || params.Parallelism < 1 || params.KeyLength < 1 {
+			return false, fmt.Errorf("argon2 error: invalid parameters")
+		}
 		match, err := argon2id.ComparePasswordAndHash(password, hash)
 		if err != nil {
 			return false, fmt.Errorf("argon2 error: %w", err)
-- 
2.43.0


From b433211507208b3f24e28a96a39ead2dc670a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:23 +0000
Subject: [PATCH 28/48] fix: do not crash on binds as an LDIF entry without
 password

---
 server/handler/ldif/entry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/handler/ldif/entry.go b/server/handler/ldif/entry.go
index 150bf61..38f7763 100644
--- a/server/handler/ldif/entry.go
+++ b/server/handler/ldif/entry.go
@@ -20,6 +20,9 @@ type ldifEntry struct {
 }
 
 func (entry *ldifEntry) validatePassword(bindSimplePw string) error {
+	if entry.UserPassword == nil || len(entry.UserPassword.Values) == 0 {
+		return fmt.Errorf("no password set")
+	}
 	match, err := ldappassword.Validate(bindSimplePw, entry.UserPassword.Values[0])
 	if err != nil {
 		return err
-- 
2.43.0


From f87a90d85f8dc597de0160b052c2af237502016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:26 +0000
Subject: [PATCH 29/48] fix: accept every password of an LDIF entry

Only the first of several password values was compared.
---
 server/handler/ldif/entry.go | 17 ++++++++++-------
 server/handler/ldif/ldif.go  |  8 +++++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/server/handler/ldif/entry.go b/server/handler/ldif/entry.go
index 38f7763..1eaa402 100644
--- a/server/handler/ldif/entry.go
+++ b/server/handler/ldif/entry.go
@@ -23,12 +23,15 @@ func (entry *ldifEntry) validatePassword(bindSimplePw string) error {
 	if entry.UserPassword == nil || len(entry.UserPassword.Values) == 0 {
 		return fmt.Errorf("no password set")
 	}
-	match, err := ldappassword.Validate(bindSimplePw, entry.UserPassword.Values[0])
-	if err != nil {
-		return err
+	err := fmt.Errorf("password mismatch")
+	for _, value := range entry.UserPassword.Values {
+		match, validateErr := ldappassword.Validate(bindSimplePw, value)
+		if validateErr == nil && match {
+			return nil
+		}
+		if validateErr != nil {
+			err = validateErr
+		}
 	}
-	if !match {
-		return fmt.Errorf("password mismatch")
-	}
-	return nil
+	return err
 }
diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 1a77222..9f5f4a1 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -160,10 +160,12 @@ func treeFromLDIF(l *ldif.LDIF, index Index, options *Options) (*suffix.Tree, er
 			switch strings.ToLower(a.Name) {
 			case "userpassword":
 				// Don't include the password in the normal attributes.
-				e.UserPassword = &ldap.EntryAttribute{
-					Name:   a.Name,
-					Values: a.Values,
+				if e.UserPassword == nil {
+					e.UserPassword = &ldap.EntryAttribute{
+						Name: a.Name,
+					}
 				}
+				e.UserPassword.Values = append(e.UserPassword.Values, a.Values...)
 			default:
 				// Append it.
 				e.Entry.Attributes = append(e.Entry.Attributes, &ldap.EntryAttribute{
-- 
2.43.0


From 1fc987a5bd3709605e9537a7e7eb7a9532edf92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:57 +0000
Subject: [PATCH 30/48] fix: compare whole name components with the base of an
 LDIF directory

A name such as "cn=a,xo=b" was taken to be below "o=b".
---
 server/handler/ldif/handler.go    | 17 +++++++++++++++--
 server/handler/ldif/middleware.go |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index d93dc27..90157de 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -250,7 +250,7 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 
 	indexFilter, _ := parseFilterToIndexFilter(searchReq.Filter)
 
-	if !strings.HasSuffix(searchBaseDN, h.baseDN) {
+	if !inBaseDN(searchBaseDN, h.baseDN) {
 		err := fmt.Errorf("ldap search BaseDN is not in our BaseDN %s", h.baseDN)
 		return ldapserver.ServerSearchResult{
 			ResultCode: ldap.LDAPResultInsufficientAccessRights,
@@ -496,12 +496,25 @@ func (h *ldifHandler) validateBindDN(bindDN string, conn net.Conn) error {
 		return fmt.Errorf("anonymous BindDN not allowed")
 	}
 
-	if strings.HasSuffix(bindDN, h.baseDN) {
+	if inBaseDN(bindDN, h.baseDN) {
 		return nil
 	}
 	return fmt.Errorf("the BindDN is not in our BaseDN: %s", h.baseDN)
 }
 
+// inBaseDN returns true if the provided dn is the provided baseDN or below it.
+func inBaseDN(dn, baseDN string) bool {
+	parsedDN, err := ldap.ParseDN(dn)
+	if err != nil {
+		return false
+	}
+	parsedBaseDN, err := ldap.ParseDN(baseDN)
+	if err != nil {
+		return false
+	}
+	return parsedBaseDN.EqualFold(parsedDN) || parsedBaseDN.AncestorOfFold(parsedDN)
+}
+
 func (h *ldifHandler) Close(bindDN string, conn net.Conn) error {
 	h.logger.WithFields(logrus.Fields{
 		"bind_dn":     bindDN,
diff --git a/server/handler/ldif/middleware.go b/server/handler/ldif/middleware.go
index f314444..01dabc2 100644
--- a/server/handler/ldif/middleware.go
+++ b/server/handler/ldif/middleware.go
@@ -148,7 +148,7 @@ func (h *ldifMiddleware) Bind(bindDN, bindSimplePw string, conn net.Conn) (resul
 			"remote_addr": conn.RemoteAddr().String(),
 		})
 
-		if !strings.HasSuffix(bindDN, h.baseDN) {
+		if !inBaseDN(bindDN, h.baseDN) {
 			err := fmt.Errorf("the BindDN is not in our BaseDN %s", h.baseDN)
 			logger.WithError(err).Infoln("ldap bind error")
 			return ldap.LDAPResultInvalidCredentials, nil
-- 
2.43.0


From 1e00bfbd5a868873606523367e596e0f19f71e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:10 +0000
Subject: [PATCH 31/48] fix: ignore letter case in the substring index of LDIF
 directories

---
 server/handler/ldif/index.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/server/handler/ldif/index.go b/server/handler/ldif/index.go
index 42c20fc..230381e 100644
--- a/server/handler/ldif/index.go
+++ b/server/handler/ldif/index.go
@@ -12,6 +12,7 @@ import (
 	"github.com/armon/go-radix"
 	"github.com/libregraph/idm/pkg/ldapserver"
 	"github.com/spacewander/go-suffix-tree"
+	"golang.org/x/text/cases"
 )
 
 var indexAttributes = map[string]string{
@@ -52,6 +53,12 @@ type Index interface {
 	Load(name, op string, params ...string) ([]*ldifEntry, bool)
 }
 
+// foldValue returns the provided value in the form used as index key, so that
+// values which only differ in letter case share their key.
+func foldValue(value string) string {
+	return cases.Fold().String(value)
+}
+
 type indexMap map[string][]*ldifEntry
 
 func newIndexMap() indexMap {
@@ -60,14 +67,14 @@ func newIndexMap() indexMap {
 
 func (im indexMap) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		value = strings.ToLower(value)
+		value = foldValue(value)
 		im[value] = append(im[value], entry)
 	}
 	return true
 }
 
 func (im indexMap) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
-	entries := im[strings.ToLower(value[0])]
+	entries := im[foldValue(value[0])]
 	return entries, true
 }
 
@@ -83,7 +90,7 @@ func newIndexSuffixTree() *indexSuffixTree {
 
 func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		sfx := []byte(value)
+		sfx := []byte(foldValue(value))
 		var entries []*ldifEntry
 		if v, ok := ist.t.Get(sfx); ok {
 			entries = v.([]*ldifEntry)
@@ -96,7 +103,7 @@ func (ist indexSuffixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (ist indexSuffixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	sfx := []byte(value[0])
+	sfx := []byte(foldValue(value[0]))
 	ist.t.WalkSuffix(sfx, func(key []byte, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
@@ -116,7 +123,7 @@ func newIndexRadixTree() *indexRadixTree {
 
 func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntry) bool {
 	for _, value := range values {
-		pfx := value
+		pfx := foldValue(value)
 		var entries []*ldifEntry
 		if v, ok := irt.t.Get(pfx); ok {
 			entries = v.([]*ldifEntry)
@@ -129,7 +136,7 @@ func (irt *indexRadixTree) Add(name, op string, values []string, entry *ldifEntr
 
 func (irt *indexRadixTree) Load(name, op string, value ...string) ([]*ldifEntry, bool) {
 	var entries []*ldifEntry
-	pfx := value[0]
+	pfx := foldValue(value[0])
 	irt.t.WalkPrefix(pfx, func(key string, value interface{}) bool {
 		entries = append(entries, value.([]*ldifEntry)...)
 		return false
-- 
2.43.0


From c2c532847dfa76b31e4419bf3605161aaecb4f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:00 +0000
Subject: [PATCH 32/48] fix: find every alternative of a filter in the index of
 LDIF directories

---
 server/handler/ldif/filter.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/server/handler/ldif/filter.go b/server/handler/ldif/filter.go
index cf32e50..7966d9e 100644
--- a/server/handler/ldif/filter.go
+++ b/server/handler/ldif/filter.go
@@ -41,7 +41,8 @@ func parseFilterToIndexFilter(filter string) ([][]string, error) {
 			}
 		}
 		for _, f := range matches {
-			if !withObjectClass && strings.EqualFold("objectClass", f[1]) {
+			// Alternatives (below an "or") are required, whatever they are.
+			if !withObjectClass && strings.EqualFold("objectClass", f[1]) && !strings.Contains(f[0], "|") {
 				continue
 			}
 			result = append(result, f[1:])
@@ -96,12 +97,19 @@ func parseFilterMatchLeavesForIndex(f *ber.Packet, parent [][]string, level stri
 		}
 
 	case ldapserver.FilterOr:
+		var alternatives [][]string
 		for idx, child := range f.Children {
-			parent, err = parseFilterMatchLeavesForIndex(child, parent, fmt.Sprintf("%s.|%d", level, idx))
+			matches, err := parseFilterMatchLeavesForIndex(child, nil, fmt.Sprintf("%s.|%d", level, idx))
 			if err != nil {
 				return nil, err
 			}
+			if len(matches) == 0 {
+				// No index for this alternative, so the others are not enough.
+				return parent, nil
+			}
+			alternatives = append(alternatives, matches...)
 		}
+		parent = append(parent, alternatives...)
 
 	case ldapserver.FilterNot:
 		// Ignored for now.
-- 
2.43.0


From 7ac732ee05b22404a9922a4bf5b7c607979337b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:33 +0000
Subject: [PATCH 33/48] fix: report exceeded size limits of searches in LDIF
 directories

---
 server/handler/ldif/handler.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index 90157de..09c8ce9 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -359,6 +359,12 @@ results:
 					continue
 				}
 
+				if searchReq.SizeLimit > 0 && count >= uint32(searchReq.SizeLimit) {
+					// TODO(longsleep): handle total sizelimit for paging.
+					resultCode = ldap.LDAPResultSizeLimitExceeded
+					break results
+				}
+
 				// Make a copy, before filtering attributes.
 				e := &ldap.Entry{
 					DN:         entry.DN,
@@ -384,10 +390,6 @@ results:
 						break results
 					}
 				}
-				if searchReq.SizeLimit > 0 && count >= uint32(searchReq.SizeLimit) {
-					// TODO(longsleep): handle total sizelimit for paging.
-					break results
-				}
 			}
 		}
 	}
@@ -403,7 +405,7 @@ results:
 		Entries:    entries,
 		Referrals:  []string{},
 		Controls:   doneControls,
-		ResultCode: ldap.LDAPResultSuccess,
+		ResultCode: resultCode,
 	}, nil
 }
 
-- 
2.43.0


From f6eaa90207530ace6a5c49ee8e64487649409eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:20 +0000
Subject: [PATCH 34/48] fix: end paged searches in LDIF directories with an
 answer

---
 server/handler/ldif/handler.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/server/handler/ldif/handler.go b/server/handler/ldif/handler.go
index 09c8ce9..87ab243 100644
--- a/server/handler/ldif/handler.go
+++ b/server/handler/ldif/handler.go
@@ -294,6 +294,10 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 					logger.WithField("paging_cookie", string(pagingControl.Cookie)).Debugln("search paging pump abandon")
 					// TODO(longsleep): Cancel paging pump context.
 					h.activeSearchPagings.Remove(string(pagingControl.Cookie))
+					// Nothing to read, the search is done.
+					done := make(chan *ldifEntry, 1)
+					done <- nil
+					pumpCh = done
 				}
 			}
 		} else {
@@ -321,6 +325,7 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 	}
 
 	var entryRecord *ldifEntry
+	var ok bool
 	var entries []*ldap.Entry
 	var entry *ldap.Entry
 	var count uint32
@@ -328,8 +333,13 @@ func (h *ldifHandler) Search(bindDN string, searchReq *ldap.SearchRequest, conn
 results:
 	for {
 		select {
-		case entryRecord = <-pumpCh:
-			if entryRecord == nil {
+		case entryRecord, ok = <-pumpCh:
+			if !ok {
+				// Pump ended early, entries are missing.
+				return ldapserver.ServerSearchResult{
+					ResultCode: ldap.LDAPResultUnwillingToPerform,
+				}, errors.New("search pump ended")
+			} else if entryRecord == nil {
 				// All done, set cookie to empty.
 				pagingCookie = []byte{}
 				break results
@@ -444,6 +454,7 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 	searchBaseDN := strings.ToLower(searchReq.BaseDN)
 
 	load := true
+	completed := true
 	if len(indexFilter) > 0 {
 		// Get entries with help of index.
 		load = false
@@ -478,12 +489,14 @@ func (h *ldifHandler) searchEntriesPump(ctx context.Context, current *ldifMemory
 		// Walk through all entries (this is slow).
 		h.logger.WithField("filter", searchReq.Filter).Warnln("ldap search filter does not match any index, using slow walk")
 		current.t.WalkSuffix([]byte(searchBaseDN), func(key []byte, entryRecord interface{}) bool {
-			if ok := pump(entryRecord.(*ldifEntry)); !ok {
-				return true
-			}
-			return false
+			completed = pump(entryRecord.(*ldifEntry))
+			return !completed
 		})
 	}
+	if completed {
+		// Mark the end, the last page might have been exactly full.
+		pump(nil)
+	}
 }
 
 func (h *ldifHandler) validateBindDN(bindDN string, conn net.Conn) error {
-- 
2.43.0


From d7998ab99b35e32c67984a534442c1270d1ce520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:32 +0000
Subject: [PATCH 35/48] fix: ignore continued comments in LDIF templates

---
 server/handler/ldif/ldif.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 9f5f4a1..36aa7b2 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -98,12 +98,19 @@ func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{})
 	scanner := bufio.NewScanner(r)
 	scanner.Split(bufio.ScanLines)
 	var text []string
+	var isComment bool
 	for scanner.Scan() {
 		t := scanner.Text()
 		if t != "" && t[0] == '#' {
 			// Ignore commented lines.
+			isComment = true
 			continue
 		}
+		if isComment && t != "" && t[0] == ' ' {
+			// Ignore continuations of commented lines.
+			continue
+		}
+		isComment = false
 		text = append(text, scanner.Text())
 	}
 
-- 
2.43.0


From 5bf05b33b17cddf4fbf669aad8dec93aab37a963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:38 +0000
Subject: [PATCH 36/48] fix: load LDIF files with long lines completely

---
 server/handler/ldif/ldif.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/handler/ldif/ldif.go b/server/handler/ldif/ldif.go
index 36aa7b2..e3f8632 100644
--- a/server/handler/ldif/ldif.go
+++ b/server/handler/ldif/ldif.go
@@ -10,6 +10,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -96,6 +97,7 @@ func parseLDIFDirectory(pn string, options *Options) (*ldif.LDIF, []error, error
 // result as LDIF.
 func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{}) (io.Reader, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt) // There is no limit for the length of lines.
 	scanner.Split(bufio.ScanLines)
 	var text []string
 	var isComment bool
@@ -113,6 +115,9 @@ func parseLDIFTemplate(r io.Reader, options *Options, m map[string]interface{})
 		isComment = false
 		text = append(text, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read LDIF template: %w", err)
+	}
 
 	if m == nil {
 		m = make(map[string]interface{})
-- 
2.43.0


From 3dc859291b86c3cf9e8407bd2c82a46a289faf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:32 +0000
Subject: [PATCH 37/48] fix: include files in LDIF templates completely

---
 server/handler/ldif/template.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/handler/ldif/template.go b/server/handler/ldif/template.go
index 846ffb1..75c098f 100644
--- a/server/handler/ldif/template.go
+++ b/server/handler/ldif/template.go
@@ -112,6 +112,10 @@ func TemplateFuncs(m map[string]interface{}, options *Options) template.FuncMap
 			if n > formatAsFileSizeLimit {
 				return "", fmt.Errorf("LDIF template formatAsFile size limit exceeded: %s", fn)
 			}
+			// Write the last, incomplete block.
+			if err := encoder.Close(); err != nil {
+				return "", fmt.Errorf("LDIF template formatAsFile error: %w", err)
+			}
 
 			return buf.String(), nil
 		},
-- 
2.43.0


From b4559fada137b91f63241e5ba796e6e82ec8671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:46 +0000
Subject: [PATCH 38/48] fix: keep the LDIF configuration when reloading the
 directory fails

---
 server/handler/ldif/middleware.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/server/handler/ldif/middleware.go b/server/handler/ldif/middleware.go
index 01dabc2..de1e7ae 100644
--- a/server/handler/ldif/middleware.go
+++ b/server/handler/ldif/middleware.go
@@ -57,35 +57,35 @@ func NewLDIFMiddleware(logger logrus.FieldLogger, fn string, options *Options) (
 		baseDN: strings.ToLower(options.BaseDN),
 	}
 
-	err = h.open()
+	value, err := h.open()
 	if err != nil {
 		return nil, err
 	}
+	h.current.Store(value)
 
 	return h, nil
 }
 
-func (h *ldifMiddleware) open() error {
+func (h *ldifMiddleware) open() (*ldifMemoryValue, error) {
 	if !strings.EqualFold(h.options.BaseDN, h.baseDN) {
-		return fmt.Errorf("mismatched BaseDN")
+		return nil, fmt.Errorf("mismatched BaseDN")
 	}
 
 	h.logger.Debugln("loading LDIF")
 	l, err := parseLDIFFile(h.fn, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
 	t, err := treeFromLDIF(l, nil, h.options)
 	if err != nil {
-		return err
+		return nil, err
 	}
 
-	// Store parsed data as memory value.
+	// Provide parsed data as memory value.
 	value := &ldifMemoryValue{
 		t: t,
 	}
-	h.current.Store(value)
 
 	h.logger.WithFields(logrus.Fields{
 		"version":       l.Version,
@@ -94,7 +94,7 @@ func (h *ldifMiddleware) open() error {
 		"base_dn":       h.options.BaseDN,
 	}).Debugln("loaded LDIF")
 
-	return nil
+	return value, nil
 }
 
 func (h *ldifMiddleware) load() *ldifMemoryValue {
@@ -120,12 +120,20 @@ func (h *ldifMiddleware) WithContext(ctx context.Context) handler.Handler {
 }
 
 func (h *ldifMiddleware) Reload(ctx context.Context) error {
-	err := h.open()
+	value, err := h.open()
 	if err != nil {
 		return err
 	}
 
-	return h.next.Reload(ctx)
+	err = h.next.Reload(ctx)
+	if err != nil {
+		return err
+	}
+
+	// Everything is loaded, replace the configuration as well.
+	h.current.Store(value)
+
+	return nil
 }
 
 func (h *ldifMiddleware) Add(_ string, _ *ldap.AddRequest, _ net.Conn) (ldapserver.LDAPResultCode, error) {
-- 
2.43.0


From 4335ace893907924a2eb28600493b7c2cb4ab43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:35 +0000
Subject: [PATCH 39/48] fix: refuse user lists with lines of five or six fields

The command ended with an index out of range error for such lines.
---
 cmd/idmd/gen/newusers/newusers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 4c0f135..08c3d8d 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -154,7 +154,7 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 
 		// pw_name:pw_passwd:pw_uid:pw_gid:pw_gecos:pw_dir:pw_shell
 		parts := strings.Split(line, ":")
-		if len(parts) < 5 {
+		if len(parts) < 7 {
 			return nil, fmt.Errorf("not enough fields in line %d", count)
 		}
 		e := &entry{
-- 
2.43.0


From b226f130b635765e10e29f773256236210c47d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:35 +0000
Subject: [PATCH 40/48] fix: report user lists that cannot be read completely

A line too long for the scanner ended the list silently, so that this and
all following users were missing in the output.
---
 cmd/idmd/gen/newusers/newusers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index 08c3d8d..b383454 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -179,6 +179,9 @@ func parsePasswdFile(r io.Reader) ([]*entry, error) {
 		results = append(results, e)
 
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read line %d: %w", count+1, err)
+	}
 
 	return results, nil
 }
-- 
2.43.0


From a8dcbcc2d526d3fe582f4b63198964b100a0fa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:35 +0000
Subject: [PATCH 41/48] fix: keep user and group number zero of user lists

The template took zero for a missing number. The user number was replaced by
an automatic one that could also be given to another user, and the group
number was omitted.
---
 cmd/idmd/gen/newusers/newusers.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/idmd/gen/newusers/newusers.go b/cmd/idmd/gen/newusers/newusers.go
index b383454..87ea485 100644
--- a/cmd/idmd/gen/newusers/newusers.go
+++ b/cmd/idmd/gen/newusers/newusers.go
@@ -38,10 +38,8 @@ objectClass: posixAccount
 objectClass: top
 objectClass: inetOrgPerson
 uid: <<.entry.Name>>
-uidNumber: <<with .detail.uidNumber>><<.>><<else>><<AutoIncrement>><<end>>
-<<- with .detail.gidNumber>>
-gidNumber: <<.>>
-<<- end>>
+uidNumber: <<.detail.uidNumber>>
+gidNumber: <<.detail.gidNumber>>
 <<- with .detail.userPassword>>
 userPassword: <<.>>
 <<- end>>
-- 
2.43.0


From 7328ded02c7c43b34cd4d2edc0fae64de53c14a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:51 +0000
Subject: [PATCH 42/48] fix: export values that start with a space

They were written literally, and reading the LDIF drops spaces in front of a
value. Such values, passwords for example, were different after loading the
exported directory again.
---
 cmd/idmd/boltdb/export/export.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/cmd/idmd/boltdb/export/export.go b/cmd/idmd/boltdb/export/export.go
index 773da03..710f79a 100644
--- a/cmd/idmd/boltdb/export/export.go
+++ b/cmd/idmd/boltdb/export/export.go
@@ -6,8 +6,10 @@
 package export
 
 import (
+	"encoding/base64"
 	"fmt"
 	"os"
+	"strings"
 
 	"github.com/go-ldap/ldap/v3"
 	"github.com/go-ldap/ldif"
@@ -59,6 +61,9 @@ func (l *LDIFExporter) Export() error {
 		return err
 	}
 
+	for _, entry := range entries {
+		encodeEntry(entry)
+	}
 	ld, err := ldif.ToLDIF(entries)
 	if err != nil {
 		l.logger.Error(err)
@@ -74,3 +79,21 @@ func (l *LDIFExporter) Export() error {
 	fmt.Print(output)
 	return nil
 }
+
+// encodeEntry encodes what LDIF can not represent literally, but ldif.Marshal
+// would write like that: values starting with a space.
+func encodeEntry(entry *ldap.Entry) {
+	var attributes []*ldap.EntryAttribute
+	for _, attr := range entry.Attributes {
+		for _, value := range attr.Values {
+			name := attr.Name
+			if strings.HasPrefix(value, " ") {
+				// An additional colon marks encoded values.
+				name += ":"
+				value = base64.StdEncoding.EncodeToString([]byte(value))
+			}
+			attributes = append(attributes, &ldap.EntryAttribute{Name: name, Values: []string{value}})
+		}
+	}
+	entry.Attributes = attributes
+}
-- 
2.43.0


From 8a91c7eafc00ee30d84dbbfd49b1965bc7a9e941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:51 +0000
Subject: [PATCH 43/48] fix: export names with control characters

A line break in a name was written literally and the exported directory could
not be loaded again.
---
 cmd/idmd/boltdb/export/export.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmd/idmd/boltdb/export/export.go b/cmd/idmd/boltdb/export/export.go
index 710f79a..5ba2581 100644
--- a/cmd/idmd/boltdb/export/export.go
+++ b/cmd/idmd/boltdb/export/export.go
@@ -81,8 +81,19 @@ func (l *LDIFExporter) Export() error {
 }
 
 // encodeEntry encodes what LDIF can not represent literally, but ldif.Marshal
-// would write like that: values starting with a space.
+// would write like that: values starting with a space and control characters
+// in the name.
 func encodeEntry(entry *ldap.Entry) {
+	var dn strings.Builder
+	for i := 0; i < len(entry.DN); i++ {
+		if c := entry.DN[i]; c < ' ' || c == 0x7f {
+			fmt.Fprintf(&dn, "\\%02x", c)
+		} else {
+			dn.WriteByte(c)
+		}
+	}
+	entry.DN = dn.String()
+
 	var attributes []*ldap.EntryAttribute
 	for _, attr := range entry.Attributes {
 		for _, value := range attr.Values {
-- 
2.43.0


From 5ba9a71a459bc57423110ad5932c94d64fdb8f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:24 +0000
Subject: [PATCH 44/48] fix: print password values with percent signs unchanged

---
 cmd/idmd/gen/passwd/passwd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/idmd/gen/passwd/passwd.go b/cmd/idmd/gen/passwd/passwd.go
index 1499a63..6a93cfc 100644
--- a/cmd/idmd/gen/passwd/passwd.go
+++ b/cmd/idmd/gen/passwd/passwd.go
@@ -141,7 +141,7 @@ func passwd(cmd *cobra.Command, args []string) error {
 		return err
 	}
 
-	fmt.Fprintf(os.Stdout, hash)
+	fmt.Fprint(os.Stdout, hash)
 	if !OmitTrailingNewline {
 		fmt.Fprintf(os.Stdout, "\n")
 	}
-- 
2.43.0


From 11c0c3b7ed5598270117176c55afd09cec258e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:24 +0000
Subject: [PATCH 45/48] fix: report a secret file that cannot be read instead
 of asking for a secret

---
 cmd/idmd/gen/passwd/passwd.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/idmd/gen/passwd/passwd.go b/cmd/idmd/gen/passwd/passwd.go
index 6a93cfc..e77639d 100644
--- a/cmd/idmd/gen/passwd/passwd.go
+++ b/cmd/idmd/gen/passwd/passwd.go
@@ -107,6 +107,8 @@ func passwd(cmd *cobra.Command, args []string) error {
 	}()
 	if exclusive > 1 {
 		return fmt.Errorf("-s -g and -T are mutually exclusive")
+	} else if err != nil {
+		return err
 	} else if exclusive == 0 {
 		secret, err = promptForPassword()
 		if err != nil {
-- 
2.43.0


From b9138417dd72feb809105f114510f0f5caa42525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:24 +0000
Subject: [PATCH 46/48] fix: keep accepting connections after one could not be
 accepted

---
 pkg/ldapserver/server.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/ldapserver/server.go b/pkg/ldapserver/server.go
index cccc2f2..8a331e6 100644
--- a/pkg/ldapserver/server.go
+++ b/pkg/ldapserver/server.go
@@ -13,6 +13,7 @@ import (
 	"log"
 	"net"
 	"strings"
+	"time"
 
 	ber "github.com/go-asn1-ber/asn1-ber"
 	"github.com/go-ldap/ldap/v3"
@@ -187,10 +188,16 @@ func (server *Server) Serve(ln net.Listener) error {
 		for {
 			conn, err := ln.Accept()
 			if err != nil {
-				if !strings.HasSuffix(err.Error(), "use of closed network connection") {
-					logger.Error(err, "Error accepting network connection")
+				if strings.HasSuffix(err.Error(), "use of closed network connection") {
+					break
 				}
-				break
+				logger.Error(err, "Error accepting network connection")
+				select {
+				case <-server.Quit:
+					return
+				case <-time.After(100 * time.Millisecond):
+				}
+				continue
 			}
 			logger.V(1).Info("New Connection", "addr", ln.Addr())
 			newConn <- conn
-- 
2.43.0


From 8ffe8c262c94984e46407f5ae27ed1ac66beb93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:24 +0000
Subject: [PATCH 47/48] fix: do not lose a terminating signal that follows a
 reload signal

---
 server/server.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/server/server.go b/server/server.go
index ecbd250..0c388df 100644
--- a/server/server.go
+++ b/server/server.go
@@ -115,6 +115,7 @@ func (s *Server) Serve(ctx context.Context) error {
 	errCh := make(chan error, 2)
 	exitCh := make(chan struct{}, 1)
 	signalCh := make(chan os.Signal, 1)
+	hangupCh := make(chan os.Signal, 1)
 	readyCh := make(chan struct{}, 1)
 	triggerCh := make(chan bool, 1)
 
@@ -201,20 +202,19 @@ func (s *Server) Serve(ctx context.Context) error {
 
 	// Wait for exit or error, with support for HUP to reload
 	err = func() error {
-		signal.Notify(signalCh, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
+		signal.Notify(signalCh, syscall.SIGINT, syscall.SIGTERM)
+		signal.Notify(hangupCh, syscall.SIGHUP)
 		for {
 			select {
 			case errFromChannel := <-errCh:
 				return errFromChannel
-			case reason := <-signalCh:
-				if reason == syscall.SIGHUP {
-					logger.Infoln("reload signal received")
-					select {
-					case triggerCh <- true:
-					default:
-					}
-					continue
+			case <-hangupCh:
+				logger.Infoln("reload signal received")
+				select {
+				case triggerCh <- true:
+				default:
 				}
+			case reason := <-signalCh:
 				logger.WithField("signal", reason).Warnln("received signal")
 				return nil
 			}
-- 
2.43.0


From 0b1c0f5737a0c9970126be3f38fc35dfcdef274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:28 +0000
Subject: [PATCH 48/48] fix: keep values shared by the old and new RDN when
 renaming

Renaming an entry with deleteoldrdn was refused if the new RDN kept one of
the attribute values of the old one, since that value was removed although
it names the entry.
---
 pkg/ldbbolt/ldbbolt.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/ldbbolt/ldbbolt.go b/pkg/ldbbolt/ldbbolt.go
index 5200e1a..a37757a 100644
--- a/pkg/ldbbolt/ldbbolt.go
+++ b/pkg/ldbbolt/ldbbolt.go
@@ -378,7 +378,10 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 		if req.DeleteOldRDN {
 			oldRDN := olddn.RDNs[0]
 			for _, ava := range oldRDN.Attributes {
-				modReq.Delete(ava.Type, []string{ava.Value})
+				// values that are also part of the new RDN have to stay
+				if !rdnContains(newrdn.RDNs[0], ava) {
+					modReq.Delete(ava.Type, []string{ava.Value})
+				}
 			}
 		}
 		for _, ava := range newrdn.RDNs[0].Attributes {
@@ -402,6 +405,15 @@ func (bdb *LdbBolt) EntryModifyDN(req *ldap.ModifyDNRequest) error {
 	return err
 }
 
+func rdnContains(rdn *ldap.RelativeDN, ava *ldap.AttributeTypeAndValue) bool {
+	for _, a := range rdn.Attributes {
+		if a.EqualFold(ava) {
+			return true
+		}
+	}
+	return false
+}
+
 func (bdb *LdbBolt) UpdatePassword(req *ldap.PasswordModifyRequest) error {
 	ndn, err := ldapdn.ParseNormalize(req.UserIdentity)
 	if err != nil {
-- 
2.43.0

