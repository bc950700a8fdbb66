From c9f3b01e503248f66c9b41dd457f109566ff2d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 01/36] fix: MatchResource hung on '*', let a parameter match
 the action and cross '/'

A '*' followed by another character looped forever; ':id' as last path segment
swallowed the action ('user/:id create' matched 'user/1 delete'); an empty
segment let ':id' cross a '/'.
---
 utils/str.go | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index fc3aced..b386a9d 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -30,37 +30,26 @@ func ToInt64(s string) uint64 {
 	return ft.Sum64()
 }
 
+// MatchResource reports whether the whole value matches the pattern: '*' stands for any
+// run of characters, ':name' for one non-empty segment. Segments end at '/' or at the
+// ' ' between resource and action.
 func MatchResource(value, pattern string) bool {
 	vIndex, pIndex := 0, 0
 	vLen, pLen := len(value), len(pattern)
+	// Pattern position after the last '*', and how far that '*' reaches in the value
+	starIndex, starReach := -1, 0
 
-	for pIndex < pLen {
-		if pattern[pIndex] == '*' {
+	for pIndex < pLen || vIndex < vLen {
+		if pIndex < pLen && pattern[pIndex] == '*' {
 			// If '*' is the last character in the pattern, it matches everything
 			if pIndex == pLen-1 {
 				return true
 			}
 
-			// Find the next character in pattern after '*'
-			nextChar := pattern[pIndex+1]
-
-			// If the next character is '*', skip it
-			if nextChar == '*' {
-				pIndex++
-				continue
-			}
-
-			// Find the next occurrence of the character after '*' in the value
-			nextIndex := strings.IndexByte(value[vIndex:], nextChar)
-
-			// If the character is not found, no match
-			if nextIndex == -1 {
-				return false
-			}
-
-			// Move the value index to the next occurrence of the character
-			vIndex += nextIndex
-		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':') {
+			// Match as little as possible first; extended below on a mismatch
+			pIndex++
+			starIndex, starReach = pIndex, vIndex
+		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':' && !isSegmentEnd(value[vIndex])) {
 			// If pattern part matches value part or is a parameter, move to the next parts
 			vIndex++
 			pIndex++
@@ -68,16 +57,20 @@ func MatchResource(value, pattern string) bool {
 			if pattern[pIndex-1] == ':' {
 				// Find the end of the parameter segment
 				endIndex := pIndex
-				for endIndex < pLen && pattern[endIndex] != '/' {
+				for endIndex < pLen && !isSegmentEnd(pattern[endIndex]) {
 					endIndex++
 				}
 				// Skip the parameter segment in the value
-				for vIndex < vLen && value[vIndex] != '/' {
+				for vIndex < vLen && !isSegmentEnd(value[vIndex]) {
 					vIndex++
 				}
 				// Move pattern index to the end of the parameter segment
 				pIndex = endIndex
 			}
+		} else if starIndex != -1 && starReach < vLen {
+			// Let the last '*' take one more character and try again
+			starReach++
+			vIndex, pIndex = starReach, starIndex
 		} else {
 			return false
 		}
@@ -87,6 +80,10 @@ func MatchResource(value, pattern string) bool {
 	return vIndex == vLen && pIndex == pLen
 }
 
+func isSegmentEnd(c byte) bool {
+	return c == '/' || c == ' '
+}
+
 // ToByte converts a string to a byte slice without memory allocation.
 // NOTE: The returned byte slice MUST NOT be modified since it shares the same backing array
 // with the given string.
-- 
2.43.0


From ee1890a6a12a755755b3f2b05dbae96db198a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:33 +0000
Subject: [PATCH 02/36] fix: v2 RemovePrincipalRole dropped surviving
 assignments and left nil entries

---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 3533705..6957169 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -133,13 +133,13 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 		return true
 	}
 	j := 0
-	for i, ur := range a.userRoles {
+	for _, ur := range a.userRoles {
 		if matches(ur) {
 			rolesRemoved = true
 			continue
 		}
+		updatedRoles[j] = ur
 		j++
-		updatedRoles[i] = ur
 	}
 	updatedRoles = updatedRoles[:j]
 	if !rolesRemoved {
-- 
2.43.0


From b2f9e0804e01a5e985a10dc4afc7811c6d76deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 03/36] fix: v2 SetExpiryDuration swallowed a malformed
 duration

---
 v2/v2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/v2.go b/v2/v2.go
index 6957169..e5497dd 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -43,7 +43,7 @@ func (pr *PrincipalRole) SetExpiryDuration(dur any) error {
 	case string:
 		duration, err = time.ParseDuration(dur)
 		if err != nil {
-			return nil
+			return err
 		}
 	case time.Duration:
 		duration = dur
-- 
2.43.0


From ffbfe059aa46735456daa6da5824c064918e9169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:36 +0000
Subject: [PATCH 04/36] fix: v2 expired assignments still conferred management
 of child tenants

---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index e5497dd..18e42c3 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -224,7 +224,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
@@ -280,7 +280,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
-- 
2.43.0


From 085e880e950212896398bfced94a67b25cc3d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:37 +0000
Subject: [PATCH 05/36] fix: v2 AddChildRole rejected shared descendants as
 circular

---
 v2/role.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index 05b01ba..ed63a17 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -92,12 +92,15 @@ func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 }
 
 func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) error {
-	visited := map[string]bool{parent: true}
+	visited := make(map[string]bool)
 	var dfs func(string) bool
 	dfs = func(role string) bool {
-		if visited[role] {
+		if role == parent {
 			return true
 		}
+		if visited[role] {
+			return false
+		}
 		visited[role] = true
 		for _, child := range dag.edges[role] {
 			if dfs(child) {
-- 
2.43.0


From 7ea03c0907543c2947a0c64efc1562e185d94f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:59 +0000
Subject: [PATCH 06/36] fix: v2 handed out pooled permission and role sets
 after returning them to the pool

---
 v2/v2.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 18e42c3..5562387 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"log/slog"
+	"maps"
 	"slices"
 	"sync"
 	"time"
@@ -238,10 +239,10 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 		return nil, err
 	}
 	if len(scopedPermissions) > 0 {
-		return scopedPermissions, nil
+		return maps.Clone(scopedPermissions), nil
 	}
 	if len(globalPermissions) > 0 {
-		return globalPermissions, nil
+		return maps.Clone(globalPermissions), nil
 	}
 	return nil, fmt.Errorf("no roleDAG or permissions found")
 }
@@ -294,7 +295,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 		return nil, err
 	}
 	if len(scopedRoles) > 0 {
-		return scopedRoles, nil
+		return maps.Clone(scopedRoles), nil
 	}
 	return nil, fmt.Errorf("no roleDAG or permissions found")
 }
-- 
2.43.0


From d8e6934da88c656bcdddd10a6c95c690cf32d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:00 +0000
Subject: [PATCH 07/36] fix: v2 resolved-role cache went stale and mixed
 permissions with role names

The cache was never invalidated, so added or removed permissions, roles and edges
had no effect after the first decision, and role and permission resolution shared
one map, so Can and Authorize corrupted each other.
---
 v2/role.go | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index ed63a17..30e584d 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -59,17 +59,15 @@ func (t *Tenant) AddChildTenant(tenants ...*Tenant) {
 }
 
 type RoleDAG struct {
-	mu       sync.RWMutex
-	roles    map[string]*Role
-	edges    map[string][]string
-	resolved map[string]map[string]struct{}
+	mu    sync.RWMutex
+	roles map[string]*Role
+	edges map[string][]string
 }
 
 func NewRoleDAG() *RoleDAG {
 	return &RoleDAG{
-		roles:    make(map[string]*Role),
-		edges:    make(map[string][]string),
-		resolved: make(map[string]map[string]struct{}),
+		roles: make(map[string]*Role),
+		edges: make(map[string][]string),
 	}
 }
 
@@ -120,13 +118,7 @@ func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) e
 // ResolvePermissions to account for role expiry
 func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
-		dag.mu.RUnlock()
-		return permissions
-	}
-	dag.mu.RUnlock()
-	dag.mu.Lock()
-	defer dag.mu.Unlock()
+	defer dag.mu.RUnlock()
 	visited := make(map[string]bool)
 	queue := []string{roleName}
 	result := make(map[string]struct{})
@@ -146,20 +138,13 @@ func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 		}
 		queue = append(queue, dag.edges[current]...)
 	}
-	dag.resolved[roleName] = result
 	return result
 }
 
 // ResolveChildRoles to account for role expiry
 func (dag *RoleDAG) ResolveChildRoles(roleName string) map[string]struct{} {
 	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
-		dag.mu.RUnlock()
-		return permissions
-	}
-	dag.mu.RUnlock()
-	dag.mu.Lock()
-	defer dag.mu.Unlock()
+	defer dag.mu.RUnlock()
 	visited := make(map[string]bool)
 	queue := []string{roleName}
 	result := make(map[string]struct{})
@@ -177,6 +162,5 @@ func (dag *RoleDAG) ResolveChildRoles(roleName string) map[string]struct{} {
 		result[role.Name] = struct{}{}
 		queue = append(queue, dag.edges[current]...)
 	}
-	dag.resolved[roleName] = result
 	return result
 }
-- 
2.43.0


From d4357b74d5c0a63666879e737e7e2f7c8bbe96d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:14 +0000
Subject: [PATCH 08/36] fix: v2 granted requests on inactive, pending, blocked
 and banned tenants

Only requests without a tenant skipped them; naming such a tenant, having it as
default tenant or reaching it as a child tenant still authorized.
---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 5562387..ae065d1 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -200,7 +200,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 	}()
 	var traverse func(current *Tenant) error
 	traverse = func(current *Tenant) error {
-		if checkedTenants[current.ID] {
+		if checkedTenants[current.ID] || current.Status != TenantStatusActive {
 			return nil
 		}
 		checkedTenants[current.ID] = true
@@ -262,7 +262,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 	}()
 	var traverse func(current *Tenant) error
 	traverse = func(current *Tenant) error {
-		if checkedTenants[current.ID] {
+		if checkedTenants[current.ID] || current.Status != TenantStatusActive {
 			return nil
 		}
 		checkedTenants[current.ID] = true
-- 
2.43.0


From c12312bacda53ec8bf9943c2599f8dbf6f8cf511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:15 +0000
Subject: [PATCH 09/36] fix: v2 Can counted roles assigned only in a different
 scope

---
 v2/v2.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index ae065d1..d822660 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -247,7 +247,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 	return nil, fmt.Errorf("no roleDAG or permissions found")
 }
 
-func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (map[string]struct{}, error) {
+func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace, scopeName string) (map[string]struct{}, error) {
 	tenant, exists := a.tenants[tenantID]
 	if !exists {
 		return nil, fmt.Errorf("invalid tenant: %v", tenantID)
@@ -273,6 +273,9 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 			if userRole.IsExpired() {
 				continue
 			}
+			if scopeName != "" && userRole.Scope != "" && userRole.Scope != scopeName {
+				continue
+			}
 			if (userRole.Namespace == "" || userRole.Namespace == namespace) && userRole.Role != "" {
 				scopedRoles[userRole.Role] = struct{}{}
 				for role := range a.roleDAG.ResolveChildRoles(userRole.Role) {
@@ -380,7 +383,7 @@ func (a *Authorizer) Can(request Request, roles ...string) bool {
 		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
 			continue
 		}
-		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace)
+		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace, request.Scope)
 		if err != nil {
 			a.Log(slog.LevelWarn, request, "Failed to resolve roles for authorization")
 			continue
-- 
2.43.0


From 81e210aada328717bbf9ae29f3c1d7fab09b5751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:07 +0000
Subject: [PATCH 10/36] fix: v2 decisions read policy state without the locks
 its writers take

Concurrent use crashed with concurrent map access or read torn state. Decisions
now hold the read locks; audit messages are logged after releasing them so a
handler may call back into the authorizer.
---
 v2/init.go |   5 +--
 v2/role.go |  19 +++++++++
 v2/v2.go   | 120 ++++++++++++++++++++++++++++++++---------------------
 3 files changed, 93 insertions(+), 51 deletions(-)

diff --git a/v2/init.go b/v2/init.go
index 19fbe51..e469041 100644
--- a/v2/init.go
+++ b/v2/init.go
@@ -10,8 +10,7 @@ func (a *Authorizer) AddRole(role *Role) *Role {
 }
 
 func (a *Authorizer) GetRole(val string) (*Role, bool) {
-	role, ok := a.roleDAG.roles[val]
-	return role, ok
+	return a.roleDAG.getRole(val)
 }
 
 func (a *Authorizer) AddChildRole(parent string, child ...string) error {
@@ -28,7 +27,7 @@ func (a *Authorizer) AddTenant(tenant *Tenant) *Tenant {
 	a.m.Lock()
 	defer a.m.Unlock()
 	a.tenants[tenant.ID] = tenant
-	for _, child := range tenant.ChildTenants {
+	for _, child := range tenant.children() {
 		a.parentCache[child.ID] = tenant
 	}
 	return tenant
diff --git a/v2/role.go b/v2/role.go
index 30e584d..9590830 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -58,6 +58,16 @@ func (t *Tenant) AddChildTenant(tenants ...*Tenant) {
 	}
 }
 
+func (t *Tenant) children() []*Tenant {
+	t.m.RLock()
+	defer t.m.RUnlock()
+	children := make([]*Tenant, 0, len(t.ChildTenants))
+	for _, child := range t.ChildTenants {
+		children = append(children, child)
+	}
+	return children
+}
+
 type RoleDAG struct {
 	mu    sync.RWMutex
 	roles map[string]*Role
@@ -79,6 +89,13 @@ func (dag *RoleDAG) AddRole(roles ...*Role) {
 	}
 }
 
+func (dag *RoleDAG) getRole(name string) (*Role, bool) {
+	dag.mu.RLock()
+	defer dag.mu.RUnlock()
+	role, ok := dag.roles[name]
+	return role, ok
+}
+
 func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 	dag.mu.Lock()
 	defer dag.mu.Unlock()
@@ -133,9 +150,11 @@ func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 		if !exists {
 			continue
 		}
+		role.m.RLock()
 		for perm := range role.Permissions {
 			result[perm] = struct{}{}
 		}
+		role.m.RUnlock()
 		queue = append(queue, dag.edges[current]...)
 	}
 	return result
diff --git a/v2/v2.go b/v2/v2.go
index d822660..8c1ce61 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -97,6 +97,8 @@ func NewAuthorizer(auditLog ...*slog.Logger) *Authorizer {
 }
 
 func (a *Authorizer) SetDefaultTenant(tenant string) {
+	a.m.Lock()
+	defer a.m.Unlock()
 	a.defaultTenant = tenant
 }
 
@@ -113,6 +115,8 @@ func (a *Authorizer) AddPrincipalRole(userRole ...*PrincipalRole) {
 }
 
 func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
+	a.m.Lock()
+	defer a.m.Unlock()
 	updatedRoles := make([]*PrincipalRole, len(a.userRoles))
 	var rolesRemoved bool
 	matches := func(pr *PrincipalRole) bool {
@@ -176,8 +180,11 @@ var (
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
-	if a.defaultTenant != "" {
-		return a.GetTenant(a.defaultTenant)
+	a.m.RLock()
+	defaultTenant := a.defaultTenant
+	a.m.RUnlock()
+	if defaultTenant != "" {
+		return a.GetTenant(defaultTenant)
 	}
 	return nil, false
 }
@@ -226,7 +233,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.children() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -285,7 +292,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace, scopeNam
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.children() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -356,89 +363,106 @@ func (a *Authorizer) findTargetTenants(request Request) ([]*Tenant, bool) {
 	return targetTenants, true
 }
 
+// resolveNamespace returns the namespace of the tenant the request is about, provided
+// the tenant has it and it contains the requested scope.
+func (a *Authorizer) resolveNamespace(tenant *Tenant, request Request) (string, bool) {
+	tenant.m.RLock()
+	defer tenant.m.RUnlock()
+	namespace := request.Namespace
+	if namespace == "" {
+		if tenant.DefaultNS != "" {
+			namespace = tenant.DefaultNS
+		} else if len(tenant.Namespaces) == 1 {
+			for ns := range tenant.Namespaces {
+				namespace = ns
+				break
+			}
+		} else {
+			return "", false
+		}
+	}
+	ns, exists := tenant.Namespaces[namespace]
+	if !exists {
+		return "", false
+	}
+	if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		return "", false
+	}
+	return namespace, true
+}
+
+// auditTrail collects audit messages while locks are held, to be logged without them.
+type auditTrail []string
+
+func (t *auditTrail) add(msg string) {
+	*t = append(*t, msg)
+}
+
+func (t *auditTrail) flush(a *Authorizer, request Request) {
+	for _, msg := range *t {
+		a.Log(slog.LevelWarn, request, msg)
+	}
+}
+
 func (a *Authorizer) Can(request Request, roles ...string) bool {
+	var trail auditTrail
+	defer trail.flush(a, request)
+	a.m.RLock()
+	defer a.m.RUnlock()
 	targetTenants, isValidTenant := a.findTargetTenants(request)
 	if !isValidTenant {
-		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
+		trail.add("Failed authorization due to invalid tenant")
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
-		if !exists {
-			continue
-		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		namespace, ok := a.resolveNamespace(tenant, request)
+		if !ok {
 			continue
 		}
 		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace, request.Scope)
 		if err != nil {
-			a.Log(slog.LevelWarn, request, "Failed to resolve roles for authorization")
+			trail.add("Failed to resolve roles for authorization")
 			continue
 		}
 		for role := range resolvedRoles {
 			if slices.Contains(roles, role) {
-				a.Log(slog.LevelWarn, request, "Authorization granted")
+				trail.add("Authorization granted")
 				return true
 			}
 		}
 	}
-	a.Log(slog.LevelWarn, request, "Authorization failed")
+	trail.add("Authorization failed")
 	return false
 }
 
 func (a *Authorizer) Authorize(request Request) bool {
+	var trail auditTrail
+	defer trail.flush(a, request)
+	a.m.RLock()
+	defer a.m.RUnlock()
 	targetTenants, isValidTenant := a.findTargetTenants(request)
 	if !isValidTenant {
-		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
+		trail.add("Failed authorization due to invalid tenant")
 		return false
 	}
 	for _, tenant := range targetTenants {
-		namespace := request.Namespace
-		if namespace == "" {
-			if tenant.DefaultNS != "" {
-				namespace = tenant.DefaultNS
-			} else if len(tenant.Namespaces) == 1 {
-				for ns := range tenant.Namespaces {
-					namespace = ns
-					break
-				}
-			} else {
-				continue
-			}
-		}
-		ns, exists := tenant.Namespaces[namespace]
-		if !exists {
-			continue
-		}
-		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+		namespace, ok := a.resolveNamespace(tenant, request)
+		if !ok {
 			continue
 		}
 		permissions, err := a.resolvePrincipalPermissions(request.Principal, tenant.ID, namespace, request.Scope)
 		if err != nil {
-			a.Log(slog.LevelWarn, request, "Failed to resolve permissions for authorization")
+			trail.add("Failed to resolve permissions for authorization")
 			continue
 		}
 		for permission := range permissions {
 			if matchPermission(permission, request) {
-				a.Log(slog.LevelWarn, request, "Authorization granted")
+				trail.add("Authorization granted")
 				return true
 			}
 		}
 	}
-	a.Log(slog.LevelWarn, request, "Authorization failed")
+	trail.add("Authorization failed")
 	return false
 }
 
-- 
2.43.0


From c3e5a1d84994d0f21ac80d30af72229f00302198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:24 +0000
Subject: [PATCH 11/36] fix: the trie merged rows whose values sit in different
 fields

Insert skipped nil keys, so rows such as {Tenant, Namespace: x} and
{Tenant, Scope: x} shared one node and the later row replaced the earlier.
---
 trie/trie.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 6cbe2aa..32effca 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -10,6 +10,9 @@ type SearchFunc[T DataProps] func(filter *T, row *T) bool
 
 type KeyExtractor[T DataProps] func(data *T) []any
 
+// emptyKey stands for an absent key, so that every key keeps its own level
+type emptyKey struct{}
+
 type Node[T DataProps] struct {
 	child maps.IMap[any, *Node[T]]
 	isEnd bool
@@ -69,7 +72,7 @@ func (t *Trie[T]) Insert(data *T) {
 
 	for _, key := range keys {
 		if key == nil {
-			continue
+			key = emptyKey{}
 		}
 		child, _ := node.addChild(key)
 		node = child
-- 
2.43.0


From 25794d1eef821bcfe640607809ba59ccde39be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:26 +0000
Subject: [PATCH 12/36] fix: concurrent trie insertions lost rows and raced
 with searches

---
 trie/trie.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index 32effca..a9b921a 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -1,6 +1,8 @@
 package trie
 
 import (
+	"sync/atomic"
+
 	maps "github.com/oarkflow/xsync"
 )
 
@@ -15,8 +17,7 @@ type emptyKey struct{}
 
 type Node[T DataProps] struct {
 	child maps.IMap[any, *Node[T]]
-	isEnd bool
-	data  *T
+	data  atomic.Pointer[T] // set on the last node of a row
 }
 
 func NewNode[T DataProps]() *Node[T] {
@@ -30,9 +31,7 @@ func (node *Node[T]) addChild(key any) (*Node[T], bool) {
 	if n, exists := node.child.Get(key); exists {
 		return n, true
 	}
-	n := NewNode[T]()
-	node.child.Set(key, n)
-	return n, false
+	return node.child.GetOrSet(key, NewNode[T]())
 }
 
 func (node *Node[T]) getChild(key any) (*Node[T], bool) {
@@ -78,8 +77,7 @@ func (t *Trie[T]) Insert(data *T) {
 		node = child
 	}
 
-	node.isEnd = true
-	node.data = data
+	node.data.Store(data)
 }
 
 func (t *Trie[T]) First(filter *T) *T {
@@ -112,14 +110,14 @@ func (t *Trie[T]) search(filter *T, callback SearchFunc[T], stopAfterFirst ...bo
 	var dfs func(node *Node[T]) bool
 	resultCount := 0
 	dfs = func(node *Node[T]) bool {
-		if node.isEnd && callback(filter, node.data) {
+		if data := node.data.Load(); data != nil && callback(filter, data) {
 			resultCount++
 			if len(results) == cap(results) {
 				newResults := make([]*T, len(results), 2*cap(results))
 				copy(newResults, results)
 				results = newResults
 			}
-			results = append(results, node.data)
+			results = append(results, data)
 			if stop {
 				return true
 			}
-- 
2.43.0


From e48b1f32acdd4e37a6d6aa75863064ed68ad09ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:46 +0000
Subject: [PATCH 13/36] fix: racing registrations and permission additions in
 the root package lost updates

Check-then-set on the registries and on a role's permissions let two callers
both miss and overwrite each other; the lock flag was a plain bool.
---
 activity.go       |  2 +-
 activity_group.go |  2 +-
 namespace.go      |  2 +-
 permission.go     |  2 +-
 principal.go      |  2 +-
 role.go           | 26 +++++++++++---------------
 scope.go          |  2 +-
 tenant.go         | 10 +++++-----
 8 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/activity.go b/activity.go
index 4766802..87528cf 100644
--- a/activity.go
+++ b/activity.go
@@ -10,7 +10,7 @@ func (u *RoleManager) AddAttribute(attr *Attribute) *Attribute {
 	if d, ok := u.attributes.Get(attr.String()); ok {
 		return d
 	}
-	u.attributes.Set(attr.String(), attr)
+	attr, _ = u.attributes.GetOrSet(attr.String(), attr)
 	return attr
 }
 
diff --git a/activity_group.go b/activity_group.go
index 590872b..c14ac5c 100644
--- a/activity_group.go
+++ b/activity_group.go
@@ -14,7 +14,7 @@ func (u *RoleManager) AddAttributeGroup(attr *AttributeGroup) *AttributeGroup {
 	if d, ok := u.attributeGroups.Get(attr.id); ok {
 		return d
 	}
-	u.attributeGroups.Set(attr.id, attr)
+	attr, _ = u.attributeGroups.GetOrSet(attr.id, attr)
 	return attr
 }
 
diff --git a/namespace.go b/namespace.go
index eebc1e5..675bdbc 100644
--- a/namespace.go
+++ b/namespace.go
@@ -18,7 +18,7 @@ func (u *RoleManager) AddNamespace(data *Namespace) *Namespace {
 	if d, ok := u.namespaces.Get(data.id); ok {
 		return d
 	}
-	u.namespaces.Set(data.id, data)
+	data, _ = u.namespaces.GetOrSet(data.id, data)
 	return data
 }
 
diff --git a/permission.go b/permission.go
index 10c70dd..04f331a 100644
--- a/permission.go
+++ b/permission.go
@@ -59,7 +59,7 @@ func (u *RoleManager) AddRole(role *Role) *Role {
 	if r, exists := u.roles.Get(role.id); exists {
 		return r
 	}
-	u.roles.Set(role.id, role)
+	role, _ = u.roles.GetOrSet(role.id, role)
 	return role
 }
 
diff --git a/principal.go b/principal.go
index e92ef05..cabae94 100644
--- a/principal.go
+++ b/principal.go
@@ -13,7 +13,7 @@ func (u *RoleManager) AddPrincipal(data *Principal) *Principal {
 	if d, ok := u.principals.Get(data.id); ok {
 		return d
 	}
-	u.principals.Set(data.id, data)
+	data, _ = u.principals.GetOrSet(data.id, data)
 	return data
 }
 
diff --git a/role.go b/role.go
index 7f3f8f2..6867576 100644
--- a/role.go
+++ b/role.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"slices"
+	"sync/atomic"
 
 	maps "github.com/oarkflow/xsync"
 
@@ -39,11 +40,11 @@ type Role struct {
 	permissions maps.IMap[string, *AttributeGroup]
 	descendants maps.IMap[string, *Role]
 	id          string
-	lock        bool
+	lock        atomic.Bool
 }
 
 func (r *Role) Lock() {
-	r.lock = true
+	r.lock.Store(true)
 }
 
 func (r *Role) ID() string {
@@ -51,7 +52,7 @@ func (r *Role) ID() string {
 }
 
 func (r *Role) Unlock() {
-	r.lock = false
+	r.lock.Store(false)
 }
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
@@ -103,41 +104,36 @@ func (r *Role) GetDescendantRoles() []*Role {
 
 // AddDescendant adds a new permission to the role
 func (r *Role) AddDescendant(descendants ...*Role) error {
-	if r.lock {
+	if r.lock.Load() {
 		return errors.New("changes not allowed")
 	}
 	for _, descendant := range descendants {
-		if _, ok := r.descendants.Get(descendant.id); !ok {
-			r.descendants.Set(descendant.id, descendant)
-		}
+		r.descendants.GetOrSet(descendant.id, descendant)
 	}
 	return nil
 }
 
 // AddPermission adds a new permission to the role
 func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) error {
-	if r.lock {
+	if r.lock.Load() {
 		return errors.New("changes not allowed")
 	}
 	resourceGroupAttributes, exists := r.permissions.Get(resourceGroup)
 	if !exists || resourceGroupAttributes == nil {
-		resourceGroupAttributes = &AttributeGroup{
+		resourceGroupAttributes, _ = r.permissions.GetOrSet(resourceGroup, &AttributeGroup{
 			id:          resourceGroup,
 			permissions: maps.NewMap[string, *Attribute](),
-		}
+		})
 	}
 	perm := resourceGroupAttributes.permissions
 	for _, permission := range permissions {
-		if _, ok := perm.Get(permission.String()); !ok {
-			perm.Set(permission.String(), permission)
-		}
+		perm.GetOrSet(permission.String(), permission)
 	}
-	r.permissions.Set(resourceGroup, resourceGroupAttributes)
 	return nil
 }
 
 func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
-	if r.lock {
+	if r.lock.Load() {
 		return errors.New("changes not allowed")
 	}
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
diff --git a/scope.go b/scope.go
index 2072bc4..9c38b06 100644
--- a/scope.go
+++ b/scope.go
@@ -18,7 +18,7 @@ func (u *RoleManager) AddScope(data *Scope) *Scope {
 	if d, ok := u.scopes.Get(data.id); ok {
 		return d
 	}
-	u.scopes.Set(data.id, data)
+	data, _ = u.scopes.GetOrSet(data.id, data)
 	return data
 }
 
diff --git a/tenant.go b/tenant.go
index 6ff7ad6..61607e1 100644
--- a/tenant.go
+++ b/tenant.go
@@ -39,9 +39,7 @@ func (c *Tenant) GetDescendants() (data []any) {
 
 func (c *Tenant) AddDescendant(descendants ...*Tenant) error {
 	for _, descendant := range descendants {
-		if _, ok := c.descendants.Get(descendant.id); !ok {
-			c.descendants.Set(descendant.id, descendant)
-		}
+		c.descendants.GetOrSet(descendant.id, descendant)
 		if c.defaultNamespace != nil {
 			descendant.AddNamespace(c.defaultNamespace)
 			descendant.SetDefaultNamespace(c.defaultNamespace.id)
@@ -141,11 +139,13 @@ func (c *Tenant) AssignScopesToPrincipal(principalID string, manageDescendants b
 }
 
 func (u *RoleManager) AddTenant(data *Tenant) *Tenant {
-	data.manager = u
+	if data.manager != u {
+		data.manager = u
+	}
 	if d, ok := u.tenants.Get(data.id); ok {
 		return d
 	}
-	u.tenants.Set(data.id, data)
+	data, _ = u.tenants.GetOrSet(data.id, data)
 	return data
 }
 
-- 
2.43.0


From a992aa57e0a87a2dd05756199194a20f3449c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 14/36] fix: roles given the same attribute group shared its
 permissions

AddPermission on one of them wrote into the common group and so granted the
permission to every other role holding that group.
---
 role.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/role.go b/role.go
index 6867576..a1eee7e 100644
--- a/role.go
+++ b/role.go
@@ -137,7 +137,13 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 		return errors.New("changes not allowed")
 	}
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
-		r.permissions.Set(resourceGroup.id, resourceGroup)
+		// The role holds its own copy, later changes to either must not leak to the other
+		group := NewAttributeGroup(resourceGroup.id)
+		resourceGroup.permissions.ForEach(func(_ string, attr *Attribute) bool {
+			group.AddAttributes(attr)
+			return true
+		})
+		r.permissions.GetOrSet(resourceGroup.id, group)
 	}
 	return nil
 }
-- 
2.43.0


From b158c69f5a85971fbab24c199705fee7f3c5d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:18 +0000
Subject: [PATCH 15/36] fix: inherited permissions were ignored outside the
 role's own groups, cycles overflowed the stack

Has gave up before looking at descendants when the role itself had nothing in
the group, and role and tenant traversals did not terminate on mutual
inheritance (and took exponential time on shared descendants).
---
 role.go   | 68 +++++++++++++++++++++++++++++++------------------------
 tenant.go | 11 ++++++++-
 2 files changed, 49 insertions(+), 30 deletions(-)

diff --git a/role.go b/role.go
index a1eee7e..c52b117 100644
--- a/role.go
+++ b/role.go
@@ -56,35 +56,20 @@ func (r *Role) Unlock() {
 }
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
-	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
-	if !ok || resourceGroupPermissions == nil {
-		return false
-	}
-	if _, ok := resourceGroupPermissions.permissions.Get(permissionName); ok {
-		return true
-	}
-	matched := false
-	resourceGroupPermissions.permissions.ForEach(func(perm string, _ *Attribute) bool {
-		if utils.MatchResource(permissionName, perm) {
-			matched = true
-			return false
-		}
-		return true
-	})
-	if matched {
+	if r.has(resourceGroup, permissionName) {
 		return true
 	}
 	totalD := len(allowedDescendants)
-	// Check inherited permissions recursively
+	// Check inherited permissions
 	for _, descendant := range r.GetDescendantRoles() {
 		if totalD > 0 {
 			if slices.Contains(allowedDescendants, descendant.id) {
-				if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
+				if descendant.has(resourceGroup, permissionName) {
 					return true
 				}
 			}
 		} else {
-			if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
+			if descendant.has(resourceGroup, permissionName) {
 				return true
 			}
 		}
@@ -92,11 +77,40 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 	return false
 }
 
+// has checks the role's own permissions
+func (r *Role) has(resourceGroup, permissionName string) bool {
+	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
+	if !ok || resourceGroupPermissions == nil {
+		return false
+	}
+	if _, ok := resourceGroupPermissions.permissions.Get(permissionName); ok {
+		return true
+	}
+	matched := false
+	resourceGroupPermissions.permissions.ForEach(func(perm string, _ *Attribute) bool {
+		if utils.MatchResource(permissionName, perm) {
+			matched = true
+			return false
+		}
+		return true
+	})
+	return matched
+}
+
 func (r *Role) GetDescendantRoles() []*Role {
+	return r.descendantRoles(map[*Role]struct{}{r: {}})
+}
+
+// descendantRoles lists the descendants not seen yet, roles may be shared or inherit each other
+func (r *Role) descendantRoles(seen map[*Role]struct{}) []*Role {
 	var descendants []*Role
 	r.descendants.ForEach(func(_ string, child *Role) bool {
+		if _, ok := seen[child]; ok {
+			return true
+		}
+		seen[child] = struct{}{}
 		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantRoles()...)
+		descendants = append(descendants, child.descendantRoles(seen)...)
 		return true
 	})
 	return descendants
@@ -165,17 +179,13 @@ func (r *Role) GetAllImplicitPermissions(perm ...map[string][]Attribute) map[str
 	} else {
 		grpPermissions = make(map[string][]Attribute)
 	}
-	r.permissions.ForEach(func(resourceGroup string, grp *AttributeGroup) bool {
-		var permissions []Attribute
-		grp.permissions.ForEach(func(_ string, attr *Attribute) bool {
-			permissions = append(permissions, *attr)
-			return true
-		})
+	for resourceGroup, permissions := range r.GetPermissions() {
 		grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
-		return true
-	})
+	}
 	for _, descendant := range r.GetDescendantRoles() {
-		descendant.GetAllImplicitPermissions(grpPermissions)
+		for resourceGroup, permissions := range descendant.GetPermissions() {
+			grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
+		}
 	}
 	return grpPermissions
 }
diff --git a/tenant.go b/tenant.go
index 61607e1..bc33fa1 100644
--- a/tenant.go
+++ b/tenant.go
@@ -29,9 +29,18 @@ func (c *Tenant) AddNamespace(n *Namespace) *Namespace {
 }
 
 func (c *Tenant) GetDescendants() (data []any) {
+	return c.getDescendants(map[*Tenant]struct{}{c: {}})
+}
+
+// getDescendants lists the descendants not seen yet, tenants may be shared or contain each other
+func (c *Tenant) getDescendants(seen map[*Tenant]struct{}) (data []any) {
 	c.descendants.ForEach(func(id string, t *Tenant) bool {
+		if _, ok := seen[t]; ok {
+			return true
+		}
+		seen[t] = struct{}{}
 		data = append(data, id)
-		data = append(data, t.GetDescendants()...)
+		data = append(data, t.getDescendants(seen)...)
 		return true
 	})
 	return
-- 
2.43.0


From a57559d3011ea434df9686438621d5d1dd1c4b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:34 +0000
Subject: [PATCH 16/36] fix: GetRolesByTenant was always empty

Its filter compared the row's role with the role of a filter that names none,
so activities were always denied on a tenant and the restriction to roles
known in the tenant never applied.
---
 filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters.go b/filters.go
index 3b79b4d..2809bb1 100644
--- a/filters.go
+++ b/filters.go
@@ -62,7 +62,7 @@ func filterScopeByPrincipal(filter *Data, row *Data) bool {
 }
 
 func filterRoleByTenant(filter *Data, row *Data) bool {
-	return MatchTenant(row, filter) && MatchRole(row, filter)
+	return MatchTenant(row, filter) && !utils.IsNil(row.Role)
 }
 
 func filterNamespaceByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From 8aa172baa726760fd913f9a7c6088fa8c3e392ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:53 +0000
Subject: [PATCH 17/36] fix: other tenants' and principals' roles counted for a
 principal in the root package

The role filters accepted any row with the namespace or scope asked for,
whoever held it and wherever, and a scope assigned in one namespace was
reported in every namespace.
---
 filters.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/filters.go b/filters.go
index 2809bb1..5507593 100644
--- a/filters.go
+++ b/filters.go
@@ -101,31 +101,32 @@ func filterScopeForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	}
 	return MatchTenant(row, filter) && (utils.IsNil(row.Namespace) && utils.IsNil(row.Principal) ||
 		MatchNamespace(row, filter) && utils.IsNil(row.Principal) ||
-		MatchPrincipal(row, filter))
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter)) && MatchPrincipal(row, filter))
 }
 
 func filterRoleForPrincipalByTenantNamespaceAndScope(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchNamespace(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchScope(row, filter) && MatchPrincipal(row, filter))
+	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter)) &&
+		(utils.IsNil(row.Scope) || MatchScope(row, filter))
 }
 
 func filterRoleForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		MatchNamespace(row, filter)
+	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) &&
+		(utils.IsNil(row.Namespace) || MatchNamespace(row, filter))
 }
 
 func filterRoleForPrincipalByTenantAndScope(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) || MatchScope(row, filter)
+	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) &&
+		(utils.IsNil(row.Scope) || MatchScope(row, filter))
 }
 
 func filterNamespaceForPrincipalByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From 088dc2b010f7e49797bccbb6742844da82eee1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:16 +0000
Subject: [PATCH 18/36] fix: root answers were frozen by the first question
 about a principal or tenant

The per-principal tenant set and the tenant hierarchy were cached on first
use and never invalidated, so later assignments and descendants had no effect.
---
 query.go        |  5 -----
 role_manager.go | 11 +----------
 2 files changed, 1 insertion(+), 15 deletions(-)

diff --git a/query.go b/query.go
index 7f6b636..0c4b459 100644
--- a/query.go
+++ b/query.go
@@ -37,10 +37,6 @@ func (u *RoleManager) GetDescendantTenant(desc any) []any {
 }
 
 func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{} {
-	principalTenant, exists := u.principalCache.Get(principalID)
-	if exists {
-		return principalTenant
-	}
 	tenantPrincipal := u.search(Data{Principal: principalID}, filterTenantsByPrincipal)
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
@@ -57,7 +53,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 			}
 		}
 	}
-	u.principalCache.Set(principalID, existingTenant)
 	return existingTenant
 }
 
diff --git a/role_manager.go b/role_manager.go
index 9c7353d..436627b 100644
--- a/role_manager.go
+++ b/role_manager.go
@@ -18,8 +18,6 @@ type RoleManager struct {
 	attributes      maps.IMap[string, *Attribute]
 	attributeGroups maps.IMap[string, *AttributeGroup]
 	trie            *trie.Trie[Data]
-	hierarchy       maps.IMap[string, []any]
-	principalCache  maps.IMap[string, map[string]struct{}]
 }
 
 func New() *RoleManager {
@@ -32,8 +30,6 @@ func New() *RoleManager {
 		attributes:      maps.NewMap[string, *Attribute](),
 		attributeGroups: maps.NewMap[string, *AttributeGroup](),
 		trie:            trie.New[Data](FilterFunc, DataKeyExtractor),
-		hierarchy:       maps.NewMap[string, []any](),
-		principalCache:  maps.NewMap[string, map[string]struct{}](),
 	}
 }
 
@@ -122,16 +118,11 @@ func (u *RoleManager) TotalScopes() int {
 }
 
 func (u *RoleManager) TenantChildren(t string) []any {
-	if hierarchy, exists := u.hierarchy.Get(t); exists {
-		return hierarchy
-	}
 	tenant, exists := u.GetTenant(t)
 	if !exists {
 		return nil
 	}
-	hierarchy := tenant.GetDescendants()
-	u.hierarchy.Set(t, utils.Compact(hierarchy))
-	return hierarchy
+	return utils.Compact(tenant.GetDescendants())
 }
 
 func (u *RoleManager) TotalTenants() int {
-- 
2.43.0


From 1d449efd2079938c2599b87121f4210cc6443f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:17 +0000
Subject: [PATCH 19/36] fix: management of descendants was lost when a tenant
 was met before its managing row

GetImplicitTenants skipped a tenant it had already listed, through another
row or as a descendant, so the result depended on map order.
---
 query.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/query.go b/query.go
index 0c4b459..1ddae40 100644
--- a/query.go
+++ b/query.go
@@ -41,9 +41,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
 		tenantID := rs.Tenant.(string)
-		if _, alreadyProcessed := existingTenant[tenantID]; alreadyProcessed {
-			continue
-		}
 		existingTenant[tenantID] = struct{}{}
 		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage {
 			for _, desc := range u.TenantChildren(tenantID) {
-- 
2.43.0


From 406f4239fad9f05d9c605a79ebc4a5ad417fa0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:19 +0000
Subject: [PATCH 20/36] fix: a request naming only an activity or only its
 group was answered as a membership question

---
 authorize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorize.go b/authorize.go
index 9b79c4e..1fcfae9 100644
--- a/authorize.go
+++ b/authorize.go
@@ -22,7 +22,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if !u.validateResources(svr) {
 		return false
 	}
-	noActivity := !(svr.activityGroup != nil && svr.activity != nil)
+	noActivity := svr.activityGroup == nil && svr.activity == nil
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
 	tsFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope != nil
-- 
2.43.0


From 669433c4bf2692cab8b4d897d3c3be134d801cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:20 +0000
Subject: [PATCH 21/36] fix: root requests on one tenant were granted from the
 principal's other tenants

Authorize retried the request on every tenant the principal belongs to; only a
tenant above the requested one whose descendants it manages may stand in.
---
 activity_group.go |  2 +-
 authorize.go      | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/activity_group.go b/activity_group.go
index c14ac5c..1568282 100644
--- a/activity_group.go
+++ b/activity_group.go
@@ -43,7 +43,7 @@ func (u *RoleManager) GetScopesWithRolesForPrincipal(principalID, tenantID, name
 	tenantPrincipals := u.search(data, filterPrincipalByTenant)
 	if len(tenantPrincipals) == 0 {
 		for tenant := range u.GetImplicitTenants(principalID.(string)) {
-			if tenant == tenantID {
+			if tenant == tenantID || !u.managesDescendant(principalID.(string), tenant, tenantID) {
 				continue
 			}
 			data.Tenant = tenant
diff --git a/authorize.go b/authorize.go
index 1fcfae9..30b9773 100644
--- a/authorize.go
+++ b/authorize.go
@@ -22,6 +22,12 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if !u.validateResources(svr) {
 		return false
 	}
+	requested := svr.tenant
+	if requested != nil {
+		if _, ok := userRoles[requested.(string)]; !ok {
+			return false
+		}
+	}
 	noActivity := svr.activityGroup == nil && svr.activity == nil
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
@@ -35,6 +41,9 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 		if svr.tenant == tenant && svr.tenant != nil {
 			continue
 		}
+		if requested != nil && !u.managesDescendant(principalID, tenant, requested) {
+			continue
+		}
 		svr.tenant = tenant
 		if u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
 			return true
@@ -43,6 +52,13 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	return false
 }
 
+// managesDescendant reports whether the principal manages the descendants of tenant and
+// descendant is one of them
+func (u *RoleManager) managesDescendant(principalID string, tenant, descendant any) bool {
+	filter := &Data{Tenant: tenant, Principal: principalID, ManageDescendants: true}
+	return u.trie.First(filter) != nil && utils.Contains(u.TenantChildren(tenant.(string)), descendant)
+}
+
 func (u *RoleManager) authorize(noActivity bool, principalID string, svr *Option, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided bool) bool {
 	if noActivity {
 		return u.checkNoActivity(principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided)
-- 
2.43.0


From 214d5a4cda08b47bc6075fd566f1a6bc18bf3d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:29 +0000
Subject: [PATCH 22/36] fix: v1 assignments with '_' in an identifier were read
 back as other assignments

Rows were stored joined by '_' and split again, so the principal, role and
tenant of one assignment could be taken for another's, or the row panicked.
---
 v1/role_manager.go | 54 ++++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 3a9a260..99ee4f0 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"slices"
-	"strings"
 
 	"github.com/oarkflow/maps"
 
@@ -38,7 +37,7 @@ type RoleManager struct {
 	roles            maps.IMap[string, *Role]
 	attributes       maps.IMap[string, *Attribute]
 	attributeGroups  maps.IMap[string, *AttributeGroup]
-	tenantPrincipals map[string]struct{}
+	tenantPrincipals map[TenantPrincipal]struct{}
 }
 
 func New() *RoleManager {
@@ -50,7 +49,7 @@ func New() *RoleManager {
 		roles:            maps.New[string, *Role](),
 		attributes:       maps.New[string, *Attribute](),
 		attributeGroups:  maps.New[string, *AttributeGroup](),
-		tenantPrincipals: make(map[string]struct{}),
+		tenantPrincipals: make(map[TenantPrincipal]struct{}),
 	}
 }
 
@@ -271,36 +270,26 @@ func getScopeID(n *Scope) string {
 	return n.ID()
 }
 
-func getTenantPrincipals(hash string) TenantPrincipal {
-	parts := strings.Split(hash, "_")
-	m := false
-	if parts[5] == "true" {
-		m = true
-	}
-	return TenantPrincipal{
-		TenantID:             parts[2],
-		PrincipalID:          parts[0],
-		RoleID:               parts[1],
-		NamespaceID:          parts[3],
-		ScopeID:              parts[4],
-		CanManageDescendants: m,
-	}
-}
-
 func (u *RoleManager) AddPrincipalRole(principalID string, roleID string, tenant *Tenant, namespace *Namespace, scope *Scope, canManageDescendants ...bool) {
 	manageDescendants := true
 	if len(canManageDescendants) > 0 {
 		manageDescendants = canManageDescendants[0]
 	}
-	h := fmt.Sprintf("%s_%s_%s_%s_%s_%v", principalID, roleID, tenant.ID(), getNamespaceID(namespace), getScopeID(scope), manageDescendants)
+	h := TenantPrincipal{
+		TenantID:             tenant.ID(),
+		PrincipalID:          principalID,
+		RoleID:               roleID,
+		NamespaceID:          getNamespaceID(namespace),
+		ScopeID:              getScopeID(scope),
+		CanManageDescendants: manageDescendants,
+	}
 	if _, exists := u.tenantPrincipals[h]; !exists {
 		u.tenantPrincipals[h] = struct{}{}
 	}
 }
 
 func (u *RoleManager) GetTenantsForPrincipal(principalID string) (tenants []string, err error) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID {
 			tenants = append(tenants, unmarshalled.TenantID)
 		}
@@ -315,8 +304,7 @@ type PrincipalPermissions struct {
 }
 
 func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -325,8 +313,7 @@ func (u *RoleManager) GetPrincipalRoles(tenant, principalID string) (data []Tena
 }
 
 func (u *RoleManager) GetTenantRoles(tenant string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -339,8 +326,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 	if tenant, ok := u.tenants.Get(tenantID); ok {
 		if tenant.descendants.Len() > 0 {
 			tenant.descendants.ForEach(func(id string, _ *Tenant) bool {
-				for tenantPrincipal := range u.tenantPrincipals {
-					unmarshalled := getTenantPrincipals(tenantPrincipal)
+				for unmarshalled := range u.tenantPrincipals {
 					if unmarshalled.TenantID == id {
 						data = append(data, unmarshalled)
 					}
@@ -353,8 +339,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 }
 
 func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (data []PrincipalPermissions) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == tenant {
 			if unmarshalled.RoleID != "" {
 				if r, ok := u.roles.Get(unmarshalled.RoleID); ok {
@@ -371,8 +356,7 @@ func (u *RoleManager) GetPermissionsForPrincipal(tenant, principalID string) (da
 }
 
 func (u *RoleManager) GetPrincipalRolesByTenant(tenant string) (data []TenantPrincipal) {
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.TenantID == tenant {
 			data = append(data, unmarshalled)
 		}
@@ -411,8 +395,7 @@ func (u *RoleManager) GetScopesForPrincipal(principalID string) ([]string, error
 		return nil, errors.New("no principal available")
 	}
 	var scopes []string
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" {
 			scopes = append(scopes, unmarshalled.ScopeID)
 		}
@@ -430,8 +413,7 @@ func (u *RoleManager) GetTenantScopesForPrincipal(tenantID, principalID string)
 		return nil, errors.New("no tenant available")
 	}
 	var scopes []string
-	for tenantPrincipal := range u.tenantPrincipals {
-		unmarshalled := getTenantPrincipals(tenantPrincipal)
+	for unmarshalled := range u.tenantPrincipals {
 		if unmarshalled.PrincipalID == principalID && unmarshalled.ScopeID != "" && unmarshalled.TenantID == tenantID {
 			scopes = append(scopes, unmarshalled.ScopeID)
 		}
-- 
2.43.0


From 5a1fafddedf721aadd176dbf4281895bdc27f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:30 +0000
Subject: [PATCH 23/36] fix: v1 GetImplicitPrincipalRoles listed other
 principals' roles in child tenants

---
 v1/role_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 99ee4f0..8f0db83 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -327,7 +327,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 		if tenant.descendants.Len() > 0 {
 			tenant.descendants.ForEach(func(id string, _ *Tenant) bool {
 				for unmarshalled := range u.tenantPrincipals {
-					if unmarshalled.TenantID == id {
+					if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == id {
 						data = append(data, unmarshalled)
 					}
 				}
-- 
2.43.0


From 6c210b2b93df781e2eac0db01186346c4b8857a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:32 +0000
Subject: [PATCH 24/36] fix: v1 GetTenantsForPrincipal listed tenants more than
 once

---
 v1/role_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 8f0db83..75e8139 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -294,6 +294,7 @@ func (u *RoleManager) GetTenantsForPrincipal(principalID string) (tenants []stri
 			tenants = append(tenants, unmarshalled.TenantID)
 		}
 	}
+	slices.Sort(tenants)
 	tenants = slices.Compact(tenants)
 	return
 }
-- 
2.43.0


From ef0f8482c8974dd516f2673c4b8f3d432bc341c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:33 +0000
Subject: [PATCH 25/36] fix: v1 GetAllowedRoles returned a slice it had put
 back into its pool

---
 v1/role_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 75e8139..7e8217e 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -497,7 +497,7 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 			return nil
 		}
 	}
-	return slices.Compact(allowedRoles)
+	return slices.Clone(slices.Compact(allowedRoles))
 }
 func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bool {
 	svr := &Option{}
-- 
2.43.0


From 64484e64d19c0374aa1028dfe115726a5af7437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:34 +0000
Subject: [PATCH 26/36] fix: v1 GetAllowedRoles panicked on no roles and on an
 unregistered tenant

---
 v1/role_manager.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 7e8217e..7ec7224 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -423,7 +423,7 @@ func (u *RoleManager) GetTenantScopesForPrincipal(tenantID, principalID string)
 }
 
 func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespace, scope string) []string {
-	if principalRoles == nil {
+	if len(principalRoles) == 0 {
 		return nil
 	}
 	// Reusable slices
@@ -442,7 +442,10 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 		principalRoleSlice.Put(principalNamespaceScopeRole)
 	}()
 	tenantID := principalRoles[0].TenantID
-	tenant, _ := u.tenants.Get(tenantID)
+	tenant, tenantExists := u.tenants.Get(tenantID)
+	if !tenantExists {
+		return nil
+	}
 	mod, modExists := tenant.namespaces.Get(namespace)
 	_, entExists := tenant.scopes.Get(scope)
 	if (scope != "" && !entExists) || (namespace != "" && !modExists) {
-- 
2.43.0


From 7e6f6baae723e58c4977fe20839515eca58b1d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:35 +0000
Subject: [PATCH 27/36] fix: v1 authorized every principal on every tenant

---
 v1/role_manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 7ec7224..5573ecc 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -513,7 +513,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 
 	// Check if only tenant is provided
 	if svr.tenant != nil && svr.namespace == nil && svr.scope == nil && svr.resourceGroup == nil && svr.activity == nil {
-		return u.authorizeForTenant(utils.ToString(svr.tenant))
+		return u.authorizeForTenant(principalID, utils.ToString(svr.tenant))
 	}
 
 	// Check if only namespace is provided
@@ -606,9 +606,9 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 	return false
 }
 
-func (u *RoleManager) authorizeForTenant(tenantID string) bool {
+func (u *RoleManager) authorizeForTenant(principalID, tenantID string) bool {
 	_, exists := u.GetTenant(tenantID)
-	return exists
+	return exists && u.GetPrincipalRoles(tenantID, principalID) != nil
 }
 
 func (u *RoleManager) authorizeForNamespace(principalID, namespace string) bool {
-- 
2.43.0


From f23a01c445a108b4eb74f1d49426804e2f951fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:36 +0000
Subject: [PATCH 28/36] fix: v1 authorized a tenant, namespace and scope from
 another principal's assignment

---
 v1/role_manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 5573ecc..11d7ddb 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -597,9 +597,12 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 			return true
 		}
 	}
+	if userRoles == nil {
+		return false
+	}
 	tenantRoles := u.GetTenantRoles(tenantID)
 	for _, r := range tenantRoles {
-		if r.NamespaceID == namespaceID && r.ScopeID == scopeID {
+		if r.PrincipalID == "" && r.NamespaceID == namespaceID && r.ScopeID == scopeID {
 			return true
 		}
 	}
-- 
2.43.0


From e089e78267bf8f0170deb7665811aa98f5ef5dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:38 +0000
Subject: [PATCH 29/36] fix: v1 activities were granted from roles held in
 another namespace or scope

---
 v1/role_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 11d7ddb..9532d14 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -703,6 +703,9 @@ func (u *RoleManager) authorizeComplex(svr *Option, principalID string) bool {
 	}
 	roles := make(map[string]*Role)
 	for _, r := range principalRoles {
+		if (namespace != "" && r.NamespaceID != "" && r.NamespaceID != namespace) || (scope != "" && r.ScopeID != "" && r.ScopeID != scope) {
+			continue
+		}
 		if role, ex := u.roles.Get(r.RoleID); ex {
 			roles[r.RoleID] = role
 		}
-- 
2.43.0


From e023b73af0c5054055e14cddf5d4960527c96b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:09 +0000
Subject: [PATCH 30/36] fix: v1 roles given the same attribute group shared its
 permissions

---
 v1/role.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/v1/role.go b/v1/role.go
index b4ab22a..65a8200 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -140,7 +140,13 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 		return errors.New("changes not allowed")
 	}
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
-		r.permissions.Set(resourceGroup.id, resourceGroup)
+		// The role holds its own copy, later changes to either must not leak to the other
+		group := NewAttributeGroup(resourceGroup.id)
+		resourceGroup.permissions.ForEach(func(_ string, attr *Attribute) bool {
+			group.AddAttributes(attr)
+			return true
+		})
+		r.permissions.Set(resourceGroup.id, group)
 	}
 	return nil
 }
-- 
2.43.0


From ae1a4f1701192360d28bde2494d48916516cbb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:10 +0000
Subject: [PATCH 31/36] fix: v1 inherited permissions were ignored outside the
 role's own groups, cycles overflowed the stack

---
 v1/role.go   | 68 ++++++++++++++++++++++++++++++----------------------
 v1/tenant.go | 11 ++++++++-
 2 files changed, 49 insertions(+), 30 deletions(-)

diff --git a/v1/role.go b/v1/role.go
index 65a8200..d7f2b41 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -54,35 +54,20 @@ func (r *Role) Unlock() {
 }
 
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
-	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
-	if !ok || resourceGroupPermissions == nil {
-		return false
-	}
-	if _, ok := resourceGroupPermissions.permissions.Get(permissionName); ok {
-		return true
-	}
-	matched := false
-	resourceGroupPermissions.permissions.ForEach(func(perm string, _ *Attribute) bool {
-		if utils.MatchResource(permissionName, perm) {
-			matched = true
-			return false
-		}
-		return true
-	})
-	if matched {
+	if r.has(resourceGroup, permissionName) {
 		return true
 	}
 	totalD := len(allowedDescendants)
-	// Check inherited permissions recursively
+	// Check inherited permissions
 	for _, descendant := range r.GetDescendantRoles() {
 		if totalD > 0 {
 			if slices.Contains(allowedDescendants, descendant.id) {
-				if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
+				if descendant.has(resourceGroup, permissionName) {
 					return true
 				}
 			}
 		} else {
-			if descendant.Has(resourceGroup, permissionName, allowedDescendants...) {
+			if descendant.has(resourceGroup, permissionName) {
 				return true
 			}
 		}
@@ -90,11 +75,40 @@ func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...s
 	return false
 }
 
+// has checks the role's own permissions
+func (r *Role) has(resourceGroup, permissionName string) bool {
+	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
+	if !ok || resourceGroupPermissions == nil {
+		return false
+	}
+	if _, ok := resourceGroupPermissions.permissions.Get(permissionName); ok {
+		return true
+	}
+	matched := false
+	resourceGroupPermissions.permissions.ForEach(func(perm string, _ *Attribute) bool {
+		if utils.MatchResource(permissionName, perm) {
+			matched = true
+			return false
+		}
+		return true
+	})
+	return matched
+}
+
 func (r *Role) GetDescendantRoles() []*Role {
+	return r.descendantRoles(map[*Role]struct{}{r: {}})
+}
+
+// descendantRoles lists the descendants not seen yet, roles may be shared or inherit each other
+func (r *Role) descendantRoles(seen map[*Role]struct{}) []*Role {
 	var descendants []*Role
 	r.descendants.ForEach(func(_ string, child *Role) bool {
+		if _, ok := seen[child]; ok {
+			return true
+		}
+		seen[child] = struct{}{}
 		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantRoles()...)
+		descendants = append(descendants, child.descendantRoles(seen)...)
 		return true
 	})
 	return descendants
@@ -168,17 +182,13 @@ func (r *Role) GetAllImplicitPermissions(perm ...map[string][]Attribute) map[str
 	} else {
 		grpPermissions = make(map[string][]Attribute)
 	}
-	r.permissions.ForEach(func(resourceGroup string, grp *AttributeGroup) bool {
-		var permissions []Attribute
-		grp.permissions.ForEach(func(_ string, attr *Attribute) bool {
-			permissions = append(permissions, *attr)
-			return true
-		})
+	for resourceGroup, permissions := range r.GetPermissions() {
 		grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
-		return true
-	})
+	}
 	for _, descendant := range r.GetDescendantRoles() {
-		descendant.GetAllImplicitPermissions(grpPermissions)
+		for resourceGroup, permissions := range descendant.GetPermissions() {
+			grpPermissions[resourceGroup] = append(grpPermissions[resourceGroup], permissions...)
+		}
 	}
 	return grpPermissions
 }
diff --git a/v1/tenant.go b/v1/tenant.go
index 56e345d..13f30c5 100644
--- a/v1/tenant.go
+++ b/v1/tenant.go
@@ -19,10 +19,19 @@ func (c *Tenant) ID() string {
 }
 
 func (c *Tenant) GetDescendantTenants() []*Tenant {
+	return c.descendantTenants(map[*Tenant]struct{}{c: {}})
+}
+
+// descendantTenants lists the descendants not seen yet, tenants may be shared or contain each other
+func (c *Tenant) descendantTenants(seen map[*Tenant]struct{}) []*Tenant {
 	var descendants []*Tenant
 	c.descendants.ForEach(func(_ string, child *Tenant) bool {
+		if _, ok := seen[child]; ok {
+			return true
+		}
+		seen[child] = struct{}{}
 		descendants = append(descendants, child)
-		descendants = append(descendants, child.GetDescendantTenants()...)
+		descendants = append(descendants, child.descendantTenants(seen)...)
 		return true
 	})
 	return descendants
-- 
2.43.0


From aea601cef5923544554a61086330de8d11dbe744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:27 +0000
Subject: [PATCH 32/36] fix: a role without a name counted as allowed from the
 principal's second role on

---
 authorize.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/authorize.go b/authorize.go
index 30b9773..76f9e70 100644
--- a/authorize.go
+++ b/authorize.go
@@ -135,8 +135,10 @@ func (u *RoleManager) checkActivity(principalID string, svr *Option, tFlagProvid
 		return false
 	}
 
+	// Once only: Compact blanks what it cuts off, which would then be allowed as well
+	allowedRoles = slices.Compact(allowedRoles)
 	for _, role := range slices.Compact(roles) {
-		if r, exists := u.roles.Get(role); exists && r.Has(svr.activityGroup.(string), svr.activity.(string), slices.Compact(allowedRoles)...) {
+		if r, exists := u.roles.Get(role); exists && r.Has(svr.activityGroup.(string), svr.activity.(string), allowedRoles...) {
 			return true
 		}
 	}
-- 
2.43.0


From a440f7bae46bf899f54a9f8ed196a257887cb656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 33/36] fix: a role assigned during a question lets it inherit
 from every role

---
 authorize.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/authorize.go b/authorize.go
index 76f9e70..b01efd5 100644
--- a/authorize.go
+++ b/authorize.go
@@ -135,6 +135,8 @@ func (u *RoleManager) checkActivity(principalID string, svr *Option, tFlagProvid
 		return false
 	}
 
+	// Already among them, unless assigned meanwhile; never leave them empty, which allows all
+	allowedRoles = append(allowedRoles, roles...)
 	// Once only: Compact blanks what it cuts off, which would then be allowed as well
 	allowedRoles = slices.Compact(allowedRoles)
 	for _, role := range slices.Compact(roles) {
-- 
2.43.0


From 8c34c66bc8141f7dadd404818a2f5c7b5dd7398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:13 +0000
Subject: [PATCH 34/36] fix: Union and Intersection took distinct records for
 one another

Serialize joined names and values without quoting or types, so records
with a separator in a text, or a number in one and the same digits as
text in another, got the same key: Union dropped one, Intersection
reported a member that is not in the first list.
---
 utils/str.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index b386a9d..efc6fcf 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -167,7 +167,8 @@ func Serialize[T any](item T) string {
 		})
 		var builder strings.Builder
 		for _, k := range keys {
-			builder.WriteString(fmt.Sprintf("%s:%v|", k, v.MapIndex(k)))
+			value := v.MapIndex(k).Interface()
+			builder.WriteString(fmt.Sprintf("%q:%T=%#v|", k, value, value))
 		}
 		return builder.String()
 	}
@@ -175,7 +176,8 @@ func Serialize[T any](item T) string {
 	var builder strings.Builder
 	t := v.Type()
 	for i := 0; i < v.NumField(); i++ {
-		builder.WriteString(fmt.Sprintf("%s:%v|", t.Field(i).Name, v.Field(i).Interface()))
+		value := v.Field(i).Interface()
+		builder.WriteString(fmt.Sprintf("%s:%T=%#v|", t.Field(i).Name, value, value))
 	}
 
 	return builder.String()
-- 
2.43.0


From 91eb3f320ae0b2ebcad6cadfb3b9d04306d13eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:40 +0000
Subject: [PATCH 35/36] fix: passing a default namespace on raced with
 assignments in the tenant below

AddDescendant writes the default namespace of the tenant placed below
another while assignments in that tenant read it.
---
 tenant.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tenant.go b/tenant.go
index bc33fa1..9c56191 100644
--- a/tenant.go
+++ b/tenant.go
@@ -2,6 +2,7 @@ package permission
 
 import (
 	"errors"
+	"sync/atomic"
 
 	maps "github.com/oarkflow/xsync"
 )
@@ -14,7 +15,7 @@ func WithTenant(tenant any) func(*Option) {
 
 type Tenant struct {
 	descendants      maps.IMap[string, *Tenant]
-	defaultNamespace *Namespace
+	defaultNamespace atomic.Pointer[Namespace]
 	manager          *RoleManager
 	id               string
 }
@@ -49,9 +50,9 @@ func (c *Tenant) getDescendants(seen map[*Tenant]struct{}) (data []any) {
 func (c *Tenant) AddDescendant(descendants ...*Tenant) error {
 	for _, descendant := range descendants {
 		c.descendants.GetOrSet(descendant.id, descendant)
-		if c.defaultNamespace != nil {
-			descendant.AddNamespace(c.defaultNamespace)
-			descendant.SetDefaultNamespace(c.defaultNamespace.id)
+		if defaultNamespace := c.defaultNamespace.Load(); defaultNamespace != nil {
+			descendant.AddNamespace(defaultNamespace)
+			descendant.SetDefaultNamespace(defaultNamespace.id)
 		}
 	}
 	return nil
@@ -69,7 +70,7 @@ func (c *Tenant) AddScopesToNamespace(namespaceID, scopeID string) {
 
 func (c *Tenant) SetDefaultNamespace(nms string) {
 	if n, ok := c.manager.namespaces.Get(nms); ok {
-		c.defaultNamespace = n
+		c.defaultNamespace.Store(n)
 	}
 }
 
@@ -107,8 +108,8 @@ func (c *Tenant) AddPrincipalWithRole(principalID, roleID string, manageDescenda
 		return errors.New("no role available")
 	}
 	c.manager.AddData(&Data{Tenant: c.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
-	if c.defaultNamespace != nil {
-		c.manager.AddData(&Data{Tenant: c.id, Namespace: c.defaultNamespace.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
+	if defaultNamespace := c.defaultNamespace.Load(); defaultNamespace != nil {
+		c.manager.AddData(&Data{Tenant: c.id, Namespace: defaultNamespace.id, Principal: principalID, Role: roleID, ManageDescendants: manageDescendants})
 	}
 	return nil
 }
@@ -131,8 +132,8 @@ func (c *Tenant) AddScopeToPrincipal(principalID, scopeID string, manageDescenda
 		return errors.New("no scope available")
 	}
 	c.manager.AddData(&Data{Tenant: c.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
-	if c.defaultNamespace != nil {
-		c.manager.AddData(&Data{Tenant: c.id, Namespace: c.defaultNamespace.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
+	if defaultNamespace := c.defaultNamespace.Load(); defaultNamespace != nil {
+		c.manager.AddData(&Data{Tenant: c.id, Namespace: defaultNamespace.id, Scope: scopeID, Principal: principalID, ManageDescendants: manageDescendants})
 	}
 	return nil
 }
-- 
2.43.0


From 070d7899c79fe9ac080495d23e02409ba2b326bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:53 +0000
Subject: [PATCH 36/36] fix: one tenant registered by two goroutines at once
 was a data race

---
 role_manager.go | 2 ++
 tenant.go       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/role_manager.go b/role_manager.go
index 436627b..f0a3ace 100644
--- a/role_manager.go
+++ b/role_manager.go
@@ -2,6 +2,7 @@ package permission
 
 import (
 	"encoding/json"
+	"sync"
 
 	maps "github.com/oarkflow/xsync"
 
@@ -18,6 +19,7 @@ type RoleManager struct {
 	attributes      maps.IMap[string, *Attribute]
 	attributeGroups maps.IMap[string, *AttributeGroup]
 	trie            *trie.Trie[Data]
+	m               sync.Mutex // guards the manager of tenants being registered
 }
 
 func New() *RoleManager {
diff --git a/tenant.go b/tenant.go
index 9c56191..5c9d352 100644
--- a/tenant.go
+++ b/tenant.go
@@ -149,9 +149,11 @@ func (c *Tenant) AssignScopesToPrincipal(principalID string, manageDescendants b
 }
 
 func (u *RoleManager) AddTenant(data *Tenant) *Tenant {
+	u.m.Lock()
 	if data.manager != u {
 		data.manager = u
 	}
+	u.m.Unlock()
 	if d, ok := u.tenants.Get(data.id); ok {
 		return d
 	}
-- 
2.43.0

