#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the single list below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=(), race=False):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, observe=observe, technique=technique, note=note, state=list(state))

PROPS = [
P("C01", "v2: Authorize grants exactly what the policy entitles",
  "With the v2 authorizer a request is granted exactly when, in one of the tenants it targets, an unexpired assignment of that same principal, bound neither to another namespace nor to another scope, gives a role whose own or inherited permissions match the requested resource and action; everything else (unknown tenant, namespace, scope or principal, empty resource and action) is denied. The target is the named tenant, else the configured default tenant, else every tenant the principal has an assignment in; the namespace is the named one, else the tenant's default, else its only one, and it must exist in that tenant and contain the scope if one is named. Assignments bound to the requested scope, when they yield any permission, take the place of unscoped ones, and a principal that manages the children of a tenant also brings the assignments it holds in those child tenants, level by level.",
  ["inputs", "configurations", "histories"],
  "every policy (tenants with hierarchies, namespaces, scopes, role graphs, permissions, assignments) and every request",
  "The v2 tests try eight requests on one tenant with one role; the decision depends on seven interacting dimensions (tenant choice, namespace defaulting, scope precedence, child tenants, role graph, patterns, expiry).",
  ["v2/v2.go", "v2/role.go", "v2/init.go", "v2/entities.go"],
  [("Authorize", "v2/v2.go"), ("resolvePrincipalPermissions", "v2/v2.go"), ("findTargetTenants", "v2/v2.go"), ("ResolvePermissions", "v2/role.go")],
  ["Authorizer.Authorize return value"],
  "runtime monitor: online reference-model oracle over randomized hostile policies",
  "Held on the sampled policies and requests; trusts the 120-line reference model, which is written from the statement and shares no code with the repository."),
P("C02", "v2: Can answers exactly whether the principal holds a role",
  "With the v2 authorizer, asking whether a principal can act in any of a list of roles is answered yes exactly when, in one of the tenants the request targets, an unexpired assignment of that principal, bound neither to another namespace nor (when the request names a scope) to another scope, gives one of those roles or a role that inherits one of them. Tenant targeting, namespace defaulting, scope validity and child-tenant management work as for permission checks, the answer does not depend on which permission or role questions were asked before, and the list of roles asked about is left as it was given.",
  ["inputs", "configurations", "histories"],
  "every policy, every request and role list, every history of earlier questions",
  "No test calls the role question at all.",
  ["v2/v2.go", "v2/role.go"],
  [("Can", "v2/v2.go"), ("resolvePrincipalRoles", "v2/v2.go"), ("ResolveChildRoles", "v2/role.go")],
  ["Authorizer.Can return value"],
  "runtime monitor: online reference-model oracle over randomized hostile policies, role and permission questions interleaved",
  "Held on the sampled policies and questions; trusts the reference model."),
P("C03", "v2: removing assignments removes exactly the matching ones, at once",
  "Removing assignments by a partial description removes every assignment that agrees with all the non-empty fields given (principal, tenant, namespace, scope, role) and no other, and reports an error exactly when none matches, in which case nothing changes. From then on every permission and role decision is the one a freshly built authorizer holding only the surviving assignments would give, whatever sequence of additions, removals and decisions came before.",
  ["histories", "inputs"],
  "every interleaved sequence of adding assignments, removing by any partial description, and asking for decisions",
  "No test removes an assignment.",
  ["v2/v2.go"],
  [("RemovePrincipalRole", "v2/v2.go"), ("AddPrincipalRole", "v2/v2.go")],
  ["RemovePrincipalRole error", "Authorize/Can after every step"],
  "runtime monitor: history checker, differential against a freshly rebuilt authorizer after every step",
  "Held on the sampled histories; decisions are compared with the same code rebuilt from the surviving assignments, so only revocation is judged."),
P("C04", "v2: role graph stays acyclic and resolution is complete and current",
  "Adding child roles, however deep and shared the graph, ends at once and is refused with an error exactly when it would make a role its own ancestor, and then leaves the role graph unchanged; shared descendants (diamonds) and repeated edges are accepted. The permissions and roles resolved for a role are exactly those of the registered roles reachable from it through registered roles, as they stand at that moment: any later registration, edge, permission grant or permission removal shows in the very next resolution and decision.",
  ["histories", "inputs", "configurations"],
  "every history of role registrations, child edges, permission additions and removals, resolutions and decisions",
  "The test named for circular roles builds an empty authorizer; no test changes a role after the first decision.",
  ["v2/role.go"],
  [("AddChildRole", "v2/role.go"), ("checkCircularDependency", "v2/role.go"), ("ResolvePermissions", "v2/role.go"), ("ResolveChildRoles", "v2/role.go")],
  ["AddChildRole error", "ResolvePermissions/ResolveChildRoles results", "Authorize/Can"],
  "runtime monitor: history checker with a reference role graph, checked after every mutation",
  "Held on the sampled histories; trusts the reference graph (reachability by BFS)."),
P("C05", "v2: an expired assignment confers nothing, an unexpired one everything",
  "An assignment with an expiry takes part in decisions as if it had none up to that instant, and after it as if it did not exist: no permission, no role and no management of child tenants. Setting an expiry in the past by time is refused and changes nothing, setting it by duration makes it now plus that duration (given as a duration or as text), a malformed text is reported as an error and leaves the expiry as it was, clearing the expiry makes the assignment permanent again, and none of this touches the expiry of any other assignment.",
  ["inputs", "histories", "configurations"],
  "every expiry, every clock position relative to it, every policy and every history of setting and clearing expiries",
  "No test sets an expiry; wall-clock tests cannot place decisions a nanosecond before and after an instant.",
  ["v2/v2.go"],
  [("IsExpired", "v2/v2.go"), ("SetExpiry", "v2/v2.go"), ("SetExpiryDuration", "v2/v2.go"), ("resolvePrincipalPermissions", "v2/v2.go"), ("resolvePrincipalRoles", "v2/v2.go")],
  ["Authorize/Can at virtual instants around each expiry"],
  "runtime monitor under a virtual clock (testing/synctest): metamorphic comparison with expired assignments deleted and unexpired ones made permanent",
  "Held on the sampled policies and instants; the instant of expiry itself is not judged. The clock is virtual, so no wall-clock reading decides."),
P("C06", "v2: concurrent decisions and changes are race-free and consistent",
  "Decisions, role and tenant registrations, permission changes, assignment additions and removals may run at the same time from many goroutines without a data race, crash or deadlock. A decision whose grounds stand throughout the call is granted and one for which no assignment, role and permission giving it stand at any moment of the call is denied, whatever else changes meanwhile; it never uses permissions or roles of another principal's simultaneous request. Additions, removals and decisions about one assignment, permission, role, child edge, tenant, namespace or scope behave as if executed one at a time and none is lost, a grant passed on to another assignment of the principal, added before the old one is removed, is never interrupted, and racing child-role additions never close a cycle together.",
  ["schedules", "histories"],
  "every interleaving of concurrent decisions and policy changes on one authorizer, its roles and tenants",
  "All tests are single-threaded.",
  ["v2/v2.go", "v2/role.go", "v2/init.go"],
  [("locking of policy state", "v2/v2.go"), ("locking of the role graph", "v2/role.go"), ("scratch-map pools", "v2/v2.go")],
  ["call/return events of every operation, race detector reports"],
  "Go race detector + offline linearizability check (porcupine) of recorded call/return histories, plus cross-principal bleed monitor with unique permissions",
  "Held on the recorded interleavings; schedules come from stress and yields, not enumeration."),
P("C07", "v2: every decision leaves one truthful audit record",
  "With an audit logger attached, each permission or role decision emits exactly one outcome record, saying granted when the answer was yes and failed otherwise, as its last record, carrying the request's non-empty principal, tenant, namespace, scope, resource and action unchanged. Attaching a logger never changes a decision, and a logger may itself call back into the authorizer without blocking.",
  ["inputs", "configurations", "schedules"],
  "every policy and request, with and without a logger, sequentially and concurrently",
  "No test attaches a logger.",
  ["v2/v2.go"],
  [("Log", "v2/v2.go"), ("Authorize", "v2/v2.go"), ("Can", "v2/v2.go")],
  ["slog records emitted during each call"],
  "runtime monitor: slog handler as trace hook, online checker pairing each call with its records",
  "Held on the sampled decisions; the message words granted/failed identify the outcome."),
P("C08", "v2: a tenant that is not active authorizes nothing",
  "While a tenant is inactive, pending, blocked or banned, no permission or role request is granted on the strength of assignments in it, whether it is named, is the default, is found through the principal or is reached as a managed child; and nothing below it is reached through it. Decisions that rest only on active tenants are unaffected, and making the tenant active again restores the earlier answers.",
  ["inputs", "configurations", "histories"],
  "every policy, every assignment of statuses to tenants, every request",
  "No test sets a status.",
  ["v2/v2.go", "v2/entities.go"],
  [("findPrincipalTenants", "v2/v2.go"), ("resolvePrincipalPermissions", "v2/v2.go"), ("resolvePrincipalRoles", "v2/v2.go")],
  ["Authorize/Can under every status assignment"],
  "runtime monitor: metamorphic comparison with a policy from which inactive tenants' assignments and children are deleted",
  "Held on the sampled policies."),
P("C09", "Permission patterns match exactly the requests they describe",
  "A permission pattern matches a request when resource and action match completely: a colon parameter stands for the non-empty rest of one path segment and never crosses a slash or reaches into the action, a star stands for any run of characters including none, every other character stands for itself. The match always terminates, quickly, for every pattern and value, and every place that checks a permission (all three generations) applies the same rule.",
  ["inputs"],
  "every pattern and every value",
  "Tests use a handful of literal resources and never a star or a trailing parameter.",
  ["utils/str.go", "v2/v2.go", "role.go", "v1/role.go"],
  [("MatchResource", "utils/str.go"), ("matchPermission", "v2/v2.go"), ("Has", "role.go"), ("Has", "v1/role.go")],
  ["match result, CPU time per match"],
  "runtime monitor: independent dynamic-programming matcher as oracle, exhaustive over a small alphabet plus mutated realistic patterns, CPU-time watchdog for termination",
  "Exhaustive for short patterns and values over the special characters; sampled beyond. Resources and actions containing spaces are outside the statement at the decision level."),
P("C10", "Root: tenants are isolated from each other",
  "With the root package's manager, a request naming a tenant is never granted to a principal that has no assignment in that tenant and none, made with the option to manage descendants, in a tenant above it. Nothing registered, attached or assigned in tenants other than the named one and the managed ones above it (namespaces, scopes, roles, other principals' or the principal's own assignments there) can turn a denial into a grant.",
  ["inputs", "configurations", "histories"],
  "every set of tenants, hierarchies and assignments, every request naming a tenant",
  "The root package has no tests, only a benchmark.",
  ["authorize.go", "filters.go", "query.go", "tenant.go"],
  [("Authorize", "authorize.go"), ("role filters", "filters.go"), ("GetImplicitTenants", "query.go")],
  ["RoleManager.Authorize return value"],
  "runtime monitor: non-interference (metamorphic) monitor - the same request on policies that differ only in unrelated tenants",
  "Held on the sampled policies and perturbations."),
P("C11", "Root: membership questions are answered exactly",
  "Without an activity, the root manager says yes to a tenant exactly when the principal is assigned in it, or in a tenant above it with the option to manage descendants (\"managed\"); to a tenant with a namespace or scope exactly when moreover that tenant, or such a managed tenant above, offers it - to everyone, or to this principal by an assignment not bound to another requested namespace. Without a tenant, a namespace and scope are asked of all tenants the principal is assigned in. Unregistered principals, tenants, namespaces or scopes, and questions naming only an activity or only its group, are always answered no.",
  ["inputs", "configurations"],
  "every policy built through the API and every combination of tenant, namespace and scope",
  "The root package has no tests.",
  ["authorize.go", "filters.go", "query.go"],
  [("checkNoActivity", "authorize.go"), ("validateResources", "authorize.go"), ("scope and namespace filters", "filters.go")],
  ["RoleManager.Authorize return value"],
  "runtime monitor: online reference-model oracle over randomized policies with identifiers shared across kinds",
  "Held on the sampled policies; trusts the reference model."),
P("C12", "Root: activity decisions are granted exactly to entitled roles",
  "With an activity group and activity, the root manager grants exactly when the principal holds, in the named tenant or in a tenant above it that it manages with descendants, a role not bound to a different namespace or scope than the ones asked for, and that role, or one of its descendant roles that is attached or assigned in that same tenant, has a permission in that group matching the activity. The roles other principals hold never count for this principal, a role counts whether it is locked or not, and without a tenant the tenants the principal is assigned in are considered together.",
  ["inputs", "configurations"],
  "every policy built through the API, every request with an activity",
  "The root package has no tests; the benchmark never passes an activity.",
  ["authorize.go", "filters.go", "role.go", "query.go"],
  [("checkActivity", "authorize.go"), ("collectRoles*", "authorize.go"), ("role filters", "filters.go"), ("Has", "role.go")],
  ["RoleManager.Authorize return value"],
  "runtime monitor: online reference-model oracle over randomized policies with identifiers shared across kinds",
  "Held on the sampled policies; trusts the reference model."),
P("C13", "Root: decisions depend on the current policy, not on earlier questions",
  "Asking questions never changes later answers: after any history of registrations, attachments, assignments, hierarchy changes, role changes and questions, every decision and listing is the one a fresh manager given only the changes would give. Repeating a question without changes in between repeats the answer.",
  ["histories"],
  "every interleaving of policy changes and questions",
  "No test asks a question before a change.",
  ["query.go", "role_manager.go", "tenant.go"],
  [("GetImplicitTenants", "query.go"), ("TenantChildren", "role_manager.go")],
  ["Authorize and listings after every step"],
  "runtime monitor: history checker, differential against a fresh manager replaying only the mutations",
  "Held on the sampled histories."),
P("C14", "The assignment store keeps every distinct row and finds exactly the matches",
  "After any sequence of insertions the prefix-tree store holds exactly one row, the latest, for each distinct sequence of field values - rows that differ in any field, including which field holds a value and which is empty, never replace one another. A search returns exactly the rows the filter accepts, a first-match search returns such a row whenever one exists and nothing otherwise, and listing returns them all; what a search has returned is not changed by later insertions and searches.",
  ["histories", "inputs"],
  "every sequence of insertions (any mix of empty and filled fields, shared identifiers, repeated rows) and every filter",
  "The store's only test file is a benchmark inserting one row.",
  ["trie/trie.go", "filters.go"],
  [("Insert", "trie/trie.go"), ("search", "trie/trie.go"), ("DataKeyExtractor", "filters.go"), ("FilterFunc", "filters.go")],
  ["Search/SearchFunc/First/FirstFunc/Data results"],
  "runtime monitor: shadow-map oracle checked after every insertion, exhaustive over small row spaces plus random ones",
  "Exhaustive for pairs of rows over a small value set; sampled beyond."),
P("C15", "Roles hold their own and all inherited permissions, whatever the role graph",
  "A role (root package and v1) has a permission in a group exactly when it or one of its direct or indirect descendant roles - restricted to a given non-empty list of allowed descendants if there is one - holds a matching attribute in that group, even when the role itself has nothing in that group. Its listings of descendants and implicit permissions agree with this, and all of them terminate for every role graph, including shared and mutually inheriting roles and deep chains; the same holds for tenant hierarchies.",
  ["inputs", "configurations", "programs"],
  "every role graph (chains, diamonds, cycles, self-loops), every placement of permissions in groups, every allowed list; every tenant graph",
  "No test adds a descendant role or tenant and asks anything.",
  ["role.go", "v1/role.go", "tenant.go", "v1/tenant.go", "permission.go"],
  [("Has", "role.go"), ("GetDescendantRoles", "role.go"), ("GetAllImplicitPermissions", "role.go"), ("Has", "v1/role.go"), ("GetDescendants", "tenant.go")],
  ["Has, GetDescendantRoles, GetAllImplicitPermissions, GetPermissions, GetRolesForAvailablePermissions"],
  "runtime monitor: graph-reachability oracle over random and adversarial graphs, stack and CPU watchdogs for termination",
  "Held on the sampled graphs; termination judged by a generous CPU-time bound."),
P("C16", "A role's permissions change only through that role, and never while locked",
  "While a role (root package and v1) is locked, every attempt to add a permission, permission group or descendant to it returns an error and leaves it unchanged; after unlocking, changes take effect again. Adding permissions to one role or to a group never changes what another role, even one given the same group, already holds, and permissions added through the manager are refused as a whole, with an error, when the role or group is unknown or any attribute is not in the group.",
  ["histories", "inputs"],
  "every history of permission, group, descendant, lock and unlock operations over several roles sharing groups",
  "No test locks a role, shares a group or provokes an error.",
  ["role.go", "v1/role.go", "v1/role_manager.go"],
  [("lock checks", "role.go"), ("AddPermissionResourceGroup", "role.go"), ("AddPermissionsToRole", "role.go"), ("AddPermissionsToRole", "v1/role_manager.go")],
  ["GetPermissions of every role after every step, returned errors"],
  "runtime monitor: history checker with a shadow permission map per role, compared for all roles after every step",
  "Held on the sampled histories."),
P("C17", "Registering is idempotent and registries report what was registered",
  "Registering an entity (tenant, namespace, scope, principal, role, attribute, attribute group; root package and v1) under an identifier already taken returns the first one and changes nothing, so every caller shares one canonical object. Lookups, listings, totals and the summary (as value, map and text) always reflect exactly the distinct identifiers registered, whatever the number, order and spelling.",
  ["histories", "inputs"],
  "every sequence of registrations with any identifiers",
  "Tests register one entity of each kind once.",
  ["permission.go", "tenant.go", "principal.go", "namespace.go", "scope.go", "activity.go", "activity_group.go", "role_manager.go", "v1/role_manager.go"],
  [("Add*/Get*/Total*", "role_manager.go"), ("Add*/Get*/Total*", "v1/role_manager.go")],
  ["returned pointers, listings, totals, Summary/SummaryMap/String"],
  "runtime monitor: shadow-set oracle after every registration",
  "Held on the sampled sequences (up to thousands of identifiers, forcing map growth)."),
P("C18", "Root: concurrent use loses nothing and stays consistent",
  "Registrations, attachments, assignments, role permission and hierarchy changes, questions and listings on one root manager may run at the same time from many goroutines without a data race, crash or deadlock. No completed registration, assignment or permission is lost, all racing registrations of one identifier get the same object, and a grant whose grounds were complete before the question started is always given while one that never had grounds is never given.",
  ["schedules", "histories"],
  "every interleaving of concurrent policy changes and questions",
  "All tests are single-threaded.",
  ["trie/trie.go", "role.go", "permission.go", "tenant.go", "principal.go", "query.go"],
  [("addChild", "trie/trie.go"), ("Insert", "trie/trie.go"), ("AddPermission", "role.go"), ("Add*", "permission.go")],
  ["call/return events, race detector reports, final contents"],
  "Go race detector + recorded-history checker (no-loss, canonical object, grant monotonicity) with yields injected through search callbacks",
  "Held on the recorded interleavings. Default-namespace switching is configuration and not exercised concurrently."),
P("C19", "v1: a principal is authorized only where it is assigned",
  "The v1 manager grants a request naming a tenant only to a registered principal assigned in that tenant; a namespace and/or scope with it is granted exactly when an assignment of this principal in that tenant carries them (or, for a namespace and scope together, the tenant itself offers that scope in that namespace), never because of another principal's assignment. An activity is granted only if a role the principal holds in that tenant, by an assignment not bound to another namespace or scope than the ones asked for, itself or through descendants has a matching permission in the named group, and always if such a role has it itself. An activity in a namespace or scope foreign to the tenant is denied; without a tenant, a namespace or scope (or both) is granted exactly when one of the tenants the principal is assigned in has the namespace, an assignment of the principal in a tenant that has the scope carries it, or (both) one assignment carries both. An activity without a tenant is denied when anything else is named with it, and alone is granted only for a role the principal holds that has it, itself or through descendants, in the unnamed group. What a request names may be given as text, as bytes or as a value with a text of its own.",
  ["inputs", "configurations"],
  "every policy built through the API and every combination of options",
  "v1 tests print one decision and check one tenant-only grant.",
  ["v1/role_manager.go", "v1/tenant.go"],
  [("Authorize", "v1/role_manager.go"), ("authorizeFor*", "v1/role_manager.go"), ("authorizeComplex", "v1/role_manager.go")],
  ["RoleManager.Authorize return value"],
  "runtime monitor: reference oracle (exact for membership, two-sided bounds for activities) over randomized policies",
  "Held on the sampled policies; activities granted only through descendants are judged from above only."),
P("C20", "v1: assignment listings report exactly the assignments made",
  "Whatever characters identifiers contain, the v1 manager's listings (roles, permissions, scopes and tenants of a principal, roles of a tenant, implicit roles across direct child tenants) report exactly the assignments made for that principal and tenant, with each field as given and no principal's assignments shown as another's. Making the same assignment again adds nothing, and tenants of a principal are listed once each.",
  ["inputs", "histories"],
  "every set of assignments over arbitrary identifier strings, including ones containing separators",
  "Tests use one assignment with plain identifiers.",
  ["v1/role_manager.go", "v1/tenant.go"],
  [("AddPrincipalRole", "v1/role_manager.go"), ("GetPrincipalRoles", "v1/role_manager.go"), ("GetImplicitPrincipalRoles", "v1/role_manager.go")],
  ["listing results compared as sets after every step"],
  "runtime monitor: shadow-set oracle over hostile identifiers",
  "Held on the sampled assignments."),
P("C21", "Root: listings agree with the assignments",
  "Every listing of the root manager (tenants, namespaces, scopes and roles by principal, tenant, namespace or scope; implicit tenants; descendants) reports exactly the rows its question describes, as the assignments, attachments and hierarchy stand. The listing of a principal's scopes with roles never shows a role the principal does not hold in the tenant asked about (or, if it has no assignment there, in a tenant above that it manages), nor a scope that is neither one of that tenant (of the namespace asked about, when that has any there) nor one the principal is itself assigned a role in, and shows every scope of that tenant (of the namespace asked about, when it has any there) with each tenant-wide role the principal holds there.",
  ["inputs", "configurations"],
  "every policy and every listing call",
  "The root package has no tests.",
  ["query.go", "filters.go", "activity_group.go", "role_manager.go"],
  [("query functions", "query.go"), ("filters", "filters.go"), ("GetScopesWithRolesForPrincipal", "activity_group.go")],
  ["listing results compared as sets"],
  "runtime monitor: relational oracle (scan of a shadow row list) over randomized policies",
  "Held on the sampled policies."),
P("C22", "The linked list is persistent and keeps order",
  "Appending to or concatenating lists never changes a list built earlier, however lists are shared; flattening a list yields its elements in the order they were appended and concatenated, an empty list is the identity of concatenation, and a list is empty exactly when it flattens to nothing. Changing a flattened slice never changes any list.",
  ["histories", "inputs"],
  "every tree of append and concatenate operations with arbitrary sharing",
  "There is no test of the list.",
  ["ds/ds.go"],
  [("Append/Concat/AsSlice", "ds/ds.go")],
  ["AsSlice/IsEmpty of every list ever built, after every step"],
  "runtime monitor: shadow-slice oracle re-checked for all earlier versions after every operation",
  "Held on the sampled histories."),
P("C23", "v1: concurrent questions do not disturb each other",
  "Any number of goroutines may ask a v1 manager whose policy is not changing for decisions, allowed roles and listings at the same time: there is no data race and every answer is the one given when asked alone. A list of allowed roles, once returned, never changes because of later or simultaneous questions.",
  ["schedules", "histories"],
  "every interleaving of concurrent questions; every later question",
  "All tests are single-threaded and keep no result across calls.",
  ["v1/role_manager.go", "v1/util.go", "utils/pool.go"],
  [("GetAllowedRoles", "v1/role_manager.go"), ("slice pools", "v1/util.go")],
  ["answers compared with the sequential baseline, retained results re-checked, race detector"],
  "Go race detector + differential against sequential answers + retained-result monitor",
  "Held on the recorded interleavings."),
P("C24", "Root and v1: namespace defaults reach exactly the right assignments",
  "Once a tenant (root package and v1) has a default namespace, every later role or scope assignment made in that tenant without a namespace also takes effect in that namespace, and assignments made before are untouched; naming an unknown namespace as default changes nothing. In the root package tenants placed below it from then on get the namespace and the same default, and in v2 a tenant created or extended with a default namespace uses it whenever a request names none.",
  ["histories", "configurations"],
  "every order of setting defaults, placing tenants below each other and assigning",
  "No test sets a default namespace in the root package or v1.",
  ["tenant.go", "v1/tenant.go", "v2/role.go", "v2/entities.go"],
  [("SetDefaultNamespace", "tenant.go"), ("AddDescendant", "tenant.go"), ("AddPrincipalWithRole", "tenant.go"), ("AddPrincipal", "v1/tenant.go"), ("AddNamespace", "v2/role.go")],
  ["stored rows after every step, decisions"],
  "runtime monitor: history checker with a shadow row set compared after every step",
  "Held on the sampled histories."),
P("C25", "Set and join helpers obey their algebra",
  "Removing duplicates keeps the first occurrence of every value in order, membership is exact, joining two lists yields one combined item per matching pair in order, intersection and union of lists of flat records yield, respectively, the members of the second list found in the first and the first list followed by the members of the second not in it; none of them changes its arguments. Text conversion is lossless for text and bytes, the text of an attribute is its resource, the delimiter and its action, and matching by fields accepts exactly rows whose every chosen field is present and equal; the identifiers of a list of rows are each distinct value once, in order of first occurrence; a pooled slice arrives empty and is never in two hands at once.",
  ["inputs"],
  "every input list of comparable values or flat records",
  "There is no test of the helpers.",
  ["utils/str.go", "utils/filters.go", "utils/pool.go"],
  [("Compact", "utils/str.go"), ("Intersection/Union", "utils/str.go"), ("JoinSlices", "utils/filters.go")],
  ["helper results"],
  "runtime monitor: naive set-algebra oracle over random inputs",
  "Held on the sampled inputs; records whose field text contains the characters : or | are outside."),
P("C26", "v1: allowed roles, and the activities inherited through them",
  "With the v1 manager, the roles allowed for a principal's assignments in a tenant, in a namespace and scope asked about (each may be left open), are none unless the tenant is registered and has the namespace and the scope that are named, the scope named is one of the namespace's own wherever that has any, and the assignments include a tenant-wide one or one bound to that scope. Otherwise they are the namespace's own roles or, where it has none, the roles assigned tenant-wide, together with the roles assigned in exactly that namespace and scope; and none at all if one of these is not a role of the tenant. An activity asked for in a tenant is granted exactly when a role the principal holds there, by an assignment not bound to another namespace or scope, has it itself or inherits it from a role that is allowed (from any role, when none is allowed); asked for alone, exactly when a registered role allowed in one of the principal's tenants has it in the unnamed group, itself or from another role so allowed. Roles count whether they are locked or not, and the assignments asked about are left as they were given.",
  ["inputs", "configurations", "histories"],
  "every history of attaching and assigning, every principal, tenant, namespace, scope and activity",
  "v1 tests never ask for allowed roles; the rule combines the registries of tenant and namespace with five kinds of assignment.",
  ["v1/role_manager.go", "v1/tenant.go", "v1/role.go"],
  [("GetAllowedRoles", "v1/role_manager.go"), ("authorizeComplex", "v1/role_manager.go"), ("authorizeForActivity", "v1/role_manager.go")],
  ["GetAllowedRoles result as a set", "RoleManager.Authorize return value"],
  "runtime monitor: exact reference oracle over randomized policies",
  "Held on the sampled policies; the list is compared as a set. That an empty list lets every inherited activity through is the behaviour as found."),
P("C27", "v2: every set-up step takes effect at once and exactly as given",
  "Whatever sequence of steps built a v2 policy (registering tenants and roles, again under the same identifier too, adding namespaces, scopes, child tenants, permissions, child roles and assignments, removing permissions and assignments, changing statuses, choosing default namespaces and the default tenant), with decisions and lookups asked in between, every decision follows from the policy as built so far, including for questions asked before. Looking up a tenant or role returns the one registered last under that identifier, with all it was given, and nothing for one never registered; the default tenant is the one chosen last, if it is registered; declaring a namespace again keeps its scopes; and adding a scope to a namespace the tenant does not have is an error that changes nothing.",
  ["histories", "inputs", "configurations"],
  "every history of set-up steps, decisions and lookups",
  "The v2 tests build one policy, completely, before the first decision.",
  ["v2/v2.go", "v2/role.go", "v2/init.go"],
  [("AddTenant/GetTenant", "v2/init.go"), ("AddNamespace", "v2/role.go"), ("AddScopeToNamespace", "v2/role.go"), ("AddChildTenant", "v2/role.go"), ("SetDefaultTenant", "v2/v2.go")],
  ["Authorize/Can, GetTenant/GetRole/GetDefaultTenant after every step"],
  "runtime monitor: history checker with a reference model, earlier questions asked again after every step",
  "Held on the sampled histories; when a tenant is registered again its parents are given the new one before the next decision."),
P("C28", "Separate managers and authorizers do not influence each other",
  "Any number of managers of the root package and of v1 and of authorizers of v2 may live in one process, of one kind or of several, each built from objects of its own, with the same tenant, namespace, scope, role, principal and attribute identifiers in them. Each gives exactly the answers of its own policy and holds only what was put into it, whatever is done to the others, whether they are used in turns or at the same time, each by a goroutine of its own; using different ones at the same time is free of data races.",
  ["histories", "schedules", "configurations"],
  "every set of managers, every interleaving of their use",
  "The tests use one manager at a time, and never two over the same identifiers.",
  ["role_manager.go", "v1/role_manager.go", "v2/v2.go", "v2/role.go"],
  [("New", "role_manager.go"), ("New", "v1/role_manager.go"), ("NewAuthorizer", "v2/v2.go")],
  ["Authorize/Can and GetAllowedRoles of each manager, race reports"],
  "runtime monitor: race detector plus one reference model per manager, managers over the same identifiers used in turns and at once",
  "Held on the sampled sets and interleavings; a manager is used by one goroutine here, sharing one is C06, C18 and C23."),
]

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"],
                                  mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                  observe_at=p["observe"], hook_needed=None))
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(o, ensure_ascii=False) + "\n")
    fh = os.path.join(ROOT, "tools", "built.json")
    built = json.load(open(fh)) if os.path.exists(fh) else []
    checks = []
    for p in PROPS:
        if p["id"] not in built: continue
        checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}",
                           thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
                           technique=p["technique"], level="exploration", level_note=p["note"]))
    na = [dict(property=p["id"], reason="check not built yet") for p in PROPS if p["id"] not in built]
    m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
             notes="All checks build /verif/harness against /repo's working tree through its public API; no hooks in /repo are needed.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
