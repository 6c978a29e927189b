From 8d90997237727eb77eb7c19502f8e255326d8f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:32 +0000
Subject: [PATCH 01/52] fix: serialize processing chains that modify the same
 records

Chains load a record, modify it and save it.  Two of them working on the
same record at once lost one of the acknowledged changes: a lock could be
undone by a concurrent authentication, two creations of one name both
succeeded, two creations got the same automatic number, and two rule
additions could form a cycle together.
---
 internal/tree/entity-chains.go |  2 ++
 internal/tree/group-chains.go  |  2 ++
 internal/tree/locks.go         | 57 ++++++++++++++++++++++++++++++++++
 internal/tree/type.go          |  3 ++
 4 files changed, 64 insertions(+)
 create mode 100644 internal/tree/locks.go

diff --git a/internal/tree/entity-chains.go b/internal/tree/entity-chains.go
index ea675e3..ae1dbab 100644
--- a/internal/tree/entity-chains.go
+++ b/internal/tree/entity-chains.go
@@ -108,6 +108,8 @@ func (m *Manager) CheckRequiredEntityChains() error {
 // RunEntityChain runs the specified chain with de specifying values
 // to be consumed by the chain.
 func (m *Manager) RunEntityChain(chain string, de *pb.Entity) (*pb.Entity, error) {
+	defer m.locks.lockEntity(chain, de.GetID())()
+
 	e := new(pb.Entity)
 	hookChain := m.entityProcesses[chain]
 	for _, h := range hookChain {
diff --git a/internal/tree/group-chains.go b/internal/tree/group-chains.go
index 0176fb5..64d1341 100644
--- a/internal/tree/group-chains.go
+++ b/internal/tree/group-chains.go
@@ -108,6 +108,8 @@ func (m *Manager) CheckRequiredGroupChains() error {
 // RunGroupChain runs the specified chain with de specifying values
 // to be consumed by the chain.
 func (m *Manager) RunGroupChain(chain string, de *pb.Group) (*pb.Group, error) {
+	defer m.locks.lockGroup(chain)()
+
 	e := new(pb.Group)
 	hookChain := m.groupProcesses[chain]
 	for _, h := range hookChain {
diff --git a/internal/tree/locks.go b/internal/tree/locks.go
new file mode 100644
index 0000000..a21fb5f
--- /dev/null
+++ b/internal/tree/locks.go
@@ -0,0 +1,57 @@
+package tree
+
+import (
+	"hash/fnv"
+	"sync"
+)
+
+// chainLocks serializes the processing chains that modify records.  A
+// chain loads a record, modifies it, and writes it back, so two of
+// them working on the same record must not overlap or one of the
+// changes would be lost.
+type chainLocks struct {
+	// set is held by chains that change which entities exist, as
+	// they check for duplicates and allocate numbers.
+	set sync.Mutex
+
+	// entities are held while a specific entity is processed.
+	entities [64]sync.Mutex
+
+	// groups is held while any group is processed, since the
+	// rules of a group are checked against those of others.
+	groups sync.Mutex
+}
+
+// lockEntity acquires the locks that the named chain needs to work on
+// an entity and returns a function that releases them again.
+func (cl *chainLocks) lockEntity(chain, id string) func() {
+	if chain == "FETCH" {
+		return func() {}
+	}
+
+	h := fnv.New32a()
+	h.Write([]byte(id))
+	e := &cl.entities[h.Sum32()%uint32(len(cl.entities))]
+
+	switch chain {
+	case "CREATE", "DESTROY", "BOOTSTRAP-SERVER":
+		cl.set.Lock()
+		e.Lock()
+		return func() {
+			e.Unlock()
+			cl.set.Unlock()
+		}
+	}
+	e.Lock()
+	return e.Unlock
+}
+
+// lockGroup acquires the lock that the named chain needs to work on a
+// group and returns a function that releases it again.
+func (cl *chainLocks) lockGroup(chain string) func() {
+	if chain == "FETCH" {
+		return func() {}
+	}
+	cl.groups.Lock()
+	return cl.groups.Unlock
+}
diff --git a/internal/tree/type.go b/internal/tree/type.go
index 783e007..8cf924d 100644
--- a/internal/tree/type.go
+++ b/internal/tree/type.go
@@ -39,6 +39,9 @@ type Manager struct {
 	entityProcesses map[string][]EntityHook
 	groupProcesses  map[string][]GroupHook
 
+	// Chains that modify the same records must not overlap.
+	locks chainLocks
+
 	resolver *mresolver.MResolver
 
 	log hclog.Logger
-- 
2.43.0


From 173cba2c59fc06407d82d0d91e6746fc9fe2b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 02/52] fix: make membership resolution consistent

The resolver iterated its maps without holding its locks, never forgot
that a group affected another after the rule was removed (a later rule in
the opposite direction made it recurse forever), and gave up on a group
as soon as a rule named a group that was deleted or not loaded yet, so
that memberships changed over a restart.  All state is now guarded by one
mutex, relations are kept exactly, and unknown groups have no members
until they become known.
---
 internal/mresolver/memberships.go | 201 +++++++++++++++++-------------
 internal/mresolver/type.go        |   4 +-
 2 files changed, 116 insertions(+), 89 deletions(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 6ca6517..0891a65 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -11,18 +11,18 @@ func (mr *MResolver) SyncDirectGroups(entity string, groups []string) {
 	for i := range groups {
 		list[groups[i]] = struct{}{}
 	}
-	mr.uMutex.Lock()
+	mr.mutex.Lock()
 	mr.atom.dm[entity] = list
-	mr.uMutex.Unlock()
+	mr.mutex.Unlock()
 	mr.l.Trace("Synced direct groups", "entity", entity, "groups", groups)
 }
 
 // RemoveEntity removes an entity from the map, this is meant to
 // handle deletions of entities.
 func (mr *MResolver) RemoveEntity(entity string) {
-	mr.uMutex.Lock()
+	mr.mutex.Lock()
 	delete(mr.atom.dm, entity)
-	mr.uMutex.Unlock()
+	mr.mutex.Unlock()
 }
 
 // SyncGroup provides the resolver with current infomation about a
@@ -30,21 +30,21 @@ func (mr *MResolver) RemoveEntity(entity string) {
 // information in the system, and may trigger a cascading membership
 // recalculation.
 func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
-	g := resolvableGroup{
+	mr.mutex.Lock()
+	defer mr.mutex.Unlock()
+
+	mr.l.Trace("Syncing group", "group", group)
+
+	// The rules of the group may have changed, so forget which
+	// groups affected it before.
+	mr.dropAffectors(group)
+
+	mr.atom.gc[group] = &resolvableGroup{
 		self:    group,
 		include: include,
 		exclude: exclude,
 	}
 
-	mr.gMutex.Lock()
-	mr.atom.gc[group] = &g
-	mr.gMutex.Unlock()
-
-	// Need to resolve the group here, and re-resolve any
-	// dependant groups that this one would have affected.
-	mr.l.Trace("Syncing group", "group", group)
-	mr.Resolve(group)
-
 	// Log all groups that affect this one to the group affectors
 	// set.  This is a map to all groups that if changed need to
 	// re-resolve this one.
@@ -54,63 +54,126 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 		}
 		mr.atom.ga[affectee][affector] = struct{}{}
 	}
-	mr.gMutex.Lock()
 	for _, g := range include {
 		addAffector(g, group)
 	}
 	for _, g := range exclude {
 		addAffector(g, group)
 	}
-	mr.gMutex.Unlock()
 
-	// Propagate changes to all groups affected by this group
+	// Resolve the group and propagate changes to all groups
+	// affected by this group
 	mr.resolveChanges(group)
 }
 
-// Recursively propagate resolutions all the way down.
+// dropAffectors forgets which other groups affect the named one.
+func (mr *MResolver) dropAffectors(group string) {
+	old, ok := mr.atom.gc[group]
+	if !ok {
+		return
+	}
+	for _, g := range old.include {
+		delete(mr.atom.ga[g], group)
+	}
+	for _, g := range old.exclude {
+		delete(mr.atom.ga[g], group)
+	}
+}
+
+// resolveChanges resolves the named group and all groups that it
+// affects, however indirectly.
 func (mr *MResolver) resolveChanges(group string) {
-	mr.Resolve(group)
-	mr.gMutex.RLock()
-	cascade := mr.atom.ga[group]
-	mr.gMutex.RUnlock()
-	for g := range cascade {
-		mr.resolveChanges(g)
+	affected := make(map[string]struct{})
+	mr.invalidate(group, affected)
+	for g := range affected {
+		if _, known := mr.atom.gc[g]; !known {
+			continue
+		}
+		if _, done := mr.atom.gt[g]; done {
+			continue
+		}
+		mr.resolve(g, make(map[string]struct{}))
+	}
+}
+
+// invalidate drops the cached expressions of a group and of all
+// groups that it affects, and notes them.
+func (mr *MResolver) invalidate(group string, seen map[string]struct{}) {
+	if _, ok := seen[group]; ok {
+		return
+	}
+	seen[group] = struct{}{}
+	delete(mr.atom.gt, group)
+	for g := range mr.atom.ga[group] {
+		mr.invalidate(g, seen)
 	}
 }
 
-// RemoveGroup removes all references to a group in the relations
-// maps.  It does not remove any references in the entity direct
-// memberships as this is assumed to have been done prior to deleting
-// the group.
+// RemoveGroup removes a group from the relations maps, and
+// re-resolves the groups whose rules refer to it.  These references
+// are remembered should the group be created again.  It does not
+// remove any references in the entity direct memberships as this is
+// assumed to have been done prior to deleting the group.
 func (mr *MResolver) RemoveGroup(group string) {
-	mr.gMutex.Lock()
+	mr.mutex.Lock()
+	defer mr.mutex.Unlock()
+
+	mr.dropAffectors(group)
 	delete(mr.atom.gc, group)
 	delete(mr.atom.gr, group)
-	delete(mr.atom.gt, group)
-	delete(mr.atom.ga, group)
-
 	mr.atom.gs.Del(group)
 
-	for _, ga := range mr.atom.ga {
-		delete(ga, group)
-	}
-	mr.gMutex.Unlock()
+	mr.resolveChanges(group)
 }
 
 // Resolve flattens out the membership tree and associated subtrees
 // for any group into a boolean expression of arbitrary complexity.
 // This expression can later be used to determine if an entity
 // contains a group, or if a group contains a given set of entities.
+// A group that isn't known has no members; it adds nothing to the
+// expression but an error is returned.
 func (mr *MResolver) Resolve(group string) error {
-	mr.gMutex.RLock()
+	mr.mutex.Lock()
+	defer mr.mutex.Unlock()
+	return mr.resolve(group, make(map[string]struct{}))
+}
+
+// resolve does the work of Resolve.  The groups that are being
+// resolved by the callers are passed along, so that resolution ends
+// even if rules form a cycle.
+func (mr *MResolver) resolve(group string, parents map[string]struct{}) error {
 	g, ok := mr.atom.gc[group]
-	mr.gMutex.RUnlock()
 	if !ok {
 		mr.l.Error("Insufficient knowledge to resolve group", "group", group)
 		return ErrInsufficientKnowledge
 	}
 
 	mr.l.Trace("Resolving Group", "group", group)
+	parents[group] = struct{}{}
+	defer delete(parents, group)
+
+	var unknown error
+
+	// expand returns the resolution of a group that is named in a
+	// rule, and resolves that group first if it has to.
+	expand := func(gn string) []bsfilter.Symbol {
+		if _, ok := mr.atom.gc[gn]; !ok {
+			mr.l.Warn("Rule refers to unknown group", "group", group, "target", gn)
+			unknown = ErrInsufficientKnowledge
+			return nil
+		}
+		if _, ok := parents[gn]; ok {
+			mr.l.Warn("Rules form a cycle", "group", group, "target", gn)
+			return nil
+		}
+		if _, ok := mr.atom.gt[gn]; !ok {
+			mr.l.Trace("Resolution not cached; recursing", "group", gn)
+			if err := mr.resolve(gn, parents); err != nil {
+				unknown = err
+			}
+		}
+		return mr.atom.gt[gn]
+	}
 
 	res := []bsfilter.Symbol{}
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
@@ -120,77 +183,41 @@ func (mr *MResolver) Resolve(group string) error {
 	// the higher level and swapping between a logical operator
 	// between loop iterations.
 	for _, gn := range g.include {
+		r := expand(gn)
+		if r == nil {
+			continue
+		}
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryOr})
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
-		mr.gMutex.RLock()
-		// Check if an existing resolution is known for this
-		// group name.  If not, resolve that group and then
-		// fetch the expansion back out.
-		r, ok := mr.atom.gt[gn]
-		mr.gMutex.RUnlock()
-		if !ok {
-			mr.l.Trace("Resolution not cached; recursing", "group", gn)
-			// We have to unlock the mutex to allow the
-			// lower invocation to re-aquire.  This can in
-			// potentially deadlock if another thread is
-			// reading and trying to resolve.
-			if err := mr.Resolve(gn); err != nil {
-				return err
-			}
-			mr.gMutex.RLock()
-			// At this point this is populated from the
-			// above call and can be retreived
-			r = mr.atom.gt[gn]
-			mr.gMutex.RUnlock()
-		}
 		res = append(res, r...)
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	}
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	for _, gn := range g.exclude {
+		r := expand(gn)
+		if r == nil {
+			continue
+		}
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryAnd})
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
-		mr.gMutex.RLock()
-		// Check if an existing resolution is known for this
-		// group name.  If not, resolve that group and then
-		// fetch the expansion back out.
-		r, ok := mr.atom.gt[gn]
-		mr.gMutex.RUnlock()
-		if !ok {
-			mr.l.Trace("Resolution not cached; recursing", "group", gn)
-			// We have to unlock the mutex to allow the
-			// lower invocation to re-aquire.  This can in
-			// potentially deadlock if another thread is
-			// reading and trying to resolve.
-			if err := mr.Resolve(gn); err != nil {
-				return err
-			}
-			mr.gMutex.RLock()
-			// At this point this is populated from the
-			// above call and can be retreived
-			r = mr.atom.gt[gn]
-			mr.gMutex.RUnlock()
-		}
 		res = append(res, r...)
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	}
 	expr := bsfilter.NewFromTokens(res)
-	mr.gMutex.Lock()
 	mr.atom.gt[group] = res
 	mr.atom.gr[group] = expr
 	mr.atom.gs.Add(group, expr)
-	mr.gMutex.Unlock()
 	mr.l.Debug("Group Resolved", "group", group, "expression", expr)
-	return nil
+	return unknown
 }
 
 // MembersOfGroup returns a list of all entities that are a member of
 // the specified group.
 func (mr *MResolver) MembersOfGroup(group string) []string {
-	mr.gMutex.RLock()
+	mr.mutex.RLock()
+	defer mr.mutex.RUnlock()
 	exp, ok := mr.atom.gr[group]
-	mr.gMutex.RUnlock()
 	if !ok {
 		return []string{}
 	}
@@ -200,9 +227,9 @@ func (mr *MResolver) MembersOfGroup(group string) []string {
 // GroupsForEntity returns a string slice of groups that include a
 // given entity.
 func (mr *MResolver) GroupsForEntity(entity string) []string {
-	mr.uMutex.RLock()
+	mr.mutex.RLock()
+	defer mr.mutex.RUnlock()
 	vset, ok := mr.atom.dm[entity]
-	mr.uMutex.RUnlock()
 	if !ok {
 		return []string{}
 	}
diff --git a/internal/mresolver/type.go b/internal/mresolver/type.go
index 2f56c6e..83fa826 100644
--- a/internal/mresolver/type.go
+++ b/internal/mresolver/type.go
@@ -14,8 +14,8 @@ import (
 type MResolver struct {
 	l hclog.Logger
 
-	uMutex sync.RWMutex
-	gMutex sync.RWMutex
+	// mutex protects everything below.
+	mutex sync.RWMutex
 
 	atom resolverAtom
 }
-- 
2.43.0


From 8466327f1f3e6ac374624fb441e831c63886d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:24 +0000
Subject: [PATCH 03/52] fix: match group rule targets exactly

Adding a rule was refused when an existing rule's target merely
contained the new name, and dropping a rule removed every rule whose
text contained it.
---
 internal/tree/hooks/check-immediate-expansions.go |  6 +++++-
 internal/tree/hooks/patch-group-expansions.go     | 10 +++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/tree/hooks/check-immediate-expansions.go b/internal/tree/hooks/check-immediate-expansions.go
index 82060a6..bfe8059 100644
--- a/internal/tree/hooks/check-immediate-expansions.go
+++ b/internal/tree/hooks/check-immediate-expansions.go
@@ -29,7 +29,11 @@ func (cie *CheckImmediateExpansions) Run(g, dg *pb.Group) error {
 			continue
 		}
 		for k := range existing {
-			if strings.Contains(existing[k], parts[1]) {
+			// The target is everything after the mode, and
+			// must match in full: a rule for "admins" is
+			// not a rule for "admin".
+			have := strings.SplitN(existing[k], ":", 2)
+			if have[len(have)-1] == parts[1] {
 				return tree.ErrExistingExpansion
 			}
 		}
diff --git a/internal/tree/hooks/patch-group-expansions.go b/internal/tree/hooks/patch-group-expansions.go
index e7611b5..fc0d51b 100644
--- a/internal/tree/hooks/patch-group-expansions.go
+++ b/internal/tree/hooks/patch-group-expansions.go
@@ -27,11 +27,11 @@ func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 		if parts[0] == "INCLUDE" || parts[0] == "EXCLUDE" {
 			g.Expansions = util.PatchStringSlice(g.Expansions, exps[i], true, true)
 		} else if parts[0] == "DROP" {
-			// Patch out with fuzzy matching, this will
-			// innevitably come back to bite someone, but
-			// until then its much faster than doing
-			// strict checking on the group name.
-			g.Expansions = util.PatchStringSlice(g.Expansions, parts[1], false, false)
+			// Remove only the rule for the named target,
+			// whichever mode it was added with.
+			for _, mode := range []string{"INCLUDE:", "EXCLUDE:"} {
+				g.Expansions = util.PatchStringSlice(g.Expansions, mode+parts[1], false, true)
+			}
 		}
 	}
 	sort.Strings(g.Expansions)
-- 
2.43.0


From dbcbb1ed3b5671ababe4ae8e35a6a8fb8cc21d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:24 +0000
Subject: [PATCH 04/52] fix: refuse a rule that makes a group contain itself

---
 internal/tree/hooks/check-expansion-cycle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tree/hooks/check-expansion-cycle.go b/internal/tree/hooks/check-expansion-cycle.go
index f19d07f..1161af6 100644
--- a/internal/tree/hooks/check-expansion-cycle.go
+++ b/internal/tree/hooks/check-expansion-cycle.go
@@ -34,7 +34,7 @@ func (cec *CheckExpansionCycles) Run(g, dg *pb.Group) error {
 		if err != nil {
 			return err
 		}
-		if cec.checkGroupCycles(child, g.GetName()) {
+		if child.GetName() == g.GetName() || cec.checkGroupCycles(child, g.GetName()) {
 			return tree.ErrExistingExpansion
 		}
 	}
-- 
2.43.0


From 0ef9549fb614e0dfa81015e1b246271e639d1c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 05/52] fix: metadata updates cannot reach protected fields

A metadata update could set the lock state and key/value data of an
entity, and the capabilities, rules, key/value data and untyped
metadata of a group.  An update without metadata crashed the server.
---
 internal/tree/group.go                   | 3 +++
 internal/tree/hooks/merge-entity-meta.go | 7 +++++++
 internal/tree/hooks/merge-group-meta.go  | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/internal/tree/group.go b/internal/tree/group.go
index 48933b3..589d4a4 100644
--- a/internal/tree/group.go
+++ b/internal/tree/group.go
@@ -52,6 +52,9 @@ func (m *Manager) DestroyGroup(name string) error {
 // information is not mutable and so that information is not merged
 // in.
 func (m *Manager) UpdateGroupMeta(name string, update *pb.Group) error {
+	if update == nil {
+		update = &pb.Group{}
+	}
 	update.Name = &name
 	_, err := m.RunGroupChain("MERGE-METADATA", update)
 	return err
diff --git a/internal/tree/hooks/merge-entity-meta.go b/internal/tree/hooks/merge-entity-meta.go
index e5024f1..aed2e06 100644
--- a/internal/tree/hooks/merge-entity-meta.go
+++ b/internal/tree/hooks/merge-entity-meta.go
@@ -19,11 +19,18 @@ type MergeEntityMeta struct {
 // Select fields are nil-ed out beforehand since they either require a
 // specialized mechanism to edit, or a specialized capability.
 func (*MergeEntityMeta) Run(e, de *pb.Entity) error {
+	if de.GetMeta() == nil {
+		// Nothing to merge.
+		return nil
+	}
+
 	// There's a few fields that can't be set by merging the
 	// metadata this way, so we null those out here.
 	de.Meta.Capabilities = nil
 	de.Meta.Groups = nil
 	de.Meta.Keys = nil
+	de.Meta.KV = nil
+	de.Meta.Locked = nil
 	de.Meta.UntypedMeta = nil
 
 	proto.Merge(e, de)
diff --git a/internal/tree/hooks/merge-group-meta.go b/internal/tree/hooks/merge-group-meta.go
index 6c8ac9f..892707f 100644
--- a/internal/tree/hooks/merge-group-meta.go
+++ b/internal/tree/hooks/merge-group-meta.go
@@ -23,6 +23,10 @@ func (*MergeGroupMeta) Run(g, dg *pb.Group) error {
 	// metadata this way, so we null those out here.
 	dg.Name = nil
 	dg.Number = nil
+	dg.Capabilities = nil
+	dg.Expansions = nil
+	dg.KV = nil
+	dg.UntypedMeta = nil
 
 	proto.Merge(g, dg)
 	return nil
-- 
2.43.0


From 34a6e9e515e5cb58ece3991a19b3a1cf340629b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 06/52] fix: add and remove exactly the named key

---
 internal/tree/hooks/entity-keys.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/tree/hooks/entity-keys.go b/internal/tree/hooks/entity-keys.go
index 7f70d71..8e62f9a 100644
--- a/internal/tree/hooks/entity-keys.go
+++ b/internal/tree/hooks/entity-keys.go
@@ -1,6 +1,8 @@
 package hooks
 
 import (
+	"strings"
+
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 	"github.com/netauth/netauth/internal/tree/util"
@@ -15,10 +17,21 @@ type ManageEntityKeys struct {
 }
 
 // Run iterates on all keys in the request and adds or removes them
-// from the entity's keystore.
+// from the entity's keystore.  Keys are matched in full, except that
+// removing an empty key removes all keys of the given type.
 func (mek *ManageEntityKeys) Run(e, de *pb.Entity) error {
 	for _, k := range de.Meta.Keys {
-		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, false)
+		if !mek.mode && strings.HasSuffix(k, ":") && strings.Count(k, ":") == 1 {
+			var keep []string
+			for _, have := range e.Meta.Keys {
+				if !strings.HasPrefix(have, k) {
+					keep = append(keep, have)
+				}
+			}
+			e.Meta.Keys = keep
+			continue
+		}
+		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, true)
 	}
 	return nil
 }
-- 
2.43.0


From 44b1d243ad38c794a6490e5be759fd7b0dd90094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 07/52] fix: refuse an empty key/value element instead of
 storing it

---
 internal/tree/hooks/entity-kv.go | 4 ++--
 internal/tree/hooks/group-kv.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/tree/hooks/entity-kv.go b/internal/tree/hooks/entity-kv.go
index 35d50c7..3f22077 100644
--- a/internal/tree/hooks/entity-kv.go
+++ b/internal/tree/hooks/entity-kv.go
@@ -28,7 +28,7 @@ func (ekv *EntityKV) Run(e, de *pb.Entity) error {
 // exists.  If it does not it will be appended to the end of the list
 // of keys.
 func (ekv *EntityKV) add(e, de *pb.Entity) error {
-	if len(de.GetMeta().GetKV()) != 1 {
+	if len(de.GetMeta().GetKV()) != 1 || de.GetMeta().GetKV()[0] == nil {
 		return tree.ErrFailedPrecondition
 	}
 	compare := de.GetMeta().GetKV()[0].GetKey()
@@ -45,7 +45,7 @@ func (ekv *EntityKV) add(e, de *pb.Entity) error {
 // del looks for the specified key and tries to remove it, returning
 // an error if it does not exist.
 func (ekv *EntityKV) del(e, de *pb.Entity) error {
-	if len(de.GetMeta().GetKV()) != 1 {
+	if len(de.GetMeta().GetKV()) != 1 || de.GetMeta().GetKV()[0] == nil {
 		return tree.ErrFailedPrecondition
 	}
 	compare := de.GetMeta().GetKV()[0].GetKey()
diff --git a/internal/tree/hooks/group-kv.go b/internal/tree/hooks/group-kv.go
index 270aaa4..cfd8fc7 100644
--- a/internal/tree/hooks/group-kv.go
+++ b/internal/tree/hooks/group-kv.go
@@ -28,7 +28,7 @@ func (ekv *GroupKV) Run(g, dg *pb.Group) error {
 // exists.  If it does not it will be appended to the end of the list
 // of keys.
 func (ekv *GroupKV) add(g, dg *pb.Group) error {
-	if len(dg.GetKV()) != 1 {
+	if len(dg.GetKV()) != 1 || dg.GetKV()[0] == nil {
 		return tree.ErrFailedPrecondition
 	}
 	compare := dg.GetKV()[0].GetKey()
@@ -45,7 +45,7 @@ func (ekv *GroupKV) add(g, dg *pb.Group) error {
 // del looks for the specified key and tries to remove it, returning
 // an error if it does not exist.
 func (ekv *GroupKV) del(g, dg *pb.Group) error {
-	if len(dg.GetKV()) != 1 {
+	if len(dg.GetKV()) != 1 || dg.GetKV()[0] == nil {
 		return tree.ErrFailedPrecondition
 	}
 	compare := dg.GetKV()[0].GetKey()
-- 
2.43.0


From a5af6103ff4c9237f90e3cfbb9c9db795fec2057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:05 +0000
Subject: [PATCH 08/52] fix: let delegated managers edit the groups they manage

The claims of the request's token were never available where the
holder's membership in the managing group is checked, so delegation
never worked.  It is also limited to requests that lack only the
capability.
---
 internal/rpc2/group.go | 10 +++++-----
 internal/rpc2/util.go  | 16 ++++++++++++++++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index bb90957..7aa62ef 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -56,7 +56,7 @@ func (s *Server) GroupCreate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty
 func (s *Server) GroupUpdate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
 	g := r.GetGroup()
 	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	if err != nil && !s.delegated(ctx, err, g) {
 		return &pb.Empty{}, err
 	}
 
@@ -136,7 +136,7 @@ func (s *Server) GroupUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfString
 	if r.GetAction() != pb.Action_READ {
 		err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
 		g := types.Group{Name: proto.String(r.GetTarget())}
-		if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &g) {
+		if err != nil && !s.delegated(ctx, err, &g) {
 			return &pb.ListOfStrings{}, err
 		}
 	}
@@ -331,7 +331,7 @@ func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest)
 	g := r.GetGroup()
 
 	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	if err != nil && !s.delegated(ctx, err, g) {
 		return &pb.Empty{}, err
 	}
 
@@ -372,7 +372,7 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
 	for _, g := range e.GetMeta().GetGroups() {
 		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
+		if preErr != nil && !s.delegated(ctx, preErr, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
 				"entity", e.GetID(),
 				"group", g,
@@ -402,7 +402,7 @@ func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
 	for _, g := range e.GetMeta().GetGroups() {
 		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
+		if preErr != nil && !s.delegated(ctx, preErr, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
 				"entity", e.GetID(),
 				"group", g,
diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index f1517d9..7657a7b 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -189,6 +189,22 @@ func (s *Server) manageByMembership(entityID string, g *types.Group) bool {
 	return false
 }
 
+// delegated determines whether a request that was refused with the
+// given error may proceed anyway, because the holder of its token is a
+// member of the group that manages the named one.  Only the lack of a
+// capability can be made up for this way, not a missing or invalid
+// token, nor a read-only server.
+func (s *Server) delegated(ctx context.Context, refusal error, g *types.Group) bool {
+	if refusal != ErrRequestorUnqualified {
+		return false
+	}
+	ctx, err := s.checkToken(ctx)
+	if err != nil {
+		return false
+	}
+	return s.manageByMembership(getTokenClaims(ctx).EntityID, g)
+}
+
 // mutablePrequisitesAreMet checks for common mutable prerequisites
 // such as the server being in a writeable mode, and the correct
 // capability being present in a valid token.
-- 
2.43.0


From d8879cedf1ab910c53f01f2dca23acfb2a976b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:40 +0000
Subject: [PATCH 09/52] fix: change the membership of several groups as one
 change

A request naming several groups was carried out group by group, so it
took effect in part when the caller lacked authority over a later one.
---
 internal/rpc2/group.go      | 62 +++++++++++++++++++++++--------------
 internal/rpc2/type.go       |  4 +--
 internal/tree/membership.go |  8 ++---
 3 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index 7aa62ef..f28e592 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -368,9 +368,12 @@ func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest)
 // GroupAddMember adds an entity directly to a group.
 func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
 	e := r.GetEntity()
+	groups := e.GetMeta().GetGroups()
 
+	// Authority over every group is required before anything is
+	// changed.
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
-	for _, g := range e.GetMeta().GetGroups() {
+	for _, g := range groups {
 		grp := types.Group{Name: proto.String(g)}
 		if preErr != nil && !s.delegated(ctx, preErr, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
@@ -380,17 +383,21 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 			)
 			return &pb.Empty{}, preErr
 		}
-		if err := s.AddEntityToGroup(e.GetID(), g); err != nil {
-			s.log.Warn("Error adding entity to group",
-				"entity", e.GetID(),
-				"group", g,
-				"authority", getTokenClaims(ctx).EntityID,
-				"service", getServiceName(ctx),
-				"client", getClientName(ctx),
-				"error", err,
-			)
-			return &pb.Empty{}, ErrInternal
-		}
+	}
+	if len(groups) == 0 {
+		return &pb.Empty{}, nil
+	}
+
+	if err := s.AddEntityToGroup(e.GetID(), groups...); err != nil {
+		s.log.Warn("Error adding entity to group",
+			"entity", e.GetID(),
+			"group", groups,
+			"authority", getTokenClaims(ctx).EntityID,
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+			"error", err,
+		)
+		return &pb.Empty{}, ErrInternal
 	}
 	return &pb.Empty{}, nil
 }
@@ -398,9 +405,12 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 // GroupDelMember dels an entity directly to a group.
 func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
 	e := r.GetEntity()
+	groups := e.GetMeta().GetGroups()
 
+	// Authority over every group is required before anything is
+	// changed.
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
-	for _, g := range e.GetMeta().GetGroups() {
+	for _, g := range groups {
 		grp := types.Group{Name: proto.String(g)}
 		if preErr != nil && !s.delegated(ctx, preErr, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
@@ -410,17 +420,21 @@ func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 			)
 			return &pb.Empty{}, preErr
 		}
-		if err := s.RemoveEntityFromGroup(e.GetID(), g); err != nil {
-			s.log.Warn("Error adding entity to group",
-				"entity", e.GetID(),
-				"group", g,
-				"authority", getTokenClaims(ctx).EntityID,
-				"service", getServiceName(ctx),
-				"client", getClientName(ctx),
-				"error", err,
-			)
-			return &pb.Empty{}, ErrInternal
-		}
+	}
+	if len(groups) == 0 {
+		return &pb.Empty{}, nil
+	}
+
+	if err := s.RemoveEntityFromGroup(e.GetID(), groups...); err != nil {
+		s.log.Warn("Error adding entity to group",
+			"entity", e.GetID(),
+			"group", groups,
+			"authority", getTokenClaims(ctx).EntityID,
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+			"error", err,
+		)
+		return &pb.Empty{}, ErrInternal
 	}
 	return &pb.Empty{}, nil
 }
diff --git a/internal/rpc2/type.go b/internal/rpc2/type.go
index 1a43d2e..5a98b37 100644
--- a/internal/rpc2/type.go
+++ b/internal/rpc2/type.go
@@ -62,8 +62,8 @@ type Manager interface {
 	GroupKVReplace(string, []*pb.KVData) error
 	DestroyGroup(string) error
 
-	AddEntityToGroup(string, string) error
-	RemoveEntityFromGroup(string, string) error
+	AddEntityToGroup(string, ...string) error
+	RemoveEntityFromGroup(string, ...string) error
 	ListMembers(string) ([]*pb.Entity, error)
 	GetMemberships(*pb.Entity) []string
 	ModifyGroupRule(string, string, rpc.RuleAction) error
diff --git a/internal/tree/membership.go b/internal/tree/membership.go
index 06243e5..233ed8b 100644
--- a/internal/tree/membership.go
+++ b/internal/tree/membership.go
@@ -9,11 +9,11 @@ import (
 
 // AddEntityToGroup is the same as the internal function, but takes an
 // entity ID rather than a pointer
-func (m *Manager) AddEntityToGroup(entityID, groupName string) error {
+func (m *Manager) AddEntityToGroup(entityID string, groupNames ...string) error {
 	de := &pb.Entity{
 		ID: &entityID,
 		Meta: &pb.EntityMeta{
-			Groups: []string{groupName},
+			Groups: groupNames,
 		},
 	}
 
@@ -23,11 +23,11 @@ func (m *Manager) AddEntityToGroup(entityID, groupName string) error {
 
 // RemoveEntityFromGroup performs the same function as the internal
 // variant, but does so by name rather than by entity pointer.
-func (m *Manager) RemoveEntityFromGroup(entityID, groupName string) error {
+func (m *Manager) RemoveEntityFromGroup(entityID string, groupNames ...string) error {
 	de := &pb.Entity{
 		ID: &entityID,
 		Meta: &pb.EntityMeta{
-			Groups: []string{groupName},
+			Groups: groupNames,
 		},
 	}
 
-- 
2.43.0


From 8797cff2943ba9bc0044da3c4352a84867b2ee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:51 +0000
Subject: [PATCH 10/52] fix: do not crash on a token request that names no
 entity

---
 internal/rpc2/auth.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index b0f8cb4..873677c 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -37,7 +37,7 @@ func (s *Server) AuthGetToken(ctx context.Context, r *pb.AuthRequest) (*pb.AuthR
 		return &pb.AuthResult{}, err
 	}
 
-	caps := s.getCapabilitiesForEntity(*r.Entity.ID)
+	caps := s.getCapabilitiesForEntity(r.GetEntity().GetID())
 
 	// Generate Token
 	tkn, err := s.Generate(
-- 
2.43.0


From e1cab9d7edb53de84a93eb08ea83b3ed9b350120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:26 +0000
Subject: [PATCH 11/52] fix: do not issue tokens with capabilities missing
 after a storage error

---
 internal/rpc2/auth.go |  8 ++++++++
 internal/rpc2/util.go | 25 +++++++++++++++----------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index 873677c..696056a 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -38,6 +38,14 @@ func (s *Server) AuthGetToken(ctx context.Context, r *pb.AuthRequest) (*pb.AuthR
 	}
 
 	caps := s.getCapabilitiesForEntity(r.GetEntity().GetID())
+	if caps == nil {
+		s.log.Warn("Error Determining Capabilities",
+			"entity", r.GetEntity().GetID(),
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+		)
+		return &pb.AuthResult{}, ErrInternal
+	}
 
 	// Generate Token
 	tkn, err := s.Generate(
diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index 7657a7b..9ec550b 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -6,6 +6,7 @@ import (
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/metadata"
 
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/token"
 
 	types "github.com/netauth/protocol"
@@ -13,15 +14,19 @@ import (
 
 type claimsContextKey struct{}
 
+// getCapabilitiesForEntity returns the capabilities an entity holds
+// directly or through its groups, or nil if these can not be
+// determined.
 func (s *Server) getCapabilitiesForEntity(id string) []types.Capability {
-	// Get the full fledged entity; we can assert no error here
-	// since the entity was just loaded to perform an
-	// authentication check prior to calling this function.
-	// There's a minimal risk that the entity has vanished, but if
+	// Get the full fledged entity.  There's a minimal risk that
+	// the entity has vanished since it was authenticated, but if
 	// that's the case then this will return empty since the
 	// FetchEntity function will return an empty entity, thus no
 	// authorization attack can be performed via this vector.
-	e, _ := s.FetchEntity(id)
+	e, err := s.FetchEntity(id)
+	if err != nil && err != db.ErrUnknownEntity {
+		return nil
+	}
 
 	// First get the capabilities that are provided by the entity
 	// itself.
@@ -34,13 +39,13 @@ func (s *Server) getCapabilitiesForEntity(id string) []types.Capability {
 
 	// Next get the capabilities that are provided by any groups
 	// the entity may be in; include indirects for authentication
-	// queries.  We can assert no error here because the worst
-	// case is a group is returned that is completely empty.  In
-	// this case there will simply be no additional capabilities
-	// granted, and this function can continue without incident.
+	// queries.  A group that has vanished grants nothing.
 	groupNames := s.GetMemberships(e)
 	for _, name := range groupNames {
-		g, _ := s.FetchGroup(name)
+		g, err := s.FetchGroup(name)
+		if err != nil && err != db.ErrUnknownGroup {
+			return nil
+		}
 		for _, c := range g.GetCapabilities() {
 			caps[c]++
 		}
-- 
2.43.0


From d5f09d0ca4edcbd850e2c7547bed8a1eba97b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:29 +0000
Subject: [PATCH 12/52] fix: answer a memberships request whose groups can not
 all be loaded

The nil element left in the answer made it impossible to encode.
---
 internal/rpc2/entity.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/internal/rpc2/entity.go b/internal/rpc2/entity.go
index 736d037..630ff29 100644
--- a/internal/rpc2/entity.go
+++ b/internal/rpc2/entity.go
@@ -585,13 +585,24 @@ func (s *Server) EntityGroups(ctx context.Context, r *pb.EntityRequest) (*pb.Lis
 
 	groups := s.GetMemberships(ent)
 
-	out := make([]*types.Group, len(groups))
+	out := []*types.Group{}
 	for i := range groups {
-		// We throw this error out here, as its logged at a
-		// lower level, and the side effect here is that only
-		// a partial result gets returned.
-		tmp, _ := s.FetchGroup(groups[i])
-		out[i] = tmp
+		switch tmp, err := s.FetchGroup(groups[i]); err {
+		case nil:
+			out = append(out, tmp)
+		case db.ErrUnknownGroup:
+			// The group was removed just now.
+			continue
+		default:
+			s.log.Warn("Error getting groups for entity",
+				"entity", e.GetID(),
+				"group", groups[i],
+				"service", getServiceName(ctx),
+				"client", getClientName(ctx),
+				"error", err,
+			)
+			return &pb.ListOfGroups{}, ErrInternal
+		}
 	}
 
 	return &pb.ListOfGroups{Groups: out}, nil
-- 
2.43.0


From a21ffce009ab152fd82f0c1f2da57f6fd79fdb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:41 +0000
Subject: [PATCH 13/52] fix: report existing and missing keys of group
 key/value data as such

These were answered as internal errors, unlike for entities.
---
 internal/rpc2/group.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index f28e592..6e8c64c 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -231,6 +231,14 @@ func (s *Server) GroupKVAdd(ctx context.Context, r *pb.KV2Request) (*pb.Empty, e
 			"client", getClientName(ctx),
 		)
 		return &pb.Empty{}, ErrDoesNotExist
+	case tree.ErrKeyExists:
+		s.log.Warn("Key already exists!",
+			"method", "GroupKVAdd",
+			"group", r.GetTarget(),
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+		)
+		return &pb.Empty{}, ErrExists
 	case nil:
 		s.log.Info("Group KV Updated Dumped",
 			"group", r.GetTarget(),
@@ -268,6 +276,14 @@ func (s *Server) GroupKVDel(ctx context.Context, r *pb.KV2Request) (*pb.Empty, e
 			"client", getClientName(ctx),
 		)
 		return &pb.Empty{}, ErrDoesNotExist
+	case tree.ErrNoSuchKey:
+		s.log.Warn("Key does not exist!",
+			"method", "GroupKVDel",
+			"group", r.GetTarget(),
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+		)
+		return &pb.Empty{}, ErrDoesNotExist
 	case nil:
 		s.log.Info("Group KV Data Dumped",
 			"group", r.GetTarget(),
@@ -306,6 +322,14 @@ func (s *Server) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empt
 			"client", getClientName(ctx),
 		)
 		return &pb.Empty{}, ErrDoesNotExist
+	case tree.ErrNoSuchKey:
+		s.log.Warn("Key does not exist!",
+			"method", "GroupKVReplace",
+			"group", r.GetTarget(),
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+		)
+		return &pb.Empty{}, ErrDoesNotExist
 	case nil:
 		s.log.Info("Group KV Data Updated",
 			"group", r.GetTarget(),
-- 
2.43.0


From 08735dcc69febf18953064b41578c0b065c23b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:44 +0000
Subject: [PATCH 14/52] fix: verify and change a secret as one step

Two holders of the same secret could both replace it successfully.
---
 internal/rpc2/auth.go | 3 +++
 internal/rpc2/type.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index 696056a..e92e8dd 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -120,6 +120,9 @@ func (s *Server) AuthChangeSecret(ctx context.Context, r *pb.AuthRequest) (*pb.E
 		return &pb.Empty{}, err
 	}
 
+	s.secretChange.Lock()
+	defer s.secretChange.Unlock()
+
 	// Changing for self, must have the original secret
 	if getTokenClaims(ctx).EntityID == e.GetID() {
 		if err := s.ValidateSecret(e.GetID(), e.GetSecret()); err != nil {
diff --git a/internal/rpc2/type.go b/internal/rpc2/type.go
index 5a98b37..6d53ebf 100644
--- a/internal/rpc2/type.go
+++ b/internal/rpc2/type.go
@@ -1,6 +1,8 @@
 package rpc2
 
 import (
+	"sync"
+
 	"github.com/hashicorp/go-hclog"
 
 	"github.com/netauth/netauth/internal/db"
@@ -18,6 +20,10 @@ type Server struct {
 
 	readonly bool
 	log      hclog.Logger
+
+	// secretChange makes verifying the current secret and storing
+	// the new one a single step.
+	secretChange sync.Mutex
 }
 
 // Refs is the container that is used to provide references to the RPC
-- 
2.43.0


From d93ba8b98e9e1256e799dd35b7ff5e10ba62a10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:13 +0000
Subject: [PATCH 15/52] fix: do not take a record that can not be read for an
 absent one

Creating a record overwrote an existing one when reading it failed, and
the bitcask store reported every read error as a missing value.
---
 internal/db/bitcask/bitcask.go                 | 4 +++-
 internal/tree/hooks/fail-on-existing-entity.go | 9 +++++++--
 internal/tree/hooks/fail-on-existing-group.go  | 9 +++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index daf0483..041019c 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -77,8 +77,10 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 	switch err {
 	case nil:
 		return v, nil
-	default:
+	case bitcask.ErrKeyNotFound:
 		return nil, db.ErrNoValue
+	default:
+		return nil, err
 	}
 }
 
diff --git a/internal/tree/hooks/fail-on-existing-entity.go b/internal/tree/hooks/fail-on-existing-entity.go
index 45a57c1..b8a3cf8 100644
--- a/internal/tree/hooks/fail-on-existing-entity.go
+++ b/internal/tree/hooks/fail-on-existing-entity.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -20,10 +21,14 @@ type FailOnExistingEntity struct {
 // from the storage backend will be returned to the caller).
 func (l *FailOnExistingEntity) Run(e, de *pb.Entity) error {
 	_, err := l.LoadEntity(de.GetID())
-	if err == nil {
+	switch err {
+	case nil:
 		return tree.ErrDuplicateEntityID
+	case db.ErrUnknownEntity:
+		return nil
+	default:
+		return err
 	}
-	return nil
 }
 
 func init() {
diff --git a/internal/tree/hooks/fail-on-existing-group.go b/internal/tree/hooks/fail-on-existing-group.go
index 94e8563..c40fceb 100644
--- a/internal/tree/hooks/fail-on-existing-group.go
+++ b/internal/tree/hooks/fail-on-existing-group.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -18,10 +19,14 @@ type FailOnExistingGroup struct {
 // by dg.  If the group loads successfully then an error is returned,
 // in other cases nil is returned.
 func (f *FailOnExistingGroup) Run(g, dg *pb.Group) error {
-	if _, err := f.LoadGroup(dg.GetName()); err == nil {
+	switch _, err := f.LoadGroup(dg.GetName()); err {
+	case nil:
 		return tree.ErrDuplicateGroupName
+	case db.ErrUnknownGroup:
+		return nil
+	default:
+		return err
 	}
-	return nil
 }
 
 func init() {
-- 
2.43.0


From 78979d3b22f88d90dd30bfd387c8030f24dfd03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:46 +0000
Subject: [PATCH 16/52] fix: recover the bitcask store after crashes and failed
 writes

A store that had been closed once was reopened after a crash with the
index of back then, so that later changes were lost or undone.  An
index, metadata or configuration file cut off by a crash, or a record of
which less than its header was written, kept it from opening at all.
After a failed write the store refused all writes until restarted.
Deletions were not synced, and their errors ignored.

Rebuild everything from the data files when opening the store, and
reload it after a failed write.
---
 internal/db/bitcask/bitcask.go | 137 +++++++++++++++++++++++++++++----
 internal/db/bitcask/prepare.go | 135 ++++++++++++++++++++++++++++++++
 2 files changed, 255 insertions(+), 17 deletions(-)
 create mode 100644 internal/db/bitcask/prepare.go

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index 041019c..9f65355 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -3,9 +3,11 @@
 package bitcask
 
 import (
+	"bytes"
 	"path"
 	"path/filepath"
 	"strings"
+	"sync"
 
 	"github.com/hashicorp/go-hclog"
 	"github.com/prologic/bitcask"
@@ -15,6 +17,11 @@ import (
 	"github.com/netauth/netauth/internal/startup"
 )
 
+const (
+	maxKeySize   = 1024
+	maxValueSize = 1024 * 1000 * 5 // 5MiB
+)
+
 func init() {
 	startup.RegisterCallback(cb)
 }
@@ -26,7 +33,14 @@ func cb() {
 // BCStore is a store implementation based on the bitcask storage
 // engine.
 type BCStore struct {
-	s *bitcask.Bitcask
+	s    *bitcask.Bitcask
+	path string
+
+	// failed is set after a failed write, until the files could
+	// be reloaded.  The mutex guards it and all use of the store.
+	failed bool
+	m      sync.Mutex
+
 	l hclog.Logger
 
 	eF func(db.Event)
@@ -43,16 +57,20 @@ const (
 
 // New creates a new instance of the bitcask store.
 func New(l hclog.Logger) (db.KVStore, error) {
-	p := filepath.Join(viper.GetString("core.home"), "bc")
-
 	x := &BCStore{}
 	x.l = l.Named("bitcask")
+	x.path = filepath.Join(viper.GetString("core.home"), "bc")
+
+	if err := prepareUnlocked(x.path); err != nil {
+		return nil, err
+	}
 	opts := []bitcask.Option{
-		bitcask.WithMaxKeySize(1024),
-		bitcask.WithMaxValueSize(1024 * 1000 * 5), // 5MiB
+		bitcask.WithMaxKeySize(maxKeySize),
+		bitcask.WithMaxValueSize(maxValueSize),
 		bitcask.WithSync(true),
+		bitcask.WithAutoRecovery(false), // prepare took care of that
 	}
-	b, err := bitcask.Open(p, opts...)
+	b, err := bitcask.Open(x.path, opts...)
 	if err != nil {
 		return nil, err
 	}
@@ -60,19 +78,75 @@ func New(l hclog.Logger) (db.KVStore, error) {
 	return x, nil
 }
 
+// usable makes sure that the store can be used, after a failed write
+// as well.
+func (bcs *BCStore) usable() error {
+	if !bcs.failed {
+		return nil
+	}
+	if err := prepare(bcs.path); err != nil {
+		return err
+	}
+	if err := bcs.s.Reopen(); err != nil {
+		return err
+	}
+	bcs.failed = false
+	return nil
+}
+
+// fail reloads the store after an error while writing to it, since it
+// can't be written to again and its end may be damaged.  The return
+// value tells whether the value that was to be written, or the deletion
+// for a nil value, took effect nevertheless.
+func (bcs *BCStore) fail(k string, v []byte) bool {
+	bcs.failed = true
+	if err := bcs.usable(); err != nil {
+		bcs.l.Error("Error reloading the store after a failed write", "error", err)
+		return false
+	}
+	have, err := bcs.s.Get([]byte(k))
+	if v == nil {
+		return err == bitcask.ErrKeyNotFound
+	}
+	return err == nil && bytes.Equal(have, v)
+}
+
 // Put stores the bytes of v at a location identitified by the key k.
 // If the operation fails an error will be returned explaining why.
 func (bcs *BCStore) Put(k string, v []byte) error {
-	if err := bcs.s.Put([]byte(k), v); err != nil {
-		return err
+	done, err := bcs.put(k, v)
+	if done {
+		bcs.fireEventForKey(k, eventUpdate)
+	}
+	return err
+}
+
+func (bcs *BCStore) put(k string, v []byte) (bool, error) {
+	bcs.m.Lock()
+	defer bcs.m.Unlock()
+	if err := bcs.usable(); err != nil {
+		return false, err
+	}
+
+	switch err := bcs.s.Put([]byte(k), v); err {
+	case nil:
+		return true, nil
+	case bitcask.ErrEmptyKey, bitcask.ErrKeyTooLarge, bitcask.ErrValueTooLarge:
+		return false, err
+	default:
+		return bcs.fail(k, v), err
 	}
-	bcs.fireEventForKey(k, eventUpdate)
-	return nil
 }
 
 // Get returns the key at k or an error explaning why no data was
 // returned.
 func (bcs *BCStore) Get(k string) ([]byte, error) {
+	bcs.m.Lock()
+	defer bcs.m.Unlock()
+	if err := bcs.usable(); err != nil {
+		return nil, err
+	}
+
 	v, err := bcs.s.Get([]byte(k))
 	switch err {
 	case nil:
@@ -87,13 +161,34 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 // Del removes any existing value at the location specified by the
 // provided key.
 func (bcs *BCStore) Del(k string) error {
-	// I can come up with nothing that causes this delete call to
-	// fail, up to and including nuking the entire data directory.
-	// If you can write a way to check this error and its
-	// associated test, open a PR.
-	bcs.s.Delete([]byte(k))
-	bcs.fireEventForKey(k, eventDelete)
-	return nil
+	done, err := bcs.del(k)
+	if done {
+		bcs.fireEventForKey(k, eventDelete)
+	}
+	return err
+}
+
+func (bcs *BCStore) del(k string) (bool, error) {
+	bcs.m.Lock()
+	defer bcs.m.Unlock()
+	if err := bcs.usable(); err != nil {
+		return false, err
+	}
+
+	if !bcs.s.Has([]byte(k)) {
+		return false, db.ErrNoValue
+	}
+
+	// Deleting writes a tombstone, but unlike putting a value
+	// doesn't make sure that it reaches the disk.
+	err := bcs.s.Delete([]byte(k))
+	if err == nil {
+		err = bcs.s.Sync()
+	}
+	if err != nil {
+		return bcs.fail(k, nil), err
+	}
+	return true, nil
 }
 
 // Keys is a way to enumerate the keys in the key/value store and to
@@ -104,6 +199,12 @@ func (bcs *BCStore) Del(k string) error {
 // includes a path seperator, but this should be filtered out at a
 // higher level.
 func (bcs *BCStore) Keys(f string) ([]string, error) {
+	bcs.m.Lock()
+	defer bcs.m.Unlock()
+	if err := bcs.usable(); err != nil {
+		return nil, err
+	}
+
 	out := []string{}
 	for bk := range bcs.s.Keys() {
 		k := string(bk)
@@ -117,6 +218,8 @@ func (bcs *BCStore) Keys(f string) ([]string, error) {
 // Close terminates the connection to the bitcask and flushes it to
 // disk.  The cask must not be used after Close() is called.
 func (bcs *BCStore) Close() error {
+	bcs.m.Lock()
+	defer bcs.m.Unlock()
 	return bcs.s.Close()
 }
 
diff --git a/internal/db/bitcask/prepare.go b/internal/db/bitcask/prepare.go
new file mode 100644
index 0000000..f6cbcfa
--- /dev/null
+++ b/internal/db/bitcask/prepare.go
@@ -0,0 +1,135 @@
+// +build !windows
+
+package bitcask
+
+import (
+	"bufio"
+	"encoding/binary"
+	"encoding/json"
+	"hash/crc32"
+	"io"
+	"io/ioutil"
+	"os"
+	"path/filepath"
+	"sort"
+
+	"github.com/prologic/bitcask"
+	"github.com/prologic/bitcask/flock"
+)
+
+const (
+	headSize = 12 // length of the key and of the value
+	sumSize  = 4  // checksum of the value
+)
+
+// prepareUnlocked prepares a store that isn't open.
+func prepareUnlocked(p string) error {
+	if _, err := os.Stat(p); err != nil {
+		if os.IsNotExist(err) {
+			return nil
+		}
+		return err
+	}
+
+	lock := flock.New(filepath.Join(p, "lock"))
+	if _, err := lock.TryLock(); err != nil {
+		return bitcask.ErrDatabaseLocked
+	}
+	defer lock.Unlock()
+	return prepare(p)
+}
+
+// prepare makes the files of a store that may not have been closed
+// properly ready to be opened.  What the data files contain is all that
+// counts, everything else can be derived from them and is written in
+// place, so it may be damaged or describe an earlier state.
+func prepare(p string) error {
+	for _, f := range []string{"index", "meta.json"} {
+		if err := os.Remove(filepath.Join(p, f)); err != nil && !os.IsNotExist(err) {
+			return err
+		}
+	}
+
+	cfg := filepath.Join(p, "config.json")
+	b, err := ioutil.ReadFile(cfg)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	if err == nil && !json.Valid(b) {
+		if err := os.Remove(cfg); err != nil {
+			return err
+		}
+	}
+
+	files, err := filepath.Glob(filepath.Join(p, "*.data"))
+	if err != nil {
+		return err
+	}
+	if len(files) == 0 {
+		return nil
+	}
+	sort.Strings(files)
+	return trim(files[len(files)-1])
+}
+
+// trim removes an incomplete record from the end of a data file, and
+// makes sure that the rest is on disk.
+func trim(file string) error {
+	f, err := os.OpenFile(file, os.O_RDWR, 0)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+
+	stat, err := f.Stat()
+	if err != nil {
+		return err
+	}
+
+	var good int64
+	r := bufio.NewReader(f)
+	for good < stat.Size() {
+		n, err := readRecord(r, stat.Size()-good)
+		if err != nil {
+			return err
+		}
+		if n == 0 {
+			if err := f.Truncate(good); err != nil {
+				return err
+			}
+			break
+		}
+		good += n
+	}
+	return f.Sync()
+}
+
+// readRecord reads one of the records that make up a data file and
+// returns its size, or 0 if it is incomplete.
+func readRecord(r io.Reader, left int64) (int64, error) {
+	if left < headSize {
+		return 0, nil
+	}
+	var head [headSize]byte
+	if _, err := io.ReadFull(r, head[:]); err != nil {
+		return 0, err
+	}
+	key := binary.BigEndian.Uint32(head[:4])
+	val := binary.BigEndian.Uint64(head[4:])
+	if key == 0 || key > maxKeySize || val > maxValueSize {
+		return 0, nil
+	}
+	size := headSize + int64(key) + int64(val) + sumSize
+	if size > left {
+		return 0, nil
+	}
+	buf := make([]byte, size-headSize)
+	if _, err := io.ReadFull(r, buf); err != nil {
+		return 0, err
+	}
+	data, sum := buf[key:len(buf)-sumSize], buf[len(buf)-sumSize:]
+	if size == left && crc32.ChecksumIEEE(data) != binary.BigEndian.Uint32(sum) {
+		return 0, nil
+	}
+	return size, nil
+}
-- 
2.43.0


From 2f8669f8bf7c3a9cc4db710ef20a50324cd3476e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:19 +0000
Subject: [PATCH 17/52] fix: keep names that have no key of their own out of
 the store

Names were joined to the storage prefix as a path, so that an empty
name, one with separators, or dot names addressed other records, the
other kind of record, or a directory.
---
 internal/db/db.go     | 27 +++++++++++++++++++++++++++
 internal/db/errors.go |  4 ++++
 2 files changed, 31 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 51053d4..5f9489d 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -5,6 +5,7 @@ package db
 
 import (
 	"path"
+	"strings"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/hashicorp/go-hclog"
@@ -37,6 +38,12 @@ func New(backend string) (*DB, error) {
 	return x, nil
 }
 
+// validName tells whether a name maps to a key of its own in the kv
+// store, just below the prefix for its kind.
+func validName(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.Contains(name, "/")
+}
+
 // DiscoverEntityIDs searches the keyspace for all entity IDs.  All
 // returned strings are loadable entities.
 func (db *DB) DiscoverEntityIDs() ([]string, error) {
@@ -45,6 +52,9 @@ func (db *DB) DiscoverEntityIDs() ([]string, error) {
 
 // LoadEntity retrieves a single entity from the kv store.
 func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
+	if !validName(ID) {
+		return nil, ErrUnknownEntity
+	}
 	b, err := db.kv.Get(path.Join("/entities", ID))
 	if err == ErrNoValue {
 		return nil, ErrUnknownEntity
@@ -70,6 +80,10 @@ func (db *DB) SaveEntity(e *types.Entity) error {
 		return err
 	}
 
+	if !validName(e.GetID()) {
+		db.log.Warn("Entity ID can not be stored", "ID", e.GetID())
+		return ErrBadName
+	}
 	if err := db.kv.Put(path.Join("/entities", e.GetID()), b); err != nil {
 		db.log.Warn("Error storing entity", "error", err)
 		return ErrInternalError
@@ -79,6 +93,9 @@ func (db *DB) SaveEntity(e *types.Entity) error {
 
 // DeleteEntity tries to delete an entity that already exists.
 func (db *DB) DeleteEntity(ID string) error {
+	if !validName(ID) {
+		return ErrUnknownEntity
+	}
 	err := db.kv.Del(path.Join("/entities", ID))
 	if err == ErrNoValue {
 		return ErrUnknownEntity
@@ -94,6 +111,9 @@ func (db *DB) DiscoverGroupNames() ([]string, error) {
 
 // LoadGroup retrieves a single group from the kv store.
 func (db *DB) LoadGroup(ID string) (*types.Group, error) {
+	if !validName(ID) {
+		return nil, ErrUnknownGroup
+	}
 	b, err := db.kv.Get(path.Join("/groups", ID))
 	if err == ErrNoValue {
 		return nil, ErrUnknownGroup
@@ -119,6 +139,10 @@ func (db *DB) SaveGroup(g *types.Group) error {
 		return err
 	}
 
+	if !validName(g.GetName()) {
+		db.log.Warn("Group name can not be stored", "name", g.GetName())
+		return ErrBadName
+	}
 	if err := db.kv.Put(path.Join("/groups", g.GetName()), b); err != nil {
 		db.log.Warn("Error storing group", "error", err)
 		return err
@@ -128,6 +152,9 @@ func (db *DB) SaveGroup(g *types.Group) error {
 
 // DeleteGroup tries to delete an group that already exists.
 func (db *DB) DeleteGroup(ID string) error {
+	if !validName(ID) {
+		return ErrUnknownGroup
+	}
 	err := db.kv.Del(path.Join("/groups", ID))
 	if err == ErrNoValue {
 		return ErrUnknownGroup
diff --git a/internal/db/errors.go b/internal/db/errors.go
index b4bed2d..f92191f 100644
--- a/internal/db/errors.go
+++ b/internal/db/errors.go
@@ -25,6 +25,10 @@ var (
 	// filled for some reason.
 	ErrBadSearch = errors.New("the provided SearchRequest is invalid")
 
+	// ErrBadName is returned for requests to save an entity or
+	// group whose name can't be represented in the kv store.
+	ErrBadName = errors.New("the specified name can not be stored")
+
 	// ErrNoValue is returned when no value exists for a given key.
 	ErrNoValue = errors.New("no value exists")
 )
-- 
2.43.0


From c1df65798551c3f56c96f0048d0bdaab7ef188cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 18/52] fix: do not let automatic numbers wrap around

With the largest possible number in use, further records all received
the same negative number.
---
 internal/db/db.go     | 7 +++++++
 internal/db/errors.go | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 5f9489d..e46ea3d 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -4,6 +4,7 @@
 package db
 
 import (
+	"math"
 	"path"
 	"strings"
 
@@ -195,6 +196,9 @@ func (db *DB) NextEntityNumber() (int32, error) {
 		}
 	}
 
+	if largest == math.MaxInt32 {
+		return 0, ErrNoNumber
+	}
 	return largest + 1, nil
 }
 
@@ -217,6 +221,9 @@ func (db *DB) NextGroupNumber() (int32, error) {
 		}
 	}
 
+	if largest == math.MaxInt32 {
+		return 0, ErrNoNumber
+	}
 	return largest + 1, nil
 }
 
diff --git a/internal/db/errors.go b/internal/db/errors.go
index f92191f..62cd290 100644
--- a/internal/db/errors.go
+++ b/internal/db/errors.go
@@ -29,6 +29,10 @@ var (
 	// group whose name can't be represented in the kv store.
 	ErrBadName = errors.New("the specified name can not be stored")
 
+	// ErrNoNumber is returned when no number above all existing
+	// ones is left.
+	ErrNoNumber = errors.New("no number is available")
+
 	// ErrNoValue is returned when no value exists for a given key.
 	ErrNoValue = errors.New("no value exists")
 )
-- 
2.43.0


From 1c653df53d430f90fa75ede34a62c81c0e786e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:04 +0000
Subject: [PATCH 19/52] fix: update search and memberships without reading
 records back

A record that was stored but could not be read back right away, or not
during start, stayed outdated or missing in search and memberships
until the next restart.
---
 internal/db/callback.go | 52 +++++++++++++++++++++++++++++++++++++----
 internal/db/db.go       |  8 ++++---
 internal/db/search.go   | 24 ++++++++++++-------
 internal/db/type.go     | 15 ++++++++++++
 internal/tree/entity.go | 12 ++++++----
 internal/tree/group.go  | 12 ++++++----
 6 files changed, 99 insertions(+), 24 deletions(-)

diff --git a/internal/db/callback.go b/internal/db/callback.go
index 7080a2d..a5f810b 100644
--- a/internal/db/callback.go
+++ b/internal/db/callback.go
@@ -1,6 +1,12 @@
 package db
 
-import "path"
+import (
+	"path"
+
+	"github.com/golang/protobuf/proto"
+
+	types "github.com/netauth/protocol"
+)
 
 // RegisterCallback takes a callback name and handle and registers
 // them for later calling.
@@ -23,17 +29,46 @@ func (db *DB) FireEvent(e Event) {
 	}
 }
 
+// put stores a record, and lets the event that the store fires for it
+// carry the record.
+func (db *DB) put(k string, m proto.Message, b []byte) error {
+	db.savingM.Lock()
+	db.saving[k] = m
+	db.savingM.Unlock()
+	defer func() {
+		db.savingM.Lock()
+		delete(db.saving, k)
+		db.savingM.Unlock()
+	}()
+	return db.kv.Put(k, b)
+}
+
+// kvEvent passes on an event of the store.
+func (db *DB) kvEvent(e Event) {
+	db.savingM.Lock()
+	switch e.Type {
+	case EventEntityCreate, EventEntityUpdate:
+		e.Entity, _ = db.saving[path.Join("/entities", e.PK)].(*types.Entity)
+	case EventGroupCreate, EventGroupUpdate:
+		e.Group, _ = db.saving[path.Join("/groups", e.PK)].(*types.Group)
+	}
+	db.savingM.Unlock()
+	db.FireEvent(e)
+}
+
 // EventUpdateAll fires an event for all entities and all groups with
 // the type set to "Update".  This is used to allow the async
 // components that are event driven to pre-load on a server startup
-// and begin monitoring changes after the load completes.
+// and begin monitoring changes after the load completes.  An error is
+// returned if something could not be loaded.
 func (db *DB) EventUpdateAll() error {
 	ids, err := db.DiscoverEntityIDs()
 	if err != nil {
 		return err
 	}
+	var failed error
 	for _, i := range ids {
-		db.FireEvent(Event{Type: EventEntityUpdate, PK: path.Base(i)})
+		db.FireEvent(Event{Type: EventEntityUpdate, PK: path.Base(i), err: &failed})
 	}
 
 	ids, err = db.DiscoverGroupNames()
@@ -41,12 +76,19 @@ func (db *DB) EventUpdateAll() error {
 		return err
 	}
 	for _, i := range ids {
-		db.FireEvent(Event{Type: EventGroupUpdate, PK: path.Base(i)})
+		db.FireEvent(Event{Type: EventGroupUpdate, PK: path.Base(i), err: &failed})
 	}
-	return nil
+	return failed
 }
 
 // IsEmpty is used to test for an empty event being returned.
 func (e *Event) IsEmpty() bool {
 	return e.PK == ""
 }
+
+// Failed is called by a callback that could not process an event.
+func (e Event) Failed(err error) {
+	if e.err != nil {
+		*e.err = err
+	}
+}
diff --git a/internal/db/db.go b/internal/db/db.go
index e46ea3d..4e22973 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -31,8 +31,10 @@ func New(backend string) (*DB, error) {
 		Index: idx,
 		kv:    kv,
 		cbs:   make(map[string]Callback),
+
+		saving: make(map[string]proto.Message),
 	}
-	kv.SetEventFunc(x.FireEvent)
+	kv.SetEventFunc(x.kvEvent)
 	x.Index.ConfigureCallback(x.LoadEntity, x.LoadGroup)
 	x.RegisterCallback("BleveSearch", x.Index.IndexCallback)
 
@@ -85,7 +87,7 @@ func (db *DB) SaveEntity(e *types.Entity) error {
 		db.log.Warn("Entity ID can not be stored", "ID", e.GetID())
 		return ErrBadName
 	}
-	if err := db.kv.Put(path.Join("/entities", e.GetID()), b); err != nil {
+	if err := db.put(path.Join("/entities", e.GetID()), e, b); err != nil {
 		db.log.Warn("Error storing entity", "error", err)
 		return ErrInternalError
 	}
@@ -144,7 +146,7 @@ func (db *DB) SaveGroup(g *types.Group) error {
 		db.log.Warn("Group name can not be stored", "name", g.GetName())
 		return ErrBadName
 	}
-	if err := db.kv.Put(path.Join("/groups", g.GetName()), b); err != nil {
+	if err := db.put(path.Join("/groups", g.GetName()), g, b); err != nil {
 		db.log.Warn("Error storing group", "error", err)
 		return err
 	}
diff --git a/internal/db/search.go b/internal/db/search.go
index 9c4e582..edca867 100644
--- a/internal/db/search.go
+++ b/internal/db/search.go
@@ -82,10 +82,14 @@ func (s *Index) IndexCallback(e Event) {
 	case EventEntityCreate:
 		fallthrough
 	case EventEntityUpdate:
-		ent, err := s.eLoader(e.PK)
-		if err != nil {
-			s.l.Warn("Could not reindex entity", "entity", e.PK, "error", err)
-			return
+		ent := e.Entity
+		if ent == nil {
+			var err error
+			if ent, err = s.eLoader(e.PK); err != nil {
+				s.l.Warn("Could not reindex entity", "entity", e.PK, "error", err)
+				e.Failed(err)
+				return
+			}
 		}
 		s.IndexEntity(ent)
 	case EventEntityDestroy:
@@ -93,10 +97,14 @@ func (s *Index) IndexCallback(e Event) {
 	case EventGroupCreate:
 		fallthrough
 	case EventGroupUpdate:
-		grp, err := s.gLoader(e.PK)
-		if err != nil {
-			s.l.Warn("Could not reindex group", "group", e.PK, "error", err)
-			return
+		grp := e.Group
+		if grp == nil {
+			var err error
+			if grp, err = s.gLoader(e.PK); err != nil {
+				s.l.Warn("Could not reindex group", "group", e.PK, "error", err)
+				e.Failed(err)
+				return
+			}
 		}
 		s.IndexGroup(grp)
 	case EventGroupDestroy:
diff --git a/internal/db/type.go b/internal/db/type.go
index 459fb94..30f2f9d 100644
--- a/internal/db/type.go
+++ b/internal/db/type.go
@@ -1,6 +1,9 @@
 package db
 
 import (
+	"sync"
+
+	"github.com/golang/protobuf/proto"
 	"github.com/hashicorp/go-hclog"
 
 	types "github.com/netauth/protocol"
@@ -32,6 +35,10 @@ type DB struct {
 	kv  KVStore
 	cbs map[string]Callback
 
+	// saving holds the records that are being stored, by key.
+	saving  map[string]proto.Message
+	savingM sync.Mutex
+
 	*Index
 }
 
@@ -60,6 +67,14 @@ type Callback func(Event)
 type Event struct {
 	Type EventType
 	PK   string
+
+	// Entity or Group is the record that was just stored, so that
+	// no callback depends on being able to read it back.  They are
+	// nil if the sender of an update event doesn't have it.
+	Entity *types.Entity
+	Group  *types.Group
+
+	err *error
 }
 
 // An EventType is used to specify what kind of event has happened and
diff --git a/internal/tree/entity.go b/internal/tree/entity.go
index 5810139..5bcae37 100644
--- a/internal/tree/entity.go
+++ b/internal/tree/entity.go
@@ -365,10 +365,14 @@ func (m *Manager) entityResolverCallback(e db.Event) {
 	case db.EventEntityCreate:
 		fallthrough
 	case db.EventEntityUpdate:
-		ent, err := m.db.LoadEntity(e.PK)
-		if err != nil {
-			m.log.Warn("Unchecked load error in entityResolverCallback", "error", err)
-			return
+		ent := e.Entity
+		if ent == nil {
+			var err error
+			if ent, err = m.db.LoadEntity(e.PK); err != nil {
+				m.log.Warn("Load error in entityResolverCallback", "error", err)
+				e.Failed(err)
+				return
+			}
 		}
 		m.resolver.SyncDirectGroups(ent.GetID(), ent.GetMeta().GetGroups())
 	case db.EventEntityDestroy:
diff --git a/internal/tree/group.go b/internal/tree/group.go
index 589d4a4..65a86a6 100644
--- a/internal/tree/group.go
+++ b/internal/tree/group.go
@@ -220,10 +220,14 @@ func (m *Manager) groupResolverCallback(e db.Event) {
 	case db.EventGroupCreate:
 		fallthrough
 	case db.EventGroupUpdate:
-		grp, err := m.db.LoadGroup(e.PK)
-		if err != nil {
-			m.log.Warn("Unchecked load error in groupResolverCallback", "error", err)
-			return
+		grp := e.Group
+		if grp == nil {
+			var err error
+			if grp, err = m.db.LoadGroup(e.PK); err != nil {
+				m.log.Warn("Load error in groupResolverCallback", "error", err)
+				e.Failed(err)
+				return
+			}
 		}
 		exps := make(map[string][]string, 2)
 		for _, r := range grp.GetExpansions() {
-- 
2.43.0


From f6f5c0cd608a2a38cf24919cb9814e4bc3b36b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 20/52] fix: make changes in the filesystem store permanent and
 its errors visible

Replaced and removed files could come back after a power failure since
directories were not synced.  A crash left temporary files among the
records, where they were taken for records.  Errors while listing or
removing records were ignored.
---
 internal/db/filesystem/filesystem.go | 162 ++++++++++++++++++++++-----
 1 file changed, 136 insertions(+), 26 deletions(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index c2cb2fe..f82c12e 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -17,7 +17,9 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
+	"sync"
 
 	atomic "github.com/google/renameio"
 	"github.com/hashicorp/go-hclog"
@@ -32,6 +34,11 @@ import (
 type Filesystem struct {
 	basePath string
 
+	// m keeps a change from being read before it is safely on the
+	// disk.  synced lists the directories known to be.
+	m      sync.RWMutex
+	synced map[string]bool
+
 	l  hclog.Logger
 	eF func(db.Event)
 }
@@ -83,18 +90,76 @@ func (fs *Filesystem) Put(k string, v []byte) error {
 		return err
 	}
 
-	if err := os.MkdirAll(filepath.Dir(p), 0750); err != nil {
-		return err
+	done, err := fs.put(p, v)
+	if done {
+		fs.fireEventForKey(k, eventUpdate)
 	}
+	return err
+}
 
-	if err := atomic.WriteFile(p, v, 0640); err != nil {
-		return err
+// put writes a file by replacing it as a whole.  It returns whether the
+// replacement happened; the error may still be that it could not be
+// made permanent.
+func (fs *Filesystem) put(p string, v []byte) (bool, error) {
+	fs.m.Lock()
+	defer fs.m.Unlock()
+
+	if err := fs.makeDir(filepath.Dir(p)); err != nil {
+		return false, err
 	}
 
-	fs.fireEventForKey(k, eventUpdate)
+	// The temporary file stays out of the directories that contain
+	// values, as it is left behind in a crash.
+	t, err := atomic.TempFile(fs.basePath, p)
+	if err != nil {
+		return false, err
+	}
+	defer t.Cleanup()
+	if err := t.Chmod(0640); err != nil {
+		return false, err
+	}
+	if _, err := t.Write(v); err != nil {
+		return false, err
+	}
+	if err := t.CloseAtomicallyReplace(); err != nil {
+		return false, err
+	}
+	return true, syncDir(filepath.Dir(p))
+}
+
+// makeDir makes sure that a directory exists, and that it will after a
+// power failure.
+func (fs *Filesystem) makeDir(dir string) error {
+	if err := os.MkdirAll(dir, 0750); err != nil {
+		return err
+	}
+	if fs.synced[dir] {
+		return nil
+	}
+	top := filepath.Dir(fs.basePath)
+	for d := dir; d != top && d != filepath.Dir(d); {
+		d = filepath.Dir(d)
+		if err := syncDir(d); err != nil {
+			return err
+		}
+	}
+	if fs.synced == nil {
+		fs.synced = make(map[string]bool)
+	}
+	fs.synced[dir] = true
 	return nil
 }
 
+// syncDir makes changes to the content of a directory permanent.
+func syncDir(dir string) error {
+	d, err := os.Open(dir)
+	if err != nil {
+		return err
+	}
+	defer d.Close()
+	return d.Sync()
+}
+
 // Get returns a series of bytes from the filesystem, checking to make
 // sure that the bytes come from inside the base path.
 func (fs *Filesystem) Get(k string) ([]byte, error) {
@@ -103,6 +168,8 @@ func (fs *Filesystem) Get(k string) ([]byte, error) {
 		return nil, err
 	}
 
+	fs.m.RLock()
+	defer fs.m.RUnlock()
 	bytes, err := ioutil.ReadFile(p)
 	if os.IsNotExist(err) {
 		return nil, db.ErrNoValue
@@ -120,16 +187,25 @@ func (fs *Filesystem) Del(k string) error {
 		return err
 	}
 
-	if _, err := os.Stat(p); os.IsNotExist(err) {
-		return db.ErrNoValue
+	done, err := fs.del(p)
+	if done {
+		fs.fireEventForKey(k, eventDelete)
 	}
+	return err
+}
 
-	if err := os.Remove(p); err != nil {
-		return err
-	}
+func (fs *Filesystem) del(p string) (bool, error) {
+	fs.m.Lock()
+	defer fs.m.Unlock()
 
-	fs.fireEventForKey(k, eventDelete)
-	return nil
+	err := os.Remove(p)
+	if os.IsNotExist(err) {
+		return false, db.ErrNoValue
+	}
+	if err != nil {
+		return false, err
+	}
+	return true, syncDir(filepath.Dir(p))
 }
 
 // Keys is a way to enumerate the keys in the key/value store and to
@@ -140,22 +216,56 @@ func (fs *Filesystem) Del(k string) error {
 // includes a path seperator, but this should be filtered out at a
 // higher level.
 func (fs *Filesystem) Keys(f string) ([]string, error) {
-	// Discard error because the hard coded pattern cannot return
-	// an os.PathError
-	keys, _ := filepath.Glob(filepath.Join(fs.basePath, "*", "*"))
-
-	out := make([]string, len(keys))
-	i := 0
-	for _, k := range keys {
-		k, _ = filepath.Rel(fs.basePath, k)
-		k = "/" + k
-		if m, _ := filepath.Match(f, k); m {
-			out[i] = k
-			fs.l.Trace("Matched filter", "key", k)
-			i++
+	fs.m.RLock()
+	defer fs.m.RUnlock()
+
+	out := []string{}
+	dirs, err := list(fs.basePath)
+	if os.IsNotExist(err) {
+		return out, nil
+	}
+	if err != nil {
+		return nil, err
+	}
+	for _, d := range dirs {
+		info, err := os.Stat(filepath.Join(fs.basePath, d))
+		if os.IsNotExist(err) {
+			continue
 		}
+		if err != nil {
+			return nil, err
+		}
+		if !info.IsDir() {
+			continue
+		}
+		keys, err := list(filepath.Join(fs.basePath, d))
+		if err != nil {
+			return nil, err
+		}
+		for _, k := range keys {
+			k = "/" + d + "/" + k
+			if m, _ := filepath.Match(f, k); m {
+				out = append(out, k)
+				fs.l.Trace("Matched filter", "key", k)
+			}
+		}
+	}
+	return out, nil
+}
+
+// list returns the names in a directory.
+func list(dir string) ([]string, error) {
+	d, err := os.Open(dir)
+	if err != nil {
+		return nil, err
+	}
+	defer d.Close()
+	names, err := d.Readdirnames(-1)
+	if err != nil {
+		return nil, err
 	}
-	return out[:i], nil
+	sort.Strings(names)
+	return names, nil
 }
 
 // Close is required by the interface, but all operations on the
-- 
2.43.0


From 26bebb5df5df043ecabbf13912d1211eacce5319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 21/52] fix: do not start after a bootstrap that failed

The server came up without the requested superuser.
---
 cmd/netauthd/main.go    | 4 +++-
 internal/rpc2/type.go   | 2 +-
 internal/tree/entity.go | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cmd/netauthd/main.go b/cmd/netauthd/main.go
index e12621b..82242bd 100644
--- a/cmd/netauthd/main.go
+++ b/cmd/netauthd/main.go
@@ -217,7 +217,9 @@ func doSuperuserBootstrap(t *tree.Manager) error {
 	}
 	appLogger.Info("Beginning Bootstrap")
 	eParts := strings.SplitN(*bootstrap, ":", 2)
-	t.Bootstrap(eParts[0], eParts[1])
+	if err := t.Bootstrap(eParts[0], eParts[1]); err != nil {
+		return err
+	}
 	appLogger.Info("Bootstrap complete")
 	return nil
 }
diff --git a/internal/rpc2/type.go b/internal/rpc2/type.go
index 6d53ebf..b27a11d 100644
--- a/internal/rpc2/type.go
+++ b/internal/rpc2/type.go
@@ -38,7 +38,7 @@ type Manager interface {
 	RegisterEntityHookToChain(string, string) error
 	RegisterGroupHookToChain(string, string) error
 
-	Bootstrap(string, string)
+	Bootstrap(string, string) error
 	DisableBootstrap()
 
 	CreateEntity(string, int32, string) error
diff --git a/internal/tree/entity.go b/internal/tree/entity.go
index 5bcae37..f5cdd7e 100644
--- a/internal/tree/entity.go
+++ b/internal/tree/entity.go
@@ -35,9 +35,9 @@ func (m *Manager) CreateEntity(ID string, number int32, secret string) error {
 // only be called once during startup, attepts to call it again will
 // result in no change.  The bootstrap user will always get the next
 // available number which in most cases will be 1.
-func (m *Manager) Bootstrap(ID string, secret string) {
+func (m *Manager) Bootstrap(ID string, secret string) error {
 	if m.bootstrapDone {
-		return
+		return nil
 	}
 
 	de := &pb.Entity{
@@ -54,6 +54,7 @@ func (m *Manager) Bootstrap(ID string, secret string) {
 	if err != nil {
 		m.log.Error("Bootstrap Failed", "error", err)
 	}
+	return err
 }
 
 // DisableBootstrap disables the ability to bootstrap after the
-- 
2.43.0


From ce0f7f1058406e3ac088226a57a7812167ccaa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:53 +0000
Subject: [PATCH 22/52] fix: report a failed copy of the data store

Errors while listing, truncating, reading and writing left the exit
status at zero, and copying a store onto itself emptied it.
---
 cmd/nsutil/db_copy.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmd/nsutil/db_copy.go b/cmd/nsutil/db_copy.go
index ffb5ece..6ded233 100644
--- a/cmd/nsutil/db_copy.go
+++ b/cmd/nsutil/db_copy.go
@@ -43,6 +43,11 @@ func init() {
 func dbCopyCmdRun(c *cobra.Command, args []string) {
 	startup.DoCallbacks()
 
+	if args[0] == args[1] {
+		fmt.Fprintf(os.Stderr, "Source and target must be different\n")
+		os.Exit(1)
+	}
+
 	source, err := db.NewKV(args[0], nil)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error initializing source: %s\n", err)
@@ -52,6 +57,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	sourceKeys, err := source.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from source: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Source initialized, contains %d objects.\n", len(sourceKeys))
 
@@ -64,6 +70,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	targetKeys, err := target.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from target: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Target initialized, contains %d objects.\n", len(targetKeys))
 
@@ -82,6 +89,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 		for _, k := range targetKeys {
 			if err := target.Del(k); err != nil {
 				fmt.Fprintf(os.Stderr, "Error truncating target: %s\n", err)
+				os.Exit(1)
 			}
 		}
 	}
@@ -101,5 +109,12 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 		}
 		count++
 	}
-	fmt.Println("Copy complete; %d objects were copied.  If this number does not match the number of source objects you have encountered copy errors and should review them above!", count)
+	if err := target.Close(); err != nil {
+		fmt.Fprintf(os.Stderr, "Error closing target: %s\n", err)
+		os.Exit(1)
+	}
+	fmt.Printf("Copy complete; %d objects were copied.  If this number does not match the number of source objects you have encountered copy errors and should review them above!\n", count)
+	if count != len(sourceKeys) {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 4ab5279c83d0e7b9a7a4902f873a6755597850d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:35 +0000
Subject: [PATCH 23/52] fix: write token keys atomically and don't use keys
 that do not match

A crash while the keys were generated left files behind with which the
server would not start again.
---
 internal/db/filesystem/filesystem.go |  4 +++
 internal/token/jwt/rsa.go            | 51 ++++++++++++++++++++++++++--
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index f82c12e..74c1053 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -17,6 +17,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"runtime"
 	"sort"
 	"strings"
 	"sync"
@@ -152,6 +153,9 @@ func (fs *Filesystem) makeDir(dir string) error {
 
 // syncDir makes changes to the content of a directory permanent.
 func syncDir(dir string) error {
+	if runtime.GOOS == "windows" {
+		return nil // not possible there
+	}
 	d, err := os.Open(dir)
 	if err != nil {
 		return err
diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index 193ef19..c8a1d99 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -8,7 +8,9 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"runtime"
 
+	atomic "github.com/google/renameio"
 	"github.com/hashicorp/go-hclog"
 	"github.com/spf13/viper"
 
@@ -209,6 +211,12 @@ func (s *RSATokenService) GetKeys() error {
 		// needed if all you want to do is verify a signature.
 		s.privateKey = nil
 		s.log.Warn("Error unmarshaling private key", "file", s.privateKeyFile, "error", err)
+		return nil
+	}
+	if s.privateKey.PublicKey.E != p.E || s.privateKey.PublicKey.N.Cmp(p.N) != 0 {
+		// Tokens signed with this key could not be verified.
+		s.privateKey = nil
+		s.log.Warn("Private key does not belong to the public key", "file", s.privateKeyFile)
 	}
 
 	// Keys loaded and ready to sign with
@@ -235,6 +243,8 @@ func (s *RSATokenService) generateKeys(bits int) error {
 	}
 	s.publicKey = &s.privateKey.PublicKey
 
+	// The public key goes last, since its presence means that the
+	// pair is complete.
 	if err := marshalPrivateKey(s.privateKey, s.privateKeyFile); err != nil {
 		return err
 	}
@@ -242,6 +252,9 @@ func (s *RSATokenService) generateKeys(bits int) error {
 	if err := marshalPublicKey(s.publicKey, s.publicKeyFile); err != nil {
 		return err
 	}
+	if err := syncDir(filepath.Dir(path)); err != nil {
+		return token.ErrInternalError
+	}
 
 	// At this point the key is saved to disk and
 	// initialized
@@ -303,7 +316,7 @@ func marshalPrivateKey(key *rsa.PrivateKey, path string) error {
 			Bytes: x509.MarshalPKCS1PrivateKey(key),
 		},
 	)
-	if err := ioutil.WriteFile(path, pridata, 0400); err != nil {
+	if err := writeKey(path, pridata, 0400); err != nil {
 		return token.ErrInternalError
 	}
 
@@ -323,8 +336,42 @@ func marshalPublicKey(key *rsa.PublicKey, path string) error {
 			Bytes: pubASN1,
 		},
 	)
-	if err := ioutil.WriteFile(path, pubdata, 0644); err != nil {
+	if err := writeKey(path, pubdata, 0644); err != nil {
 		return token.ErrInternalError
 	}
 	return nil
 }
+
+// writeKey writes a key file in such a way that it is either complete
+// or not there, even after a crash.
+func writeKey(path string, data []byte, mode os.FileMode) error {
+	dir := filepath.Dir(path)
+	t, err := atomic.TempFile(dir, path)
+	if err != nil {
+		return err
+	}
+	defer t.Cleanup()
+	if err := t.Chmod(mode); err != nil {
+		return err
+	}
+	if _, err := t.Write(data); err != nil {
+		return err
+	}
+	if err := t.CloseAtomicallyReplace(); err != nil {
+		return err
+	}
+	return syncDir(dir)
+}
+
+// syncDir makes changes to the content of a directory permanent.
+func syncDir(dir string) error {
+	if runtime.GOOS == "windows" {
+		return nil // not possible there
+	}
+	d, err := os.Open(dir)
+	if err != nil {
+		return err
+	}
+	defer d.Close()
+	return d.Sync()
+}
-- 
2.43.0


From f15b741ad064a2eb23d375842dc78a0b4dbe57b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:46 +0000
Subject: [PATCH 24/52] fix: store cached tokens whole and keep owners apart

An interrupted store left a part of a token behind which was then taken
for a token, and owner names with separators shared files.
---
 pkg/netauth/cache/fs/fs.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index 449362a..aac5dc6 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -1,10 +1,6 @@
 // Package fs implements a filesystem based token cache.  This is the
 // cache that most programs will want to use since the tokens can be
 // pre-fetched by the system's login tasks or by the NetAuth CLI.
-//
-// This package has known data races and does not use atomic file
-// writes because this functionality is hilariously broken on MS
-// Windows, and the risk is tolerable.
 package fs
 
 import (
@@ -12,6 +8,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/netauth/netauth/pkg/netauth/cache"
 )
@@ -20,6 +17,8 @@ const (
 	extension = "nt"
 )
 
+var ownerEscaper = strings.NewReplacer("%", "%25", "/", "%2F", "\\", "%5C")
+
 type fsCache struct {
 	basepath string
 }
@@ -37,9 +36,27 @@ func new() (cache.TokenCache, error) {
 
 // PutToken will write the token to a file in the specified basepath.
 // The file will be written with the permissions of the curent user
-// and will not be readable to other users.
+// and will not be readable to other users.  A token that was there
+// before is replaced as a whole.
 func (fc *fsCache) PutToken(owner, token string) error {
-	return ioutil.WriteFile(fc.filepathFromOwner(owner), []byte(token), 0600)
+	f, err := ioutil.TempFile(fc.basepath, "netauth-*.tmp")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write([]byte(token))
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), fc.filepathFromOwner(owner))
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
 }
 
 // GetToken will retrieve a file of the form <owner>.<extension> and
@@ -68,10 +85,11 @@ func (fc *fsCache) DelToken(owner string) error {
 }
 
 // filepathFromOwner is a convenience function which encapsulates the
-// path selection logic for where tokens are stored.
+// path selection logic for where tokens are stored.  Every owner has a
+// file of their own in the base path.
 func (fc *fsCache) filepathFromOwner(owner string) string {
 	return filepath.Join(
 		fc.basepath,
-		fmt.Sprintf("%s.%s", owner, extension),
+		fmt.Sprintf("%s.%s", ownerEscaper.Replace(owner), extension),
 	)
 }
-- 
2.43.0


From 7813839dca3083c625058c7f9da2fbba2cb2cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:26 +0000
Subject: [PATCH 25/52] fix: list and search records while others are deleted

A record that was deleted between looking it up and loading it made the
whole request fail.
---
 internal/db/db.go           | 8 ++++++++
 internal/tree/membership.go | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 4e22973..97683f0 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -264,6 +264,10 @@ func (db *DB) loadEntityBatch(ids []string) ([]*types.Entity, error) {
 
 	for i := range ids {
 		e, err := db.LoadEntity(ids[i])
+		if err == ErrUnknownEntity {
+			// Deleted since the IDs were determined.
+			continue
+		}
 		if err != nil {
 			return nil, err
 		}
@@ -277,6 +281,10 @@ func (db *DB) loadGroupBatch(ids []string) ([]*types.Group, error) {
 
 	for i := range ids {
 		g, err := db.LoadGroup(ids[i])
+		if err == ErrUnknownGroup {
+			// Deleted since the names were determined.
+			continue
+		}
 		if err != nil {
 			return nil, err
 		}
diff --git a/internal/tree/membership.go b/internal/tree/membership.go
index 233ed8b..4f9bed6 100644
--- a/internal/tree/membership.go
+++ b/internal/tree/membership.go
@@ -3,6 +3,8 @@ package tree
 import (
 	"fmt"
 
+	"github.com/netauth/netauth/internal/db"
+
 	pb "github.com/netauth/protocol"
 	rpc "github.com/netauth/protocol/v2"
 )
@@ -51,6 +53,10 @@ func (m *Manager) ListMembers(groupID string) ([]*pb.Entity, error) {
 	entities := []*pb.Entity{}
 	for i := range eIDs {
 		e, err := m.db.LoadEntity(eIDs[i])
+		if err == db.ErrUnknownEntity {
+			// Deleted since the members were determined.
+			continue
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From bb3b8a8478a00520961e99607f4a28ca5233d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:27 +0000
Subject: [PATCH 26/52] fix: notice bitcask data files that could not be listed

An error while reading the directory during startup, or when reloading
after a failed write, looked like an empty store.
---
 internal/db/bitcask/bitcask.go | 29 ++++++++++++++++++--
 internal/db/bitcask/prepare.go | 48 +++++++++++++++++++++++++---------
 2 files changed, 62 insertions(+), 15 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index 9f65355..743c3aa 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -4,6 +4,7 @@ package bitcask
 
 import (
 	"bytes"
+	"errors"
 	"path"
 	"path/filepath"
 	"strings"
@@ -22,6 +23,8 @@ const (
 	maxValueSize = 1024 * 1000 * 5 // 5MiB
 )
 
+var errNotLoaded = errors.New("not all data files could be loaded")
+
 func init() {
 	startup.RegisterCallback(cb)
 }
@@ -61,7 +64,8 @@ func New(l hclog.Logger) (db.KVStore, error) {
 	x.l = l.Named("bitcask")
 	x.path = filepath.Join(viper.GetString("core.home"), "bc")
 
-	if err := prepareUnlocked(x.path); err != nil {
+	files, err := prepareUnlocked(x.path)
+	if err != nil {
 		return nil, err
 	}
 	opts := []bitcask.Option{
@@ -75,21 +79,42 @@ func New(l hclog.Logger) (db.KVStore, error) {
 		return nil, err
 	}
 	x.s = b
+	if err := x.complete(files); err != nil {
+		b.Close()
+		return nil, err
+	}
 	return x, nil
 }
 
+// complete makes sure that all data files were loaded, as a directory
+// that can't be read looks like an empty one to the library.
+func (bcs *BCStore) complete(files int) error {
+	stats, err := bcs.s.Stats()
+	if err != nil {
+		return err
+	}
+	if stats.Datafiles != files {
+		return errNotLoaded
+	}
+	return nil
+}
+
 // usable makes sure that the store can be used, after a failed write
 // as well.
 func (bcs *BCStore) usable() error {
 	if !bcs.failed {
 		return nil
 	}
-	if err := prepare(bcs.path); err != nil {
+	files, err := prepare(bcs.path)
+	if err != nil {
 		return err
 	}
 	if err := bcs.s.Reopen(); err != nil {
 		return err
 	}
+	if err := bcs.complete(files); err != nil {
+		return err
+	}
 	bcs.failed = false
 	return nil
 }
diff --git a/internal/db/bitcask/prepare.go b/internal/db/bitcask/prepare.go
index f6cbcfa..495f5a0 100644
--- a/internal/db/bitcask/prepare.go
+++ b/internal/db/bitcask/prepare.go
@@ -23,17 +23,17 @@ const (
 )
 
 // prepareUnlocked prepares a store that isn't open.
-func prepareUnlocked(p string) error {
+func prepareUnlocked(p string) (int, error) {
 	if _, err := os.Stat(p); err != nil {
 		if os.IsNotExist(err) {
-			return nil
+			return 0, nil
 		}
-		return err
+		return 0, err
 	}
 
 	lock := flock.New(filepath.Join(p, "lock"))
 	if _, err := lock.TryLock(); err != nil {
-		return bitcask.ErrDatabaseLocked
+		return 0, bitcask.ErrDatabaseLocked
 	}
 	defer lock.Unlock()
 	return prepare(p)
@@ -42,34 +42,56 @@ func prepareUnlocked(p string) error {
 // prepare makes the files of a store that may not have been closed
 // properly ready to be opened.  What the data files contain is all that
 // counts, everything else can be derived from them and is written in
-// place, so it may be damaged or describe an earlier state.
-func prepare(p string) error {
+// place, so it may be damaged or describe an earlier state.  The number
+// of data files is returned.
+func prepare(p string) (int, error) {
 	for _, f := range []string{"index", "meta.json"} {
 		if err := os.Remove(filepath.Join(p, f)); err != nil && !os.IsNotExist(err) {
-			return err
+			return 0, err
 		}
 	}
 
 	cfg := filepath.Join(p, "config.json")
 	b, err := ioutil.ReadFile(cfg)
 	if err != nil && !os.IsNotExist(err) {
-		return err
+		return 0, err
 	}
 	if err == nil && !json.Valid(b) {
 		if err := os.Remove(cfg); err != nil {
-			return err
+			return 0, err
 		}
 	}
 
-	files, err := filepath.Glob(filepath.Join(p, "*.data"))
+	files, err := dataFiles(p)
 	if err != nil {
-		return err
+		return 0, err
 	}
 	if len(files) == 0 {
-		return nil
+		return 0, nil
+	}
+	return len(files), trim(files[len(files)-1])
+}
+
+// dataFiles lists the data files in order.
+func dataFiles(p string) ([]string, error) {
+	d, err := os.Open(p)
+	if err != nil {
+		return nil, err
+	}
+	defer d.Close()
+	names, err := d.Readdirnames(-1)
+	if err != nil {
+		return nil, err
+	}
+
+	var files []string
+	for _, n := range names {
+		if filepath.Ext(n) == ".data" {
+			files = append(files, filepath.Join(p, n))
+		}
 	}
 	sort.Strings(files)
-	return trim(files[len(files)-1])
+	return files, nil
 }
 
 // trim removes an incomplete record from the end of a data file, and
-- 
2.43.0


From 7d5f405557faf96150b1a31979da0440180c8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 27/52] fix: announce failed writes that turn out to have taken
 effect

If the store couldn't be reloaded right after a failed write that took
effect nevertheless, the search index and the memberships were never
updated.
---
 internal/db/bitcask/bitcask.go | 144 ++++++++++++++++++++++-----------
 internal/db/callback.go        |  27 ++++++-
 internal/db/type.go            |   4 +
 3 files changed, 122 insertions(+), 53 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index 743c3aa..4ba6d77 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -3,7 +3,6 @@
 package bitcask
 
 import (
-	"bytes"
 	"errors"
 	"path"
 	"path/filepath"
@@ -23,7 +22,10 @@ const (
 	maxValueSize = 1024 * 1000 * 5 // 5MiB
 )
 
-var errNotLoaded = errors.New("not all data files could be loaded")
+var (
+	errNotLoaded  = errors.New("not all data files could be loaded")
+	errNotSettled = errors.New("no failed write took effect for certain")
+)
 
 func init() {
 	startup.RegisterCallback(cb)
@@ -44,6 +46,14 @@ type BCStore struct {
 	failed bool
 	m      sync.Mutex
 
+	// unsure are the keys of failed writes that may have taken
+	// effect nevertheless, which is known once the files could be
+	// reloaded.  Events are due for them then.
+	unsure []string
+
+	// events serializes changes, along with their events.
+	events sync.Mutex
+
 	l hclog.Logger
 
 	eF func(db.Event)
@@ -120,52 +130,48 @@ func (bcs *BCStore) usable() error {
 }
 
 // fail reloads the store after an error while writing to it, since it
-// can't be written to again and its end may be damaged.  The return
-// value tells whether the value that was to be written, or the deletion
-// for a nil value, took effect nevertheless.
-func (bcs *BCStore) fail(k string, v []byte) bool {
+// can't be written to again and its end may be damaged.
+func (bcs *BCStore) fail(k string) {
 	bcs.failed = true
+	bcs.unsure = append(bcs.unsure, k)
 	if err := bcs.usable(); err != nil {
 		bcs.l.Error("Error reloading the store after a failed write", "error", err)
-		return false
-	}
-	have, err := bcs.s.Get([]byte(k))
-	if v == nil {
-		return err == bitcask.ErrKeyNotFound
 	}
-	return err == nil && bytes.Equal(have, v)
 }
 
 // Put stores the bytes of v at a location identitified by the key k.
 // If the operation fails an error will be returned explaining why.
 func (bcs *BCStore) Put(k string, v []byte) error {
-	done, err := bcs.put(k, v)
-	if done {
+	defer bcs.fireLateEvents()
+	bcs.events.Lock()
+	defer bcs.events.Unlock()
+	err := bcs.put(k, v)
+	if err == nil {
 		bcs.fireEventForKey(k, eventUpdate)
 	}
 	return err
 }
 
-func (bcs *BCStore) put(k string, v []byte) (bool, error) {
+func (bcs *BCStore) put(k string, v []byte) error {
 	bcs.m.Lock()
 	defer bcs.m.Unlock()
 	if err := bcs.usable(); err != nil {
-		return false, err
+		return err
 	}
 
-	switch err := bcs.s.Put([]byte(k), v); err {
-	case nil:
-		return true, nil
-	case bitcask.ErrEmptyKey, bitcask.ErrKeyTooLarge, bitcask.ErrValueTooLarge:
-		return false, err
+	err := bcs.s.Put([]byte(k), v)
+	switch err {
+	case nil, bitcask.ErrEmptyKey, bitcask.ErrKeyTooLarge, bitcask.ErrValueTooLarge:
 	default:
-		return bcs.fail(k, v), err
+		bcs.fail(k)
 	}
+	return err
 }
 
-// Get returns the key at k or an error explaning why no data was
+// Get returns the value at k or an error explaining why no data was
 // returned.
 func (bcs *BCStore) Get(k string) ([]byte, error) {
+	defer bcs.fireLateEvents()
 	bcs.m.Lock()
 	defer bcs.m.Unlock()
 	if err := bcs.usable(); err != nil {
@@ -186,34 +192,37 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 // Del removes any existing value at the location specified by the
 // provided key.
 func (bcs *BCStore) Del(k string) error {
-	done, err := bcs.del(k)
-	if done {
+	defer bcs.fireLateEvents()
+	bcs.events.Lock()
+	defer bcs.events.Unlock()
+	err := bcs.del(k)
+	if err == nil {
 		bcs.fireEventForKey(k, eventDelete)
 	}
 	return err
 }
 
-func (bcs *BCStore) del(k string) (bool, error) {
+func (bcs *BCStore) del(k string) error {
 	bcs.m.Lock()
 	defer bcs.m.Unlock()
 	if err := bcs.usable(); err != nil {
-		return false, err
+		return err
 	}
 
 	if !bcs.s.Has([]byte(k)) {
-		return false, db.ErrNoValue
+		return db.ErrNoValue
 	}
 
 	// Deleting writes a tombstone, but unlike putting a value
-	// doesn't make sure that it reaches the disk.
+	// doesn't sync it.
 	err := bcs.s.Delete([]byte(k))
 	if err == nil {
 		err = bcs.s.Sync()
 	}
 	if err != nil {
-		return bcs.fail(k, nil), err
+		bcs.fail(k)
 	}
-	return true, nil
+	return err
 }
 
 // Keys is a way to enumerate the keys in the key/value store and to
@@ -224,6 +233,7 @@ func (bcs *BCStore) del(k string) (bool, error) {
 // includes a path seperator, but this should be filtered out at a
 // higher level.
 func (bcs *BCStore) Keys(f string) ([]string, error) {
+	defer bcs.fireLateEvents()
 	bcs.m.Lock()
 	defer bcs.m.Unlock()
 	if err := bcs.usable(); err != nil {
@@ -231,8 +241,8 @@ func (bcs *BCStore) Keys(f string) ([]string, error) {
 	}
 
 	out := []string{}
-	for bk := range bcs.s.Keys() {
-		k := string(bk)
+	for key := range bcs.s.Keys() {
+		k := string(key)
 		if m, _ := path.Match(f, k); m {
 			out = append(out, k)
 		}
@@ -257,30 +267,66 @@ func (bcs *BCStore) Capabilities() []db.KVCapability {
 // fireEventForKey maps from a key to an entity or group and fires an
 // appropriate event for the given key.
 func (bcs *BCStore) fireEventForKey(k string, t eventType) {
+	bcs.fireEvent(k, t, db.Event{PK: filepath.Base(k)})
+}
+
+func (bcs *BCStore) fireEvent(k string, t eventType, e db.Event) {
 	switch {
 	case t == eventUpdate && strings.HasPrefix(k, "/entities/"):
-		bcs.eF(db.Event{
-			PK:   filepath.Base(k),
-			Type: db.EventEntityUpdate,
-		})
+		e.Type = db.EventEntityUpdate
 	case t == eventDelete && strings.HasPrefix(k, "/entities/"):
-		bcs.eF(db.Event{
-			PK:   filepath.Base(k),
-			Type: db.EventEntityDestroy,
-		})
+		e.Type = db.EventEntityDestroy
 	case t == eventUpdate && strings.HasPrefix(k, "/groups/"):
-		bcs.eF(db.Event{
-			PK:   filepath.Base(k),
-			Type: db.EventGroupUpdate,
-		})
+		e.Type = db.EventGroupUpdate
 	case t == eventDelete && strings.HasPrefix(k, "/groups/"):
-		bcs.eF(db.Event{
-			PK:   filepath.Base(k),
-			Type: db.EventGroupDestroy,
-		})
+		e.Type = db.EventGroupDestroy
 	default:
 		bcs.l.Warn("Event translation called with unknown key prefix", "type", t, "key", k)
+		return
+	}
+	bcs.eF(e)
+}
+
+// fireLateEvents fires the events that became due for failed writes,
+// according to what is stored.  Whoever is firing events already will do
+// that if there are others, as callbacks read from the store, too.
+func (bcs *BCStore) fireLateEvents() {
+	for bcs.late() && bcs.events.TryLock() {
+		k, v, err := bcs.settle()
+		switch err {
+		case nil:
+			bcs.fireEvent(k, eventUpdate, db.Event{PK: filepath.Base(k), Value: v})
+		case bitcask.ErrKeyNotFound:
+			bcs.fireEvent(k, eventDelete, db.Event{PK: filepath.Base(k)})
+		}
+		bcs.events.Unlock()
+		if err != nil && err != bitcask.ErrKeyNotFound {
+			return
+		}
+	}
+}
+
+// late is true if there are late events to be fired.
+func (bcs *BCStore) late() bool {
+	bcs.m.Lock()
+	defer bcs.m.Unlock()
+	return !bcs.failed && len(bcs.unsure) > 0
+}
+
+// settle returns what is stored for the next key that a late event has
+// to be fired for.
+func (bcs *BCStore) settle() (string, []byte, error) {
+	bcs.m.Lock()
+	defer bcs.m.Unlock()
+	if bcs.failed || len(bcs.unsure) == 0 {
+		return "", nil, errNotSettled
+	}
+	k := bcs.unsure[0]
+	v, err := bcs.s.Get([]byte(k))
+	if err == nil || err == bitcask.ErrKeyNotFound {
+		bcs.unsure = bcs.unsure[1:]
 	}
+	return k, v, err
 }
 
 // SetEventFunc sets up a function to call to fire events to
diff --git a/internal/db/callback.go b/internal/db/callback.go
index a5f810b..04430f2 100644
--- a/internal/db/callback.go
+++ b/internal/db/callback.go
@@ -45,17 +45,36 @@ func (db *DB) put(k string, m proto.Message, b []byte) error {
 
 // kvEvent passes on an event of the store.
 func (db *DB) kvEvent(e Event) {
-	db.savingM.Lock()
 	switch e.Type {
 	case EventEntityCreate, EventEntityUpdate:
-		e.Entity, _ = db.saving[path.Join("/entities", e.PK)].(*types.Entity)
+		if e.Value == nil {
+			e.Entity, _ = db.saved(path.Join("/entities", e.PK)).(*types.Entity)
+			break
+		}
+		e.Entity = &types.Entity{}
+		if err := proto.Unmarshal(e.Value, e.Entity); err != nil {
+			e.Entity = nil
+		}
 	case EventGroupCreate, EventGroupUpdate:
-		e.Group, _ = db.saving[path.Join("/groups", e.PK)].(*types.Group)
+		if e.Value == nil {
+			e.Group, _ = db.saved(path.Join("/groups", e.PK)).(*types.Group)
+			break
+		}
+		e.Group = &types.Group{}
+		if err := proto.Unmarshal(e.Value, e.Group); err != nil {
+			e.Group = nil
+		}
 	}
-	db.savingM.Unlock()
 	db.FireEvent(e)
 }
 
+// saved returns the record that is being stored under a key.
+func (db *DB) saved(k string) proto.Message {
+	db.savingM.Lock()
+	defer db.savingM.Unlock()
+	return db.saving[k]
+}
+
 // EventUpdateAll fires an event for all entities and all groups with
 // the type set to "Update".  This is used to allow the async
 // components that are event driven to pre-load on a server startup
diff --git a/internal/db/type.go b/internal/db/type.go
index 30f2f9d..645ed9c 100644
--- a/internal/db/type.go
+++ b/internal/db/type.go
@@ -74,6 +74,10 @@ type Event struct {
 	Entity *types.Entity
 	Group  *types.Group
 
+	// Value is what is stored, if the sender of an update event
+	// knows that it needn't be the record that is being saved.
+	Value []byte
+
 	err *error
 }
 
-- 
2.43.0


From 7d7c1af9252f5f5c5f77ae2db6b95335111011c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 28/52] fix: make interrupted changes permanent before reading
 them

A change that a crash interrupted was visible to the next process using
the filesystem store, but still could be undone by a power failure.
---
 internal/db/filesystem/filesystem.go | 29 ++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index 74c1053..9a3e9e6 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -74,9 +74,38 @@ func newKV(l hclog.Logger) (db.KVStore, error) {
 		basePath: filepath.Join(viper.GetString("core.home"), "kv"),
 	}
 
+	if err := x.syncAll(); err != nil {
+		return nil, err
+	}
 	return x, nil
 }
 
+// syncAll makes what is about to be read permanent, as changes that a
+// crash interrupted may not be yet.
+func (fs *Filesystem) syncAll() error {
+	dirs, err := list(fs.basePath)
+	if os.IsNotExist(err) {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+	for _, d := range dirs {
+		d = filepath.Join(fs.basePath, d)
+		info, err := os.Stat(d)
+		if err != nil {
+			return err
+		}
+		if !info.IsDir() {
+			continue
+		}
+		if err := syncDir(d); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 // SetEventFunc sets up a function to call to fire events to
 // subscribers.
 func (fs *Filesystem) SetEventFunc(ef func(db.Event)) {
-- 
2.43.0


From ad35184d610accb8be1ae5ea0aa5e52e19bfd242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:47 +0000
Subject: [PATCH 29/52] fix: refuse secrets that bcrypt would truncate

Secrets that agree in their first 72 bytes were taken for the same.
---
 internal/crypto/bcrypt/bcrypt.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/crypto/bcrypt/bcrypt.go b/internal/crypto/bcrypt/bcrypt.go
index 37ee50b..8091c67 100644
--- a/internal/crypto/bcrypt/bcrypt.go
+++ b/internal/crypto/bcrypt/bcrypt.go
@@ -19,6 +19,9 @@ func cb() {
 	crypto.Register("bcrypt", New)
 }
 
+// maxLength is the number of bytes that bcrypt takes into account.
+const maxLength = 72
+
 // Engine binds the functions of the BCrypt Crypto system and
 // satisfies the crypto.EMCrypto interface.  The parameter 'cost' is
 // used to set the cost of the algorithm and should be set on a
@@ -38,8 +41,13 @@ func New(l hclog.Logger) (crypto.EMCrypto, error) {
 }
 
 // SecureSecret takes in a secret and generates a bcrypt hash from it.
-// This is then returned for storage in the database.
+// This is then returned for storage in the database.  Secrets of which
+// bcrypt would ignore a part are refused.
 func (b *Engine) SecureSecret(secret string) (string, error) {
+	if len(secret) > maxLength {
+		b.l.Debug("Secret is too long", "length", len(secret))
+		return "", crypto.ErrInternalError
+	}
 	hash, err := bcrypt.GenerateFromPassword([]byte(secret), b.cost)
 	if err != nil {
 		b.l.Debug("Bcrypt Error has occurred", "error", err)
-- 
2.43.0


From d43cf5c08f81ca0c1eda3652271e1aa538a854d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:40 +0000
Subject: [PATCH 30/52] fix: hand records to plugins without losing set fields

---
 internal/plugin/tree/common/rpc.go | 101 +++++++++++++++++++++++++++++
 1 file changed, 101 insertions(+)

diff --git a/internal/plugin/tree/common/rpc.go b/internal/plugin/tree/common/rpc.go
index 618bff1..d2bcd5f 100644
--- a/internal/plugin/tree/common/rpc.go
+++ b/internal/plugin/tree/common/rpc.go
@@ -1,9 +1,14 @@
 package common
 
 import (
+	"bytes"
+	"encoding/gob"
 	"net/rpc"
 
+	"github.com/golang/protobuf/proto"
 	"github.com/hashicorp/go-plugin"
+
+	pb "github.com/netauth/protocol"
 )
 
 // Server returns a go-plugin compliant interface that handles the
@@ -51,3 +56,99 @@ func (c *GoPluginClient) ProcessGroup(opts PluginOpts) (PluginResult, error) {
 	err := c.client.Call("Plugin.ProcessGroup", opts, &res)
 	return res, err
 }
+
+// wireRecords is how PluginOpts and PluginResult travel.  Left to
+// itself gob leaves out a value behind a pointer if it is the zero
+// value of its type, so set fields would arrive unset, and a record
+// that contains one which is required could not be stored anymore.
+type wireRecords struct {
+	Action     PluginAction
+	Entity     []byte
+	DataEntity []byte
+	Group      []byte
+	DataGroup  []byte
+}
+
+// GobEncode provides the transport encoding of PluginOpts.
+func (o PluginOpts) GobEncode() ([]byte, error) {
+	var err error
+	w := wireRecords{Action: o.Action}
+	if o.Entity != nil {
+		w.Entity, err = proto.Marshal(o.Entity)
+	}
+	if o.DataEntity != nil && err == nil {
+		w.DataEntity, err = proto.Marshal(o.DataEntity)
+	}
+	if o.Group != nil && err == nil {
+		w.Group, err = proto.Marshal(o.Group)
+	}
+	if o.DataGroup != nil && err == nil {
+		w.DataGroup, err = proto.Marshal(o.DataGroup)
+	}
+	if err != nil {
+		return nil, err
+	}
+	return encodeWire(w)
+}
+
+// GobDecode reverses GobEncode.
+func (o *PluginOpts) GobDecode(b []byte) error {
+	w, err := decodeWire(b)
+	if err != nil {
+		return err
+	}
+	*o = PluginOpts{
+		Action:     w.Action,
+		Entity:     &pb.Entity{},
+		DataEntity: &pb.Entity{},
+		Group:      &pb.Group{},
+		DataGroup:  &pb.Group{},
+	}
+	if err := proto.Unmarshal(w.Entity, o.Entity); err != nil {
+		return err
+	}
+	if err := proto.Unmarshal(w.DataEntity, o.DataEntity); err != nil {
+		return err
+	}
+	if err := proto.Unmarshal(w.Group, o.Group); err != nil {
+		return err
+	}
+	return proto.Unmarshal(w.DataGroup, o.DataGroup)
+}
+
+// GobEncode provides the transport encoding of PluginResult.
+func (r PluginResult) GobEncode() ([]byte, error) {
+	var w wireRecords
+	var err error
+	if w.Entity, err = proto.Marshal(&r.Entity); err != nil {
+		return nil, err
+	}
+	if w.Group, err = proto.Marshal(&r.Group); err != nil {
+		return nil, err
+	}
+	return encodeWire(w)
+}
+
+// GobDecode reverses GobEncode.
+func (r *PluginResult) GobDecode(b []byte) error {
+	w, err := decodeWire(b)
+	if err != nil {
+		return err
+	}
+	if err := proto.Unmarshal(w.Entity, &r.Entity); err != nil {
+		return err
+	}
+	return proto.Unmarshal(w.Group, &r.Group)
+}
+
+func encodeWire(w wireRecords) ([]byte, error) {
+	var b bytes.Buffer
+	err := gob.NewEncoder(&b).Encode(w)
+	return b.Bytes(), err
+}
+
+func decodeWire(b []byte) (wireRecords, error) {
+	var w wireRecords
+	err := gob.NewDecoder(bytes.NewReader(b)).Decode(&w)
+	return w, err
+}
-- 
2.43.0


From bd984dfd4f5273ff6c32d76a32f38dfad6c5b0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:06 +0000
Subject: [PATCH 31/52] fix: report plugins that failed to start instead of
 crashing

---
 internal/plugin/tree/consumer/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/plugin/tree/consumer/main.go b/internal/plugin/tree/consumer/main.go
index 59797e8..d71e110 100644
--- a/internal/plugin/tree/consumer/main.go
+++ b/internal/plugin/tree/consumer/main.go
@@ -80,6 +80,13 @@ func (r *Ref) healthCheck() health.SubsystemStatus {
 		Status: "Plugin is OK",
 	}
 
+	// There is nothing to talk to if the plugin didn't start.
+	if r.GoPluginClient == nil {
+		status.OK = false
+		status.Status = "Plugin failed to start"
+		return status
+	}
+
 	err := r.client.Ping()
 	if err != nil {
 		status.OK = false
-- 
2.43.0


From 7f0c97f15f8f5cb1e045fdf9c36445d2388a87cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:23 +0000
Subject: [PATCH 32/52] fix: fail visibly when the copy utility is called
 wrongly

---
 cmd/nsutil/root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/nsutil/root.go b/cmd/nsutil/root.go
index 56d5bf1..9c4a3c9 100644
--- a/cmd/nsutil/root.go
+++ b/cmd/nsutil/root.go
@@ -52,5 +52,6 @@ func onInit() {
 func execute() {
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 63f153f0d668130aa9f2f88777f789d6e61f5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:33 +0000
Subject: [PATCH 33/52] fix: make every word of a record's fields searchable

The default mapping drops common english words, so that a group called
"it" or "all" was never found, a search for such words found records
that do not match, and values that look like dates were not indexed as
text.
---
 internal/db/search.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/db/search.go b/internal/db/search.go
index edca867..deb6462 100644
--- a/internal/db/search.go
+++ b/internal/db/search.go
@@ -2,6 +2,11 @@ package db
 
 import (
 	"github.com/blevesearch/bleve"
+	"github.com/blevesearch/bleve/analysis/analyzer/custom"
+	"github.com/blevesearch/bleve/analysis/datetime/flexible"
+	"github.com/blevesearch/bleve/analysis/token/lowercase"
+	"github.com/blevesearch/bleve/analysis/tokenizer/unicode"
+	"github.com/blevesearch/bleve/mapping"
 	"github.com/hashicorp/go-hclog"
 
 	pb "github.com/netauth/protocol"
@@ -27,7 +32,7 @@ type Index struct {
 func NewIndex(l hclog.Logger) *Index {
 	// Setup the mapping for entities and turn off certain sub
 	// keys that shouldn't be indexed.
-	eMapping := bleve.NewIndexMapping()
+	eMapping := newIndexMapping()
 	eDocMap := bleve.NewDocumentMapping()
 	eDocMap.AddSubDocumentMapping("secret", bleve.NewDocumentDisabledMapping())
 	eDocMap.AddSubDocumentMapping("meta.Keys", bleve.NewDocumentDisabledMapping())
@@ -45,7 +50,7 @@ func NewIndex(l hclog.Logger) *Index {
 
 	// Setup the mapping for groups and turn off certain sub keys
 	// that shouldn't be indexed.
-	gMapping := bleve.NewIndexMapping()
+	gMapping := newIndexMapping()
 	gDocMap := bleve.NewDocumentMapping()
 	gDocMap.AddSubDocumentMapping("untypedmeta", bleve.NewDocumentDisabledMapping())
 	gMapping.AddDocumentMapping("_default", gDocMap)
@@ -60,6 +65,27 @@ func NewIndex(l hclog.Logger) *Index {
 	}
 }
 
+// newIndexMapping returns a mapping that makes every word of every
+// text searchable.  The default one drops common english words, such
+// as "it" and "all", and text that looks like a date, all of which are
+// fine as names and values of fields.  As for the mappings above, the
+// definitions are static, and so can not fail.
+func newIndexMapping() *mapping.IndexMappingImpl {
+	m := bleve.NewIndexMapping()
+	m.AddCustomAnalyzer("words", map[string]interface{}{
+		"type":          custom.Name,
+		"tokenizer":     unicode.Name,
+		"token_filters": []string{lowercase.Name},
+	})
+	m.DefaultAnalyzer = "words"
+	m.AddCustomDateTimeParser("none", map[string]interface{}{
+		"type":    flexible.Name,
+		"layouts": []interface{}{},
+	})
+	m.DefaultDateTimeParser = "none"
+	return m
+}
+
 // ConfigureCallback is used to set the references to the loaders
 // which are later used by the callback to fetch entities and groups
 // for indexing.
-- 
2.43.0


From d83b19d147d42e2c6a6b1623cc363066d5ada07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:33 +0000
Subject: [PATCH 34/52] fix: refuse secrets with NUL bytes with bcrypt

bcrypt repeats a short secret after a NUL byte, so "x" and "x\0x" were the
same secret.
---
 internal/crypto/bcrypt/bcrypt.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/crypto/bcrypt/bcrypt.go b/internal/crypto/bcrypt/bcrypt.go
index 8091c67..a776459 100644
--- a/internal/crypto/bcrypt/bcrypt.go
+++ b/internal/crypto/bcrypt/bcrypt.go
@@ -1,6 +1,8 @@
 package bcrypt
 
 import (
+	"strings"
+
 	"github.com/hashicorp/go-hclog"
 	"github.com/spf13/pflag"
 	"github.com/spf13/viper"
@@ -42,8 +44,14 @@ func New(l hclog.Logger) (crypto.EMCrypto, error) {
 
 // SecureSecret takes in a secret and generates a bcrypt hash from it.
 // This is then returned for storage in the database.  Secrets of which
-// bcrypt would ignore a part are refused.
+// bcrypt would ignore a part are refused, and so are those with NUL
+// bytes, which bcrypt confuses with the end of the secret, after which
+// it starts over.
 func (b *Engine) SecureSecret(secret string) (string, error) {
+	if strings.IndexByte(secret, 0) >= 0 {
+		b.l.Debug("Secret contains a NUL byte")
+		return "", crypto.ErrInternalError
+	}
 	if len(secret) > maxLength {
 		b.l.Debug("Secret is too long", "length", len(secret))
 		return "", crypto.ErrInternalError
@@ -60,6 +68,10 @@ func (b *Engine) SecureSecret(secret string) (string, error) {
 // returns either nil for a match or a crypto.ErrAuthorizationFailure
 // in the case that the secret did not match the stored one.
 func (b *Engine) VerifySecret(secret, hash string) error {
+	if strings.IndexByte(secret, 0) >= 0 {
+		b.l.Debug("Secret contains a NUL byte")
+		return crypto.ErrAuthorizationFailure
+	}
 	err := bcrypt.CompareHashAndPassword([]byte(hash), []byte(secret))
 	if err != nil {
 		b.l.Debug("Bcrypt Error has occurred", "error", err)
-- 
2.43.0


From 6fb235a0c287b8423f6b62ce3caf9270f955149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:33 +0000
Subject: [PATCH 35/52] fix: do not destroy an entity while its secret is
 changed

The secret was verified for an entity and then set for one created in
its place, whose secret nobody had presented.
---
 internal/rpc2/entity.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/rpc2/entity.go b/internal/rpc2/entity.go
index 630ff29..1b50920 100644
--- a/internal/rpc2/entity.go
+++ b/internal/rpc2/entity.go
@@ -453,6 +453,12 @@ func (s *Server) EntityDestroy(ctx context.Context, r *pb.EntityRequest) (*pb.Em
 	}
 
 	e := r.GetEntity()
+
+	// Not while a secret is changed, which would otherwise become
+	// the secret of an entity created in place of this one.
+	s.secretChange.Lock()
+	defer s.secretChange.Unlock()
+
 	switch err := s.DestroyEntity(e.GetID()); err {
 	case db.ErrUnknownEntity:
 		s.log.Warn("Entity does not exist!",
-- 
2.43.0


From fdd215999ad91c8caa208503590896a94e911c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:33 +0000
Subject: [PATCH 36/52] fix: remove keys of all types when no type is named

That is what the command line client asks for when a key is dropped; it
worked before keys were matched in full.
---
 internal/tree/hooks/entity-keys.go | 37 ++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/internal/tree/hooks/entity-keys.go b/internal/tree/hooks/entity-keys.go
index 8e62f9a..7246cd2 100644
--- a/internal/tree/hooks/entity-keys.go
+++ b/internal/tree/hooks/entity-keys.go
@@ -18,24 +18,41 @@ type ManageEntityKeys struct {
 
 // Run iterates on all keys in the request and adds or removes them
 // from the entity's keystore.  Keys are matched in full, except that
-// removing an empty key removes all keys of the given type.
+// removing an empty key removes all keys of the given type, and that
+// removing a key without a type removes it from all types.
 func (mek *ManageEntityKeys) Run(e, de *pb.Entity) error {
 	for _, k := range de.Meta.Keys {
-		if !mek.mode && strings.HasSuffix(k, ":") && strings.Count(k, ":") == 1 {
-			var keep []string
-			for _, have := range e.Meta.Keys {
-				if !strings.HasPrefix(have, k) {
-					keep = append(keep, have)
-				}
-			}
-			e.Meta.Keys = keep
+		if mek.mode {
+			e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, true, true)
 			continue
 		}
-		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, true)
+
+		kt, kv := splitKey(k)
+		var keep []string
+		for _, have := range e.Meta.Keys {
+			haveType, haveKey := splitKey(have)
+			switch {
+			case have == k:
+			case kv == "" && kt != "" && haveType == kt:
+			case kt == "" && kv != "" && haveKey == kv:
+			default:
+				keep = append(keep, have)
+			}
+		}
+		e.Meta.Keys = keep
 	}
 	return nil
 }
 
+// splitKey returns the type and the key proper.
+func splitKey(k string) (string, string) {
+	parts := strings.SplitN(k, ":", 2)
+	if len(parts) < 2 {
+		return parts[0], ""
+	}
+	return parts[0], parts[1]
+}
+
 func init() {
 	startup.RegisterCallback(entityKeysCB)
 }
-- 
2.43.0


From 9648ffed819221e1e240873e2b9bcc118e05b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:12 +0000
Subject: [PATCH 37/52] fix: accept capabilities and actions in lower case

As documented for the command line tool; all other commands do so, too.
---
 pkg/netauth/system.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/system.go b/pkg/netauth/system.go
index 0ea91f8..393bb42 100644
--- a/pkg/netauth/system.go
+++ b/pkg/netauth/system.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"strings"
 
 	pb "github.com/netauth/protocol"
 	rpc "github.com/netauth/protocol/v2"
@@ -21,12 +22,12 @@ func (c *Client) SystemCapabilities(ctx context.Context, target, action, capabil
 	}
 
 	ctx = c.appendMetadata(ctx)
-	cap, ok := pb.Capability_value[capability]
+	cap, ok := pb.Capability_value[strings.ToUpper(capability)]
 	if !ok {
 		return fmt.Errorf("%s is not a recognized capability", capability)
 	}
 
-	a, ok := rpc.Action_value[action]
+	a, ok := rpc.Action_value[strings.ToUpper(action)]
 	if !ok {
 		return errors.New("action must be one of ADD, DROP")
 	}
-- 
2.43.0


From 3df7bac9fc2bbf49ca73160ea6f4b6efa92012bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:23 +0000
Subject: [PATCH 38/52] fix: exit with an error when the command line is
 malformed

Scripts could not tell that a mistyped command had done nothing.
---
 internal/ctl/root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctl/root.go b/internal/ctl/root.go
index 2fdbafd..c61b6bc 100644
--- a/internal/ctl/root.go
+++ b/internal/ctl/root.go
@@ -78,6 +78,7 @@ func onInit() {
 func Execute() {
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
 
-- 
2.43.0


From f62de3fe590f8041d7e89c6690378247b348b552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:41 +0000
Subject: [PATCH 39/52] fix: give up when no secret can be read

The command went on with an empty secret, which change-secret and entity
create would set.
---
 internal/ctl/helpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ctl/helpers.go b/internal/ctl/helpers.go
index 7f7868d..cfa9c64 100644
--- a/internal/ctl/helpers.go
+++ b/internal/ctl/helpers.go
@@ -25,7 +25,8 @@ func getSecret(prompt string) string {
 	}
 	secret, err := speakeasy.Ask(prompt)
 	if err != nil {
-		fmt.Printf("Error: %s", err)
+		fmt.Printf("Error: %s\n", err)
+		os.Exit(1)
 	}
 	return secret
 }
-- 
2.43.0


From c2212c568faff5447aa86c172917067b0e078acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:05 +0000
Subject: [PATCH 40/52] fix: do not panic in the client when the token service
 fails

A client without the server's public key died when it found a cached
token, instead of treating it as one that can not be verified.
---
 pkg/netauth/netauth.go |  1 +
 pkg/netauth/type.go    | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/netauth/netauth.go b/pkg/netauth/netauth.go
index fa23b96..d16a6da 100644
--- a/pkg/netauth/netauth.go
+++ b/pkg/netauth/netauth.go
@@ -64,6 +64,7 @@ func NewWithLog(l hclog.Logger) (*Client, error) {
 	ts, err := token.New(viper.GetString("token.backend"))
 	if err != nil {
 		l.Warn("Token service initialization error", "error", err)
+		ts = noTokenService{err}
 	}
 
 	hn, err := os.Hostname()
diff --git a/pkg/netauth/type.go b/pkg/netauth/type.go
index c5fbb80..c04e315 100644
--- a/pkg/netauth/type.go
+++ b/pkg/netauth/type.go
@@ -25,3 +25,17 @@ type Client struct {
 
 	writeable bool
 }
+
+// noTokenService takes the place of a token service that could not be
+// initialized.
+type noTokenService struct {
+	err error
+}
+
+func (s noTokenService) Generate(token.Claims, token.Config) (string, error) {
+	return "", s.err
+}
+
+func (s noTokenService) Validate(string) (token.Claims, error) {
+	return token.Claims{}, s.err
+}
-- 
2.43.0


From 45f5d19fd61da422eca9480403a215244bde1c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:57 +0000
Subject: [PATCH 41/52] fix: do not use the request secret as a new secret

With --secret or NETAUTH_SECRET an entity was silently created with, or
changed to, the secret of whoever made the request.  An empty initial
secret can be given, as documented.
---
 internal/ctl/auth-changesecret.go | 4 ++--
 internal/ctl/entity-create.go     | 4 ++--
 internal/ctl/helpers.go           | 6 ++++++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/ctl/auth-changesecret.go b/internal/ctl/auth-changesecret.go
index 0640b44..cd0f311 100644
--- a/internal/ctl/auth-changesecret.go
+++ b/internal/ctl/auth-changesecret.go
@@ -60,8 +60,8 @@ func authChangeSecretRun(cmd *cobra.Command, args []string) {
 
 	// Get the secret if it wasn't specified on the line
 	if csSecret == "" {
-		one := getSecret("New Secret: ")
-		two := getSecret("Verify Secret: ")
+		one := askSecret("New Secret: ")
+		two := askSecret("Verify Secret: ")
 
 		if one != two {
 			fmt.Println("Secrets do not match!")
diff --git a/internal/ctl/entity-create.go b/internal/ctl/entity-create.go
index 516f249..7af2a9b 100644
--- a/internal/ctl/entity-create.go
+++ b/internal/ctl/entity-create.go
@@ -52,8 +52,8 @@ func init() {
 
 func entityCreateRun(cmd *cobra.Command, args []string) {
 	newEntityID = args[0]
-	if newSecret == "" {
-		newSecret = getSecret(fmt.Sprintf("Initial Secret for %s: ", newEntityID))
+	if !cmd.Flags().Changed("initial-secret") {
+		newSecret = askSecret(fmt.Sprintf("Initial Secret for %s: ", newEntityID))
 	}
 
 	ctx = netauth.Authorize(ctx, token())
diff --git a/internal/ctl/helpers.go b/internal/ctl/helpers.go
index cfa9c64..eaffe99 100644
--- a/internal/ctl/helpers.go
+++ b/internal/ctl/helpers.go
@@ -23,6 +23,12 @@ func getSecret(prompt string) string {
 	if viper.GetString("secret") != "" {
 		return viper.GetString("secret")
 	}
+	return askSecret(prompt)
+}
+
+// askSecret always prompts.  It is used for secrets other than the one
+// the request is made with.
+func askSecret(prompt string) string {
 	secret, err := speakeasy.Ask(prompt)
 	if err != nil {
 		fmt.Printf("Error: %s\n", err)
-- 
2.43.0


From 4a84ce87f045b94ceab35121ec1028021cdec3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:20 +0000
Subject: [PATCH 42/52] fix: list exactly the groups a group manages

The search for them found managers whose name has a word in common, read
characters with a meaning in search expressions as such, and missed
names that are not indexed.
---
 pkg/netauth/group.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index 153a978..f30e38b 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -3,7 +3,6 @@ package netauth
 import (
 	"context"
 	"errors"
-	"fmt"
 	"sort"
 	"strings"
 
@@ -67,13 +66,21 @@ func (c *Client) GroupInfo(ctx context.Context, name string) (*pb.Group, []*pb.G
 		return nil, nil, err
 	}
 
-	res2, err := c.GroupSearch(ctx, fmt.Sprintf("ManagedBy:%s", name))
+	// The search index works on words, which would find groups with
+	// similarly named managers and miss some names altogether.
+	all, err := c.GroupSearch(ctx, "*")
 	if err != nil {
 		c.log.Warn("Error searching", "error", err)
 		return res.GetGroups()[0], nil, nil
 	}
 
-	return res.GetGroups()[0], res2, nil
+	managed := []*pb.Group{}
+	for _, g := range all {
+		if g.GetManagedBy() == res.GetGroups()[0].GetName() {
+			managed = append(managed, g)
+		}
+	}
+	return res.GetGroups()[0], managed, nil
 }
 
 // GroupUM handles operations concerning the untyped key-value store
-- 
2.43.0


From f2d8ac522c07e4c11f13d69a8f0f314f2e9ab9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:31 +0000
Subject: [PATCH 43/52] fix: keep keys and untyped metadata out of the search
 index

The mappings named fields that do not exist, so that both could be
searched for.
---
 internal/db/search.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/db/search.go b/internal/db/search.go
index deb6462..e8daa38 100644
--- a/internal/db/search.go
+++ b/internal/db/search.go
@@ -35,8 +35,10 @@ func NewIndex(l hclog.Logger) *Index {
 	eMapping := newIndexMapping()
 	eDocMap := bleve.NewDocumentMapping()
 	eDocMap.AddSubDocumentMapping("secret", bleve.NewDocumentDisabledMapping())
-	eDocMap.AddSubDocumentMapping("meta.Keys", bleve.NewDocumentDisabledMapping())
-	eDocMap.AddSubDocumentMapping("meta.UntypedMeta", bleve.NewDocumentDisabledMapping())
+	metaMap := bleve.NewDocumentMapping()
+	metaMap.AddSubDocumentMapping("Keys", bleve.NewDocumentDisabledMapping())
+	metaMap.AddSubDocumentMapping("UntypedMeta", bleve.NewDocumentDisabledMapping())
+	eDocMap.AddSubDocumentMapping("meta", metaMap)
 	eMapping.AddDocumentMapping("_default", eDocMap)
 
 	// The only real way to throw an error in here is if a mapping
@@ -52,7 +54,7 @@ func NewIndex(l hclog.Logger) *Index {
 	// that shouldn't be indexed.
 	gMapping := newIndexMapping()
 	gDocMap := bleve.NewDocumentMapping()
-	gDocMap.AddSubDocumentMapping("untypedmeta", bleve.NewDocumentDisabledMapping())
+	gDocMap.AddSubDocumentMapping("UntypedMeta", bleve.NewDocumentDisabledMapping())
 	gMapping.AddDocumentMapping("_default", gDocMap)
 	gIndex, _ := bleve.NewMemOnly(gMapping)
 	gIndex.SetName("GroupIndex")
-- 
2.43.0


From 7a82564967f2dec7fe02173438cb7c2118421a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:34 +0000
Subject: [PATCH 44/52] fix: be ready for signals before serving

The signals were registered by a goroutine that may get to run only
after the server has begun to accept requests.  Until then a signal
ended the process at once, with requests unanswered and plugins left
running.
---
 cmd/netauthd/main.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cmd/netauthd/main.go b/cmd/netauthd/main.go
index 82242bd..d20d1e7 100644
--- a/cmd/netauthd/main.go
+++ b/cmd/netauthd/main.go
@@ -377,9 +377,7 @@ func main() {
 	// should be added to the goroutine which will be signalled in
 	// the event of a process interrupt or termination signal.
 	c := make(chan os.Signal, 1)
-	go func() {
-		signal.Notify(c, os.Interrupt, syscall.SIGTERM)
-	}()
+	signal.Notify(c, os.Interrupt, syscall.SIGTERM)
 	done := make(chan struct{}, 1)
 	go func() {
 		<-c
-- 
2.43.0


From dd2800a1fed9f7931ced169d338b1139af237376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:34 +0000
Subject: [PATCH 45/52] fix: exit nonzero if the default configuration can't be
 written

---
 cmd/netauthd/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/netauthd/main.go b/cmd/netauthd/main.go
index d20d1e7..63b78b7 100644
--- a/cmd/netauthd/main.go
+++ b/cmd/netauthd/main.go
@@ -235,7 +235,9 @@ func main() {
 	// file with all the default options.  When the config file is
 	// being written the server will not start.
 	if *writeDefConfig != "" {
-		writeDefaultConfig()
+		if err := writeDefaultConfig(); err != nil {
+			os.Exit(1)
+		}
 		os.Exit(0)
 	}
 
-- 
2.43.0


From e1d9bc200ec39733bf2a0c6d72b5ef04025a587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:34 +0000
Subject: [PATCH 46/52] fix: end plugins that are started but not usable

A plugin process that comes up but doesn't provide the expected
interface is not loaded, so nothing ended it when the server shut
down.
---
 internal/plugin/tree/manager/manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/plugin/tree/manager/manager.go b/internal/plugin/tree/manager/manager.go
index 78655e5..6e80010 100644
--- a/internal/plugin/tree/manager/manager.go
+++ b/internal/plugin/tree/manager/manager.go
@@ -59,6 +59,7 @@ func (m *Manager) LoadPlugins() {
 		}
 		if err := im.Init(); err != nil {
 			m.logger.Warn("Error initializing plugin", "error", err)
+			im.Shutdown()
 			continue
 		}
 		m.plugins[p] = im
-- 
2.43.0


From 6611fdc51cec9b147114503c40ab0783ec22ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:46 +0000
Subject: [PATCH 47/52] fix: end the plugins if the server can't start

Plugins are started before storage, cryptography, tokens and the
socket are set up.  If one of these failed the server exited and left
the plugin processes behind.
---
 cmd/netauthd/main.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cmd/netauthd/main.go b/cmd/netauthd/main.go
index 63b78b7..8220c07 100644
--- a/cmd/netauthd/main.go
+++ b/cmd/netauthd/main.go
@@ -275,20 +275,27 @@ func main() {
 	// system.
 	pluginManager := doPluginEarlySetup()
 
+	// Plugins are processes of their own, so from here on they
+	// have to be ended as well if the server can't start.
+	fatal := func() {
+		pluginManager.Shutdown()
+		os.Exit(1)
+	}
+
 	// The data storage layer and cryptographic engine are next to
 	// initialize.  These modules provide core services to the
 	// entity tree which initializes immediately afterwards.
 	dbImpl, err := db.New(viper.GetString("db.backend"))
 	if err != nil {
 		appLogger.Error("Fatal database error", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 	appLogger.Info("Database initialized", "backend", viper.GetString("db.backend"))
 
 	cryptoImpl, err := crypto.New(viper.GetString("crypto.backend"))
 	if err != nil {
 		appLogger.Error("Fatal crypto error", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 
 	// The Tree is the core component of the server.  Its the part
@@ -301,7 +308,7 @@ func main() {
 	tree, err := tree.New(dbImpl, cryptoImpl, appLogger)
 	if err != nil {
 		appLogger.Error("Fatal initialization error", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 	if viper.GetBool("plugin.enabled") {
 		pluginManager.ConfigureEntityChains(tree.RegisterEntityHookToChain)
@@ -315,7 +322,7 @@ func main() {
 	// persisted to disk.
 	if err := dbImpl.EventUpdateAll(); err != nil {
 		appLogger.Error("Error during initial event preload", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 
 	// Bootstrapping a new server, or recovering from certain
@@ -330,7 +337,7 @@ func main() {
 	if len(*bootstrap) != 0 {
 		if err := doSuperuserBootstrap(tree); err != nil {
 			appLogger.Error("Critical error during superuser bootstrap", "error", err)
-			os.Exit(1)
+			fatal()
 		}
 	}
 	tree.DisableBootstrap()
@@ -343,7 +350,7 @@ func main() {
 	tokenService, err := token.New(viper.GetString("token.backend"))
 	if err != nil {
 		appLogger.Error("Fatal token error", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 	appLogger.Info("Token backend successfully initialized", "backend", viper.GetString("token.backend"))
 
@@ -355,7 +362,7 @@ func main() {
 	// insecure server is returned.
 	grpcServer, err := newGRPCServer()
 	if err != nil {
-		os.Exit(1)
+		fatal()
 	}
 
 	// A NetAuth server may serve more than one protocol version
@@ -399,7 +406,7 @@ func main() {
 	appLogger.Info("Ready to Serve...")
 	sock, err := newSocket()
 	if err != nil {
-		os.Exit(1)
+		fatal()
 	}
 	grpcServer.Serve(sock)
 
-- 
2.43.0


From 4598272d9f0a99a2aec572efeb4d4bef80548620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:46 +0000
Subject: [PATCH 48/52] fix: start a plugin once if it's listed twice

The second process replaced the first, which nothing ended anymore.
---
 internal/plugin/tree/manager/manager.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/plugin/tree/manager/manager.go b/internal/plugin/tree/manager/manager.go
index 6e80010..3c43954 100644
--- a/internal/plugin/tree/manager/manager.go
+++ b/internal/plugin/tree/manager/manager.go
@@ -51,6 +51,10 @@ func (m *Manager) LoadPlugins() {
 		}
 	}
 	for _, p := range list {
+		if _, ok := m.plugins[p]; ok {
+			m.logger.Warn("Plugin is listed more than once", "plugin", p)
+			continue
+		}
 		m.logger.Trace("Loading new plugin", "plugin", p)
 		im, err := consumer.New(p)
 		if err != nil {
-- 
2.43.0


From 53b3fcb93f6fc3692d87c469af4a05c03a6ece2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:46 +0000
Subject: [PATCH 49/52] fix: keep fail2lock's defaults when its section is
 partly configured

---
 plugins/tree/fail2lock/main.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 69acbd6..e2a7534 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -17,8 +17,6 @@ import (
 
 var (
 	appLogger hclog.Logger
-
-	cfg *viper.Viper
 )
 
 func init() {
@@ -41,13 +39,12 @@ func init() {
 
 	viper.SetDefault("plugin.fail2lock.allowed_fails", 3)
 	viper.SetDefault("plugin.fail2lock.interval", time.Minute*15)
-	cfg = viper.Sub("plugin.fail2lock")
 }
 
 func main() {
 	appLogger.Info("fail2lock initialized",
-		"allowed_fails", cfg.GetInt("allowed_fails"),
-		"interval", cfg.GetDuration("interval"))
+		"allowed_fails", viper.GetInt("plugin.fail2lock.allowed_fails"),
+		"interval", viper.GetDuration("plugin.fail2lock.interval"))
 
 	tree.PluginMain(fail2lock{
 		NullPlugin: tree.NullPlugin{},
@@ -75,18 +72,18 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 	}
 
 	inIntervalFails := 0
-	startTime := time.Now().Add(cfg.GetDuration("interval") * -1)
+	startTime := time.Now().Add(viper.GetDuration("plugin.fail2lock.interval") * -1)
 	for _, t := range f.failDB[e.GetID()] {
 		if t.After(startTime) {
 			inIntervalFails++
 		}
 	}
 
-	if inIntervalFails >= cfg.GetInt("allowed_fails") {
+	if inIntervalFails >= viper.GetInt("plugin.fail2lock.allowed_fails") {
 		appLogger.Warn("fail2lock is locking an entity",
 			"entity", e.GetID(),
 			"fails", inIntervalFails,
-			"allowed", cfg.GetInt("allowed_fails"))
+			"allowed", viper.GetInt("plugin.fail2lock.allowed_fails"))
 		e.Meta.Locked = proto.Bool(true)
 		return e, nil
 	}
-- 
2.43.0


From 6af0593045b5940735010d6d82a8283adb01f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:07 +0000
Subject: [PATCH 50/52] fix: do not crash fail2lock on an entity without
 metadata

---
 plugins/tree/fail2lock/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index e2a7534..7cc22b6 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -63,6 +63,11 @@ type fail2lock struct {
 // will lock the entity and return which will cause an authentication
 // failure.
 func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	// Entities that were never modified have no metadata.
+	if e.Meta == nil {
+		e.Meta = &pb.EntityMeta{}
+	}
+
 	flags := util.PatchKeyValueSlice(e.Meta.UntypedMeta, "READ", "fail2lock", "")
 
 	if len(flags) == 1 && strings.Split(flags[0], ":")[1] == "RESET" {
-- 
2.43.0


From 9b564f837bc526621c47b3791cc87a1371cce5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:07 +0000
Subject: [PATCH 51/52] fix: guard fail2lock's record of failures

---
 plugins/tree/fail2lock/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 7cc22b6..66021d6 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"os"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/golang/protobuf/proto"
@@ -48,6 +49,7 @@ func main() {
 
 	tree.PluginMain(fail2lock{
 		NullPlugin: tree.NullPlugin{},
+		mu:         new(sync.Mutex),
 		failDB:     make(map[string][]time.Time),
 	})
 }
@@ -55,6 +57,8 @@ func main() {
 type fail2lock struct {
 	tree.NullPlugin
 
+	// The server authenticates different entities concurrently.
+	mu     *sync.Mutex
 	failDB map[string][]time.Time
 }
 
@@ -63,6 +67,9 @@ type fail2lock struct {
 // will lock the entity and return which will cause an authentication
 // failure.
 func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
 	// Entities that were never modified have no metadata.
 	if e.Meta == nil {
 		e.Meta = &pb.EntityMeta{}
@@ -102,6 +109,9 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 // this case we will remove the fail2lock key from the entity's
 // metadata since they have successfully authenticated.
 func (f fail2lock) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+
 	delete(f.failDB, e.GetID())
 	return e, nil
 }
-- 
2.43.0


From e5f4f04e1277ffda071ae12269f0a2125935baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:08 +0000
Subject: [PATCH 52/52] fix: report that fail2lock has no configuration instead
 of crashing

---
 plugins/tree/fail2lock/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 66021d6..271a8f8 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -27,7 +27,7 @@ func init() {
 	viper.AddConfigPath("/etc/netauth/")
 
 	if err := viper.ReadInConfig(); err != nil {
-		appLogger.Error("Fatal error reading configuration", "error", err)
+		hclog.L().Error("Fatal error reading configuration", "error", err)
 		os.Exit(1)
 	}
 
-- 
2.43.0

