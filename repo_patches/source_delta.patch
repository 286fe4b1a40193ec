From ec1a2e4966b7844fb9caf44db2cadbe9ff92e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:46 +0000
Subject: [PATCH 01/24] fix: resolve each node of a search once instead of
 failing repeated nodes

Nodes met a second time in a search were treated as not leading to the goal,
so intersections of overlapping sets denied members and differences
granted excluded subjects. Only cut branches at nodes of the current trail,
and reuse the result of nodes that were already resolved.
---
 internal/relation_graph/searcher.go | 162 +++++++++++++++++++++++-----
 1 file changed, 136 insertions(+), 26 deletions(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index d6625ba..8353221 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -3,6 +3,7 @@ package relation_graph
 import (
 	"context"
 	"fmt"
+	"math"
 
 	"github.com/sourcenetwork/zanzi/internal/utils"
 	"github.com/sourcenetwork/zanzi/pkg/domain"
@@ -11,17 +12,40 @@ import (
 
 func NewSearcher(builder goalTreeBuilder, logger types.Logger) Searcher {
 	return Searcher{
-		builder:   builder,
-		logger:    logger,
-		seenNodes: make(map[string]struct{}),
+		builder:       builder,
+		logger:        logger,
+		seenNodes:     make(map[string]int),
+		resolvedTrees: make(map[string]*PathNode),
+		pendingNodes:  make(map[string]int),
+		lowestCut:     noCut,
 	}
 }
 
+// noCut is the value of Searcher.lowestCut when no branch was cut
+const noCut int = math.MaxInt
+
 type Searcher struct {
-	builder       goalTreeBuilder
-	logger        types.Logger
-	seenNodes     map[string]struct{}
-	resolvedTrees map[string]GoalTree
+	builder goalTreeBuilder
+	logger  types.Logger
+
+	// seenNodes is the trail of the search: the nodes being searched,
+	// each with its depth in the trail
+	seenNodes map[string]int
+
+	// resolvedTrees maps nodes to their final result
+	resolvedTrees map[string]*PathNode
+
+	// pendingNodes are the nodes for which the Goal was not found, but whose search
+	// was cut by a node still in the trail, with the depth of the lowest such node.
+	// Their results are only final once the search of that node is over.
+	pendingNodes map[string]int
+	pendingOrder []*PathNode
+
+	// successCount counts the nodes resolved to SUCCESS
+	successCount int
+
+	// lowestCut is the lowest depth in the trail at which the current branch was cut
+	lowestCut int
 }
 
 // Search receives an Origin and a Goal and searches for a Path in the RelationGraph between
@@ -49,6 +73,7 @@ func (s *Searcher) Search(ctx context.Context, policy *domain.Policy, origin *do
 	if err != nil {
 		return nil, fmt.Errorf("search failed: %w", err)
 	}
+	s.attachResolved(tree, make(map[string]struct{}))
 
 	return tree, nil
 }
@@ -183,16 +208,6 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 		Reason:       node.Reason,
 	}
 
-	// add trail
-	// use cached value
-	nodeId := node.RelationNode.Id()
-	if _, ok := s.seenNodes[nodeId]; ok {
-		s.logger.Debugf("duplicated node - terminating brach: %v", node.RelationNode)
-		return pathNode, nil
-	} else {
-		s.seenNodes[nodeId] = struct{}{}
-	}
-
 	spec := GoalFoundSpec{}
 	found := spec.Found(node, goal)
 	terminal := node.RelationNode.IsTerminalNode()
@@ -203,23 +218,118 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 		return pathNode, nil
 	}
 
-	goalTree, err := s.builder.Build(ctx, policy, pathNode.RelationNode)
-	if err != nil {
-		return nil, err
+	// use cached value
+	nodeId := node.RelationNode.Id()
+	if resolved, ok := s.resolvedTrees[nodeId]; ok {
+		pathNode.Result = resolved.Result
+		return pathNode, nil
+	}
+	cutDepth, cut := s.seenNodes[nodeId]
+	if !cut {
+		cutDepth, cut = s.pendingNodes[nodeId]
+	}
+	if cut {
+		s.logger.Debugf("duplicated node - terminating brach: %v", node.RelationNode)
+		s.lowestCut = min(s.lowestCut, cutDepth)
+		return pathNode, nil
 	}
 
-	goalTree, err = s.search(ctx, policy, goalTree, goal)
-	if err != nil {
-		return nil, err
+	// add trail
+	depth := len(s.seenNodes)
+	s.seenNodes[nodeId] = depth
+	defer delete(s.seenNodes, nodeId)
+
+	outerCut := s.lowestCut
+	firstPending := len(s.pendingOrder)
+
+	for searched := false; !searched; {
+		s.lowestCut = noCut
+		oldCount := s.successCount
+
+		goalTree, err := s.builder.Build(ctx, policy, pathNode.RelationNode)
+		if err != nil {
+			return nil, err
+		}
+
+		goalTree, err = s.search(ctx, policy, goalTree, goal)
+		if err != nil {
+			return nil, err
+		}
+
+		goalTree.SetParent(pathNode)
+		pathNode.Path = goalTree
+		pathNode.Result = goalTree.GetResult()
+
+		// Branches cut at node were searched before every path of the cycle was known.
+		// Search them again for as long as that makes a difference.
+		searched = true
+		if pathNode.Result != SearchResult_SUCCESS && s.lowestCut == depth && s.successCount != oldCount {
+			s.dropPending(firstPending)
+			searched = false
+		}
 	}
 
-	goalTree.SetParent(pathNode)
-	pathNode.Path = goalTree
-	pathNode.Result = goalTree.GetResult()
+	if pathNode.Result == SearchResult_SUCCESS {
+		// pending nodes might reach the goal through node
+		s.dropPending(firstPending)
+		s.resolvedTrees[nodeId] = pathNode
+		s.successCount++
+		s.lowestCut = outerCut
+	} else if s.lowestCut < depth {
+		s.pendingNodes[nodeId] = s.lowestCut
+		s.pendingOrder = append(s.pendingOrder, pathNode)
+		s.lowestCut = min(s.lowestCut, outerCut)
+	} else {
+		for _, pending := range s.dropPending(firstPending) {
+			s.resolvedTrees[pending.RelationNode.Id()] = pending
+		}
+		s.resolvedTrees[nodeId] = pathNode
+		s.lowestCut = outerCut
+	}
 
 	return pathNode, nil
 }
 
+// dropPending removes and returns the pending nodes, starting from the i-th
+func (s *Searcher) dropPending(i int) []*PathNode {
+	dropped := s.pendingOrder[i:]
+	for _, node := range dropped {
+		delete(s.pendingNodes, node.RelationNode.Id())
+	}
+	s.pendingOrder = s.pendingOrder[:i]
+	return dropped
+}
+
+// attachResolved makes sure that tree contains the path to the Goal
+// of every node which reaches it, exactly once.
+func (s *Searcher) attachResolved(tree GoalTree, attached map[string]struct{}) {
+	switch node := tree.(type) {
+	case *ORNode:
+		for _, path := range node.Paths {
+			s.attachResolved(path, attached)
+		}
+	case *ANDNode:
+		for _, path := range node.Paths {
+			s.attachResolved(path, attached)
+		}
+	case *DifferenceNode:
+		s.attachResolved(node.Left, attached)
+		s.attachResolved(node.Right, attached)
+	case *PathNode:
+		if node.Result == SearchResult_SUCCESS && !node.RelationNode.IsTerminalNode() {
+			nodeId := node.RelationNode.Id()
+			if _, ok := attached[nodeId]; ok {
+				node.Path = nil
+				return
+			}
+			attached[nodeId] = struct{}{}
+			node.Path = s.resolvedTrees[nodeId].Path
+			node.Path.SetParent(node)
+		}
+		s.attachResolved(node.Path, attached)
+	}
+}
+
 type GoalFoundSpec struct{}
 
 func (s *GoalFoundSpec) Found(pathNode *PathNode, goal *Goal) bool {
-- 
2.43.0


From 841075bf501a4ae11c4176c8485f17b661598442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:13 +0000
Subject: [PATCH 02/24] fix: expand every operand of an intersection

The search of an intersection stops at the first path which does not reach
the goal. Expand has no goal, so only the first operand was expanded.
---
 internal/relation_graph/searcher.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index 8353221..3ee734c 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -121,7 +121,11 @@ func (s *Searcher) searchAND(ctx context.Context, policy *domain.Policy, tree *A
 		if newPath.GetResult() == SearchResult_FAILURE {
 			foundAll = false
 			s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
-			break
+
+			// Expand calls have no Target and must walk through all Paths
+			if goal.Target != nil {
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From 2685299782f945f138af208d37717fe3731d6e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:15 +0000
Subject: [PATCH 03/24] fix: report wildcards in tuplesets instead of panicking

A tuple-to-userset rule over a wildcard subject produced a node
without object, whose Id panicked.
---
 internal/relation_graph/errors.go         | 1 +
 internal/relation_graph/rule_evaluator.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/relation_graph/errors.go b/internal/relation_graph/errors.go
index b379f8c..8825512 100644
--- a/internal/relation_graph/errors.go
+++ b/internal/relation_graph/errors.go
@@ -3,3 +3,4 @@ package relation_graph
 import "errors"
 
 var ErrWildcardGoal = errors.New("goal target cannot be wildcard: invalid goal")
+var ErrWildcardTupleset = errors.New("tupleset cannot contain wildcard")
diff --git a/internal/relation_graph/rule_evaluator.go b/internal/relation_graph/rule_evaluator.go
index 371d80a..41481fd 100644
--- a/internal/relation_graph/rule_evaluator.go
+++ b/internal/relation_graph/rule_evaluator.go
@@ -118,6 +118,7 @@ func buildTupleToUsersetNode(node *domain.RelationNode, computedRelation string)
 		entitySetNode.Object = nodeType.Entity.Object
 	case *domain.RelationNode_Wildcard:
 		//TODO not sure how I should go about this scenario yet...
+		return nil, fmt.Errorf("building tuple to userset node: node %v: %w", node, ErrWildcardTupleset)
 	default:
 		return nil, fmt.Errorf("building tuple to userset node: node %v: %w", node, domain.ErrInvalidVariant)
 	}
-- 
2.43.0


From 4442fbd69914292e73f906a28df2b63d7e61869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:17 +0000
Subject: [PATCH 04/24] fix: key relationship nodes unambiguously

The key of a node was the hash of the concatenation of its fields, so that
eg. group:eng#member and group:engmember or a wildcard and
an entity overwrote and deleted each other's relationships.
---
 internal/store/kv_store/model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/store/kv_store/model.go b/internal/store/kv_store/model.go
index 659156d..dcd34ae 100644
--- a/internal/store/kv_store/model.go
+++ b/internal/store/kv_store/model.go
@@ -2,6 +2,7 @@ package kv_store
 
 import (
 	"crypto/sha256"
+	"fmt"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 
@@ -24,6 +25,9 @@ type relationNodeKeyer struct{}
 
 func (t *relationNodeKeyer) Key(node *RelationNode) []byte {
 	hasher := sha256.New()
+	// prefix fields with the node type and their lengths,
+	// otherwise distinct nodes could map to the same key
+	fmt.Fprintf(hasher, "%d/%d/%d/", node.Type, len(node.Resource), len(node.Id))
 	hasher.Write([]byte(node.Resource))
 	hasher.Write([]byte(node.Id))
 	hasher.Write([]byte(node.Relation))
-- 
2.43.0


From 4b0897397ecb1b7174dc9c1358bcb47c5b083898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:22 +0000
Subject: [PATCH 05/24] fix: make relation node ids unambiguous

Ids joined fields with a separator which the fields may contain, so a search
or a dump confused eg. the entity (a, b/c) with (a/b, c).
---
 pkg/domain/relation_graph.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/domain/relation_graph.go b/pkg/domain/relation_graph.go
index a40e222..8831456 100644
--- a/pkg/domain/relation_graph.go
+++ b/pkg/domain/relation_graph.go
@@ -37,8 +37,11 @@ func (n *RelationNode) Id() string {
 	hasher := sha256.New()
 	separator := []byte{byte('/')}
 
-	// since Ids and Relations are required, it's impossible
-	// for users to created an entity node which would cause a clash
+	// names and ids may contain the separator: prefix them with the type
+	// of the node and their lengths
+	object := n.GetObject()
+	fmt.Fprintf(hasher, "%T/%d/%d/", n.Node, len(object.GetResource()), len(object.GetId()))
+
 	switch node := n.Node.(type) {
 	case *RelationNode_EntitySet:
 		hasher.Write([]byte(node.EntitySet.Object.Resource))
-- 
2.43.0


From ae2ed7d12f2eade8b7166dc22c87b5cdb735e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:37 +0000
Subject: [PATCH 06/24] fix: separate the relationships of different policies

The app data of relationships was shared by all policies, and the
relationships of a policy were listed by policies whose id is a prefix of its id
(eg. "1" and "1////in/x").
---
 internal/store/kv_store/kv_store.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 3b1d167..bdc5932 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -1,6 +1,8 @@
 package kv_store
 
 import (
+	"crypto/sha256"
+
 	rcdb "github.com/sourcenetwork/raccoondb"
 
 	"github.com/sourcenetwork/zanzi/internal/policy"
@@ -47,7 +49,7 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, []byte(policyId))
+	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId))
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
@@ -60,10 +62,18 @@ func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*
 	factory := func() *RelationshipData { return &RelationshipData{} }
 	marshaler := rcdb.ProtoMarshaler[*RelationshipData](factory)
 	ider := relationshipDataIDer{}
-	store := rcdb.NewObjStore[*RelationshipData](kv.relationshipDataPrefixKV, marshaler, &ider)
+	policyKV := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, policyPrefix(policyId))
+	store := rcdb.NewObjStore[*RelationshipData](policyKV, marshaler, &ider)
 	return &store
 }
 
+// policyPrefix returns the prefix of the keys which belong to a policy.
+// The id is hashed because no prefix may contain the prefix of another policy.
+func policyPrefix(policyId string) []byte {
+	prefix := sha256.Sum256([]byte(policyId))
+	return prefix[:]
+}
+
 func (kv *KVStore) GetPolicyRepository() policy.Repository {
 	repo := newPolicyRepository(kv)
 	return &repo
-- 
2.43.0


From dcdcfedd8e9842ffebcd1f4beaa2a9a2e8dc15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:25 +0000
Subject: [PATCH 07/24] fix: report storage errors ignored by raccoondb

RaccoonStore drops the errors of Set, Delete and Get and the ones which end an
iteration early. Relationships were acknowledged without being stored
and queries answered from incomplete data.
---
 internal/store/kv_store/checked_kv.go | 111 ++++++++++++++++++++++++++
 internal/store/kv_store/kv_store.go   |  11 ++-
 2 files changed, 119 insertions(+), 3 deletions(-)
 create mode 100644 internal/store/kv_store/checked_kv.go

diff --git a/internal/store/kv_store/checked_kv.go b/internal/store/kv_store/checked_kv.go
new file mode 100644
index 0000000..fd1957a
--- /dev/null
+++ b/internal/store/kv_store/checked_kv.go
@@ -0,0 +1,111 @@
+package kv_store
+
+import (
+	"strings"
+
+	rcdb "github.com/sourcenetwork/raccoondb"
+)
+
+var _ rcdb.KVStore = (*checkedKV)(nil)
+
+// checkedKV wraps a KVStore and keeps the first error returned by it.
+//
+// RaccoonStore ignores most errors of its KVStore, such as the ones returned by
+// writes or the ones which end an iteration before its last item.
+type checkedKV struct {
+	rcdb.KVStore
+	err error
+}
+
+// check keeps and returns err
+func (kv *checkedKV) check(err error) error {
+	if kv.err == nil {
+		kv.err = err
+	}
+	return err
+}
+
+func (kv *checkedKV) Get(key []byte) ([]byte, error) {
+	value, err := kv.KVStore.Get(key)
+	return value, kv.check(err)
+}
+
+func (kv *checkedKV) Has(key []byte) (bool, error) {
+	has, err := kv.KVStore.Has(key)
+	return has, kv.check(err)
+}
+
+func (kv *checkedKV) Set(key, value []byte) error {
+	return kv.check(kv.KVStore.Set(key, value))
+}
+
+func (kv *checkedKV) Delete(key []byte) error {
+	return kv.check(kv.KVStore.Delete(key))
+}
+
+func (kv *checkedKV) Iterator(start, end []byte) rcdb.Iterator {
+	return &checkedIterator{
+		Iterator: kv.KVStore.Iterator(start, end),
+		kv:       kv,
+	}
+}
+
+type checkedIterator struct {
+	rcdb.Iterator
+	kv *checkedKV
+}
+
+func (i *checkedIterator) Close() error {
+	i.kv.check(iteratorError(i.Iterator))
+	return i.kv.check(i.Iterator.Close())
+}
+
+// iteratorError returns the error which ended an iteration, if any.
+func iteratorError(iter rcdb.Iterator) error {
+	err := iter.Error()
+	if err == nil {
+		return nil
+	}
+	// Some Cosmos SDK iterators report the end of the iteration as an error
+	// (eg. "invalid prefixIterator")
+	if msg := err.Error(); !iter.Valid() && strings.HasPrefix(msg, "invalid ") && strings.HasSuffix(msg, "Iterator") {
+		return nil
+	}
+	return err
+}
+
+// relationshipStore is a RaccoonStore which does not ignore the errors of its KVStore
+type relationshipStore struct {
+	rcdb.RaccoonStore[*Relationship, *RelationNode]
+	kv *checkedKV
+}
+
+func (s *relationshipStore) firstErr(err error) error {
+	if err != nil {
+		return err
+	}
+	return s.kv.err
+}
+
+func (s *relationshipStore) Set(relationship *Relationship) error {
+	return s.firstErr(s.RaccoonStore.Set(relationship))
+}
+
+func (s *relationshipStore) Delete(relationship *Relationship) error {
+	return s.firstErr(s.RaccoonStore.Delete(relationship))
+}
+
+func (s *relationshipStore) Get(source, dest *RelationNode) (rcdb.Option[*Relationship], error) {
+	opt, err := s.RaccoonStore.Get(source, dest)
+	return opt, s.firstErr(err)
+}
+
+func (s *relationshipStore) GetSucessors(node *RelationNode) ([]*Relationship, error) {
+	relationships, err := s.RaccoonStore.GetSucessors(node)
+	return relationships, s.firstErr(err)
+}
+
+func (s *relationshipStore) List() ([]*Relationship, error) {
+	relationships, err := s.RaccoonStore.List()
+	return relationships, s.firstErr(err)
+}
diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index bdc5932..b274061 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -46,16 +46,21 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 	return &kv.policyStore
 }
 
-func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
+func (kv *KVStore) getRelationshipStore(policyId string) *relationshipStore {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId))
+	store := &checkedKV{
+		KVStore: rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyPrefix(policyId)),
+	}
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
 		Marshaler: marshaler,
 	}
-	return rcdb.NewRaccoonStore(schema)
+	return &relationshipStore{
+		RaccoonStore: rcdb.NewRaccoonStore(schema),
+		kv:           store,
+	}
 }
 
 func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*RelationshipData] {
-- 
2.43.0


From 36da0665dd6529db1745fba16bc10f2645aa6a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:52 +0000
Subject: [PATCH 08/24] fix: bound and close the iterator which lists policy
 ids

ListIds never closes its iterator, so with more than a handful of
keys in the in-memory store the next write blocked forever. Without any policy, it also
returned the key of the first relationship as a policy id.
---
 internal/store/kv_store/kv_store.go          | 19 +++++++++++++++++++
 internal/store/kv_store/policy_repository.go |  3 +--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index b274061..bb08475 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -30,6 +30,7 @@ func NewKVStore(store rcdb.KVStore) (KVStore, error) {
 	return KVStore{
 		baseKV:                   store,
 		policyStore:              policyStore,
+		policyPrefixKV:           policyPrefixWrapper,
 		relationshipPrefixKV:     rcdb.NewWrapperKV(store, relationshipStorePrefix),
 		relationshipDataPrefixKV: rcdb.NewWrapperKV(store, relationshipDataStorePrefix),
 	}, nil
@@ -38,6 +39,7 @@ func NewKVStore(store rcdb.KVStore) (KVStore, error) {
 type KVStore struct {
 	baseKV                   rcdb.KVStore
 	policyStore              rcdb.ObjectStore[*domain.PolicyRecord]
+	policyPrefixKV           rcdb.KVStore
 	relationshipPrefixKV     rcdb.KVStore
 	relationshipDataPrefixKV rcdb.KVStore
 }
@@ -79,6 +81,23 @@ func policyPrefix(policyId string) []byte {
 	return prefix[:]
 }
 
+// listKeys returns all keys in store.
+// Contrary to ObjectStore.ListIds, it closes the iterator and returns
+// no keys from outside of a prefixed store.
+func listKeys(store rcdb.KVStore) ([][]byte, error) {
+	// bounds the iterator: keys start with either utf-8 text or a separator
+	end := []byte{255}
+	iter := store.Iterator(nil, end)
+	defer iter.Close()
+
+	var keys [][]byte
+	for ; iter.Valid(); iter.Next() {
+		keys = append(keys, append([]byte{}, iter.Key()...))
+	}
+
+	return keys, iteratorError(iter)
+}
+
 func (kv *KVStore) GetPolicyRepository() policy.Repository {
 	repo := newPolicyRepository(kv)
 	return &repo
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index bff9aa1..b0fcaca 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -78,8 +78,7 @@ func (r *policyRepository) DeletePolicy(ctx context.Context, id string) (types.R
 }
 
 func (r *policyRepository) ListPolicyIds(context.Context) ([]string, error) {
-    store := r.kvStore.getPolicyStore()
-    ids, err := store.ListIds()
+    ids, err := listKeys(r.kvStore.policyPrefixKV)
     if err != nil {
         return nil, fmt.Errorf("list policy ids: %w", err)
     }
-- 
2.43.0


From f4cafec6b8bf7c7b317c03e28985e037540748e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:55 +0000
Subject: [PATCH 09/24] fix: return the resource of entity set subjects

Subject.GetResourceName returned the relation, so selectors with an entity set
subject were refused.
---
 pkg/domain/relationship.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index ebad6d7..4913473 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -84,7 +84,7 @@ func (s *Subject) GetResourceName() string {
 	case *Subject_Entity:
 		return subj.Entity.Resource
 	case *Subject_EntitySet:
-		return subj.EntitySet.Relation
+		return subj.EntitySet.Entity.GetResource()
 	case *Subject_ResourceSet:
 		return subj.ResourceSet.ResourceName
 	}
-- 
2.43.0


From da1e0aaa5a6b89f2c7f03b94da95acaa783df11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:57 +0000
Subject: [PATCH 10/24] fix: accept relation selectors for any object

Selecting a relation of any object looked up the resource of the object
selector, which does not exist, and panicked.
---
 internal/policy/spec.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index b387c56..02447b4 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -383,6 +383,15 @@ func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSele
 
 	relName := relSelector.GetRelationName()
 
+	if objSelector.GetWildcard() != nil {
+		for _, resource := range policy.Resources {
+			if resource.GetRelationByName(relName) != nil {
+				return nil
+			}
+		}
+		return fmt.Errorf("relation %v: %w", relName, ErrRelationNotFound)
+	}
+
 	resourceName := s.getObjectSelectorResourceName(objSelector)
 	resource := policy.GetResourceByName(resourceName)
 	relation := resource.GetRelationByName(relName)
-- 
2.43.0


From d9a18d1d293b73cda28acfb3e7d85011d54aab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 11/24] fix: compare selected objects and subjects by value

DeepEqual also compares the internal state of messages, so selectors which were
sent to the server, logged or cloned did not match.
---
 internal/store/kv_store/policy_repository.go |  2 +-
 internal/store/kv_store/selector_mapper.go   | 37 ++++++++++++++++++++
 2 files changed, 38 insertions(+), 1 deletion(-)
 create mode 100644 internal/store/kv_store/selector_mapper.go

diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index b0fcaca..210a1a6 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -154,7 +154,7 @@ func (r *policyRepository) FindRelationships(ctx context.Context, policyId strin
 		return nil, err
 	}
 
-	spec, err := policy.NewSelectorSpec(selector)
+	spec, err := policy.NewSelectorSpec(r.mapper.plainSelector(selector))
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/store/kv_store/selector_mapper.go b/internal/store/kv_store/selector_mapper.go
new file mode 100644
index 0000000..22c081b
--- /dev/null
+++ b/internal/store/kv_store/selector_mapper.go
@@ -0,0 +1,37 @@
+package kv_store
+
+import (
+	"github.com/sourcenetwork/zanzi/pkg/domain"
+)
+
+// plainSelector returns the selector with its object and subject mapped in the same way as those of stored
+// Relationships. RelationshipSelectorSpec compares messages including their internal state,
+// which differs in messages which were sent to the server, logged or cloned.
+func (m *relationshipMapper) plainSelector(selector *domain.RelationshipSelector) *domain.RelationshipSelector {
+	plain := &domain.RelationshipSelector{
+		ObjectSelector:   &domain.ObjectSelector{Selector: selector.GetObjectSelector().GetSelector()},
+		RelationSelector: &domain.RelationSelector{Selector: selector.GetRelationSelector().GetSelector()},
+		SubjectSelector:  &domain.SubjectSelector{Selector: selector.GetSubjectSelector().GetSelector()},
+	}
+
+	object, isObjectSpec := plain.ObjectSelector.Selector.(*domain.ObjectSelector_ObjectSpec)
+	subject, isSubjectSpec := plain.SubjectSelector.Selector.(*domain.SubjectSelector_SubjectSpec)
+
+	relationship := &domain.Relationship{Object: &domain.Entity{}, Subject: &domain.Subject{}}
+	if isObjectSpec {
+		relationship.Object = object.ObjectSpec
+	}
+	if isSubjectSpec {
+		relationship.Subject = subject.SubjectSpec
+	}
+	internal := m.ToInternal(relationship)
+	mapped := m.FromInternal(&internal)
+
+	if isObjectSpec {
+		plain.ObjectSelector.Selector = &domain.ObjectSelector_ObjectSpec{ObjectSpec: mapped.Object}
+	}
+	if isSubjectSpec {
+		plain.SubjectSelector.Selector = &domain.SubjectSelector_SubjectSpec{SubjectSpec: mapped.Subject}
+	}
+	return plain
+}
-- 
2.43.0


From d31e0aafbc8e1a3501d50238156ace9673e06138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:41 +0000
Subject: [PATCH 12/24] fix: refuse incomplete policies, relationships and
 selectors

Required fields were declared but never enforced, as the generated Validate methods
are empty, and requests with missing messages panicked.
---
 internal/policy/helpers.go         |  7 ++-
 internal/policy/required_fields.go | 80 ++++++++++++++++++++++++++++++
 internal/policy/spec.go            | 38 ++++++++------
 internal/store/kv_store/mapper.go  | 20 ++++----
 pkg/domain/relationship.go         |  8 +--
 5 files changed, 123 insertions(+), 30 deletions(-)
 create mode 100644 internal/policy/required_fields.go

diff --git a/internal/policy/helpers.go b/internal/policy/helpers.go
index 588caf0..b7563b4 100644
--- a/internal/policy/helpers.go
+++ b/internal/policy/helpers.go
@@ -21,7 +21,7 @@ func GetExpressionTree(r *domain.Relation) (*domain.RelationExpressionTree, erro
 	var tree *domain.RelationExpressionTree
 	var err error
 
-	switch t := r.RelationExpression.Expression.(type) {
+	switch t := r.GetRelationExpression().GetExpression().(type) {
 	case *domain.RelationExpression_Expr:
 		tree, err = parser.Parse(t.Expr)
 		if err != nil {
@@ -40,9 +40,12 @@ func GetPolicyFromDefinition(d *api.PolicyDefinition) (*domain.Policy, error) {
 	var policy *domain.Policy
 	var err error
 
-	switch definition := d.Definition.(type) {
+	switch definition := d.GetDefinition().(type) {
 	case *api.PolicyDefinition_Policy:
 		policy = definition.Policy
+		if policy == nil {
+			err = fmt.Errorf("PolicyDefinition: no policy: %w", ErrInvalidPolicy)
+		}
 	case *api.PolicyDefinition_PolicyYaml:
 		policy, err = policy_definition.PolicyFromYaml(definition.PolicyYaml)
 	default:
diff --git a/internal/policy/required_fields.go b/internal/policy/required_fields.go
new file mode 100644
index 0000000..8f18a49
--- /dev/null
+++ b/internal/policy/required_fields.go
@@ -0,0 +1,80 @@
+package policy
+
+import (
+	"fmt"
+
+	"github.com/sourcenetwork/zanzi/pkg/domain"
+)
+
+// requiredPolicyFields checks that the fields which identify a policy,
+// its resources and its relations are set.
+func requiredPolicyFields(policy *domain.Policy) error {
+	if policy.GetId() == "" {
+		return fmt.Errorf("id required: %w", ErrInvalidPolicy)
+	}
+
+	for _, resource := range policy.Resources {
+		if resource.GetName() == "" {
+			return fmt.Errorf("resource name required: %w", ErrInvalidPolicy)
+		}
+
+		for _, relation := range resource.Relations {
+			if relation.GetName() == "" {
+				return fmt.Errorf("resource %v: relation name required: %w", resource.Name, ErrInvalidPolicy)
+			}
+		}
+	}
+	return nil
+}
+
+// requiredRelationshipFields checks that relationship has a complete object, relation and subject
+func requiredRelationshipFields(relationship *domain.Relationship) error {
+	complete := false
+
+	switch s := relationship.GetSubject().GetSubject().(type) {
+	case *domain.Subject_Entity:
+		complete = completeEntity(s.Entity)
+	case *domain.Subject_EntitySet:
+		complete = completeEntity(s.EntitySet.GetEntity()) && s.EntitySet.GetRelation() != ""
+	case *domain.Subject_ResourceSet:
+		complete = s.ResourceSet.GetResourceName() != ""
+	}
+
+	if !complete || !completeEntity(relationship.GetObject()) || relationship.GetRelation() == "" {
+		return fmt.Errorf("object, relation and subject required: %w", ErrInvalidRelationship)
+	}
+	return nil
+}
+
+func completeEntity(entity *domain.Entity) bool {
+	return entity.GetResource() != "" && entity.GetId() != ""
+}
+
+// wellFormedTree checks that tree is composed only of known rules and operators
+func wellFormedTree(tree *domain.RelationExpressionTree) error {
+	switch node := tree.GetNode().(type) {
+	case *domain.RelationExpressionTree_OpNode:
+		op := node.OpNode.GetOperator()
+		if _, ok := domain.Operator_name[int32(op)]; !ok {
+			return fmt.Errorf("operator %v: %w", op, domain.ErrInvalidVariant)
+		}
+		if err := wellFormedTree(node.OpNode.GetLeft()); err != nil {
+			return err
+		}
+		return wellFormedTree(node.OpNode.GetRight())
+	case *domain.RelationExpressionTree_Rule:
+		switch rule := node.Rule.GetRule().(type) {
+		case *domain.Rule_This:
+			return nil
+		case *domain.Rule_Cu:
+			if rule.Cu != nil {
+				return nil
+			}
+		case *domain.Rule_Ttu:
+			if rule.Ttu != nil {
+				return nil
+			}
+		}
+	}
+	return fmt.Errorf("expression tree %v: %w", tree, domain.ErrInvalidVariant)
+}
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index 02447b4..da4af96 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -17,6 +17,10 @@ func (s *ValidPolicySpec) Verify(policy *domain.Policy) error {
 }
 
 func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
+	if err := requiredPolicyFields(policy); err != nil {
+		return err
+	}
+
 	lut := NewPolicyLookUpTable(policy)
 
 	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
@@ -79,6 +83,9 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 	for _, resource := range policy.Resources {
 		for _, relation := range resource.Relations {
 			tree, err := GetExpressionTree(relation)
+			if err == nil {
+				err = wellFormedTree(tree)
+			}
 			if err != nil {
 				return fmt.Errorf("resoruce %v: relation %v: %w", resource.Name, relation.Name, err)
 			}
@@ -148,14 +155,14 @@ func (s *ValidPolicySpec) ValidSubjectRestriction(restriction *domain.SubjectRes
 
 func (s *ValidPolicySpec) validSubjectRestrictionSet(restrictionSet *domain.SubjectRestrictionSet, lut PolicyLookUpTable) error {
 
-	for _, elem := range restrictionSet.Restrictions {
-		switch restriction := elem.Entry.(type) {
+	for _, elem := range restrictionSet.GetRestrictions() {
+		switch restriction := elem.GetEntry().(type) {
 		case *domain.SubjectRestrictionSet_Restriction_Entity:
-			if lut.GetResource(restriction.Entity.ResourceName) == nil {
-				return fmt.Errorf("no resource %v", restriction.Entity.ResourceName)
+			if lut.GetResource(restriction.Entity.GetResourceName()) == nil {
+				return fmt.Errorf("no resource %v", restriction.Entity.GetResourceName())
 			}
 		case *domain.SubjectRestrictionSet_Restriction_EntitySet:
-			resource, relation := restriction.EntitySet.ResourceName, restriction.EntitySet.RelationName
+			resource, relation := restriction.EntitySet.GetResourceName(), restriction.EntitySet.GetRelationName()
 			if lut.GetRelation(resource, relation) == nil {
 				return fmt.Errorf("no relation %v for resource %v", relation, resource)
 			}
@@ -174,6 +181,9 @@ type AllowedRelationshipSpec struct {
 // ValidateRelationship checks the relationship contains the rquried fields
 func (s *AllowedRelationshipSpec) requiredFields(relationship *domain.Relationship) error {
 	err := relationship.Validate()
+	if err == nil {
+		err = requiredRelationshipFields(relationship)
+	}
 	if err != nil {
 		return fmt.Errorf("relationship %v: %w", relationship, ErrInvalidRelationship)
 	}
@@ -257,7 +267,7 @@ func (s *SubjectRestrictionSpec) Satisfies(relationship *domain.Relationship, ta
 
 	var err error
 
-	switch restriction := relation.SubjectRestriction.SubjectRestriction.(type) {
+	switch restriction := relation.GetSubjectRestriction().GetSubjectRestriction().(type) {
 	case *domain.SubjectRestriction_UniversalSet:
 		err = nil
 	case *domain.SubjectRestriction_RestrictionSet:
@@ -288,7 +298,7 @@ func (s *SubjectRestrictionSpec) satisfiesRestrictionSet(subject *domain.Subject
 		subjResource = subjectType.ResourceSet.ResourceName
 	}
 
-	for _, restriction := range set.Restrictions {
+	for _, restriction := range set.GetRestrictions() {
 		err := validator(restriction, subjResource, subjRelation)
 		if err == nil {
 			return nil
@@ -338,17 +348,17 @@ func (s *SubjectRestrictionSpec) satisfiesRestriction(restriction *domain.Subjec
 type ValidSelectorSpec struct{}
 
 func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, policy *domain.Policy) error {
-	err := s.validObjectSelector(selector.ObjectSelector, policy)
+	err := s.validObjectSelector(selector.GetObjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("object selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validRelationSelector(selector.ObjectSelector, selector.RelationSelector, policy)
+	err = s.validRelationSelector(selector.GetObjectSelector(), selector.GetRelationSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("relation selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validSubjectSelector(selector.SubjectSelector, policy)
+	err = s.validSubjectSelector(selector.GetSubjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("subject selector invalid: policy %v: %w", policy.Id, err)
 	}
@@ -357,11 +367,11 @@ func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, pol
 }
 
 func (s *ValidSelectorSpec) validObjectSelector(selector *domain.ObjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
-		resource := policy.GetResourceByName(s.ObjectSpec.Resource)
+		resource := policy.GetResourceByName(s.ObjectSpec.GetResource())
 		if resource == nil {
-			return fmt.Errorf("resource %v: %w", s.ObjectSpec.Resource, ErrResourceNotFound)
+			return fmt.Errorf("resource %v: %w", s.ObjectSpec.GetResource(), ErrResourceNotFound)
 		}
 	case *domain.ObjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
@@ -413,7 +423,7 @@ func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.Ob
 }
 
 func (s *ValidSelectorSpec) validSubjectSelector(selector *domain.SubjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.SubjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
 		if resource == nil {
diff --git a/internal/store/kv_store/mapper.go b/internal/store/kv_store/mapper.go
index 3a6897f..2df60ad 100644
--- a/internal/store/kv_store/mapper.go
+++ b/internal/store/kv_store/mapper.go
@@ -10,18 +10,18 @@ func (m *relationshipMapper) ToInternal(relationship *domain.Relationship) Relat
 	var subjType RelationType
 	var subjResource, subjId, subjRelation string
 
-	switch subject := relationship.Subject.Subject.(type) {
+	switch subject := relationship.GetSubject().GetSubject().(type) {
 	case *domain.Subject_Entity:
-		subjResource = subject.Entity.Resource
-		subjId = subject.Entity.Id
+		subjResource = subject.Entity.GetResource()
+		subjId = subject.Entity.GetId()
 		subjType = RelationType_OBJECT
 	case *domain.Subject_EntitySet:
-		subjResource = subject.EntitySet.Entity.Resource
-		subjId = subject.EntitySet.Entity.Id
-		subjRelation = subject.EntitySet.Relation
+		subjResource = subject.EntitySet.GetEntity().GetResource()
+		subjId = subject.EntitySet.GetEntity().GetId()
+		subjRelation = subject.EntitySet.GetRelation()
 		subjType = RelationType_OBJECT_SET
 	case *domain.Subject_ResourceSet:
-		subjResource = subject.ResourceSet.ResourceName
+		subjResource = subject.ResourceSet.GetResourceName()
 		subjType = RelationType_RESOURCE_SET
 	default:
 		subjType = RelationType_UNKNOWN
@@ -29,9 +29,9 @@ func (m *relationshipMapper) ToInternal(relationship *domain.Relationship) Relat
 
 	return Relationship{
 		Source: &RelationNode{
-			Resource: relationship.Object.Resource,
-			Id:       relationship.Object.Id,
-			Relation: relationship.Relation,
+			Resource: relationship.GetObject().GetResource(),
+			Id:       relationship.GetObject().GetId(),
+			Relation: relationship.GetRelation(),
 			Type:     RelationType_OBJECT_SET,
 		},
 		Dest: &RelationNode{
diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index 4913473..56a1ff3 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -80,13 +80,13 @@ func (b *RelationshipBuilder) Wildcard(objResource, objId, relation, subjResourc
 
 // GetResourceName returns the Subject's Resource Name
 func (s *Subject) GetResourceName() string {
-	switch subj := s.Subject.(type) {
+	switch subj := s.GetSubject().(type) {
 	case *Subject_Entity:
-		return subj.Entity.Resource
+		return subj.Entity.GetResource()
 	case *Subject_EntitySet:
-		return subj.EntitySet.Entity.GetResource()
+		return subj.EntitySet.GetEntity().GetResource()
 	case *Subject_ResourceSet:
-		return subj.ResourceSet.ResourceName
+		return subj.ResourceSet.GetResourceName()
 	}
 	return ""
 }
-- 
2.43.0


From d334bca1c8c15d0acced4693df7df458dd5117ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:45 +0000
Subject: [PATCH 13/24] fix: refuse access requests and expand roots without
 object

Check, ExplainCheck and Expand panicked when a message of the request was missing.
---
 internal/relation_graph/service.go | 39 ++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 85e9298..125390c 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -30,6 +30,10 @@ type Service struct {
 func (s *Service) Check(
 	ctx context.Context,
 	req *api.CheckRequest) (*api.CheckResponse, error) {
+	if err := validAccessRequest(req.AccessRequest); err != nil {
+		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInternal, err)
@@ -85,6 +89,10 @@ func (s *Service) ExplainCheck(
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
 	}
 
+	if err := validAccessRequest(req.AccessRequest); err != nil {
+		return nil, fmt.Errorf("check: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("check: %w: %w", api.ErrInternal, err)
@@ -144,6 +152,10 @@ func (s *Service) Expand(
 		return nil, fmt.Errorf("expand: %w: %w", api.ErrInvalidRequest, err)
 	}
 
+	if err := validExpandRoot(req.Root); err != nil {
+		return nil, fmt.Errorf("expand: %w: %w", api.ErrInvalidRequest, err)
+	}
+
 	pol, err := s.policyRepository.GetPolicy(ctx, req.PolicyId)
 	if err != nil {
 		return nil, fmt.Errorf("expand: %w: %w", api.ErrInternal, err)
@@ -209,3 +221,30 @@ func (s *Service) DumpRelationships(
 
 	return response, nil
 }
+
+// validAccessRequest verifies whether req has an object and a subject
+func validAccessRequest(req *domain.AccessRequest) error {
+	if req.GetObject() == nil || req.GetSubject() == nil {
+		return fmt.Errorf("access request %v: object and subject required", req)
+	}
+	return nil
+}
+
+// validExpandRoot verifies whether root is a complete node
+func validExpandRoot(root *domain.RelationNode) error {
+	switch node := root.GetNode().(type) {
+	case *domain.RelationNode_EntitySet:
+		if node.EntitySet.GetObject() != nil {
+			return nil
+		}
+	case *domain.RelationNode_Entity:
+		if node.Entity.GetObject() != nil {
+			return nil
+		}
+	case *domain.RelationNode_Wildcard:
+		if node.Wildcard != nil {
+			return nil
+		}
+	}
+	return fmt.Errorf("root %v: %w", root, domain.ErrInvalidVariant)
+}
-- 
2.43.0


From 35c5ee60e0eb158d457f16b03736853ef13b62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:32 +0000
Subject: [PATCH 14/24] fix: dump cyclic and shared relationships once

Dumping a cycle with an entry point recursed forever, cycles without
one were omitted and the edges of shared nodes were repeated.
---
 .../relation_tree_serializer.go               | 12 +++++++++-
 internal/relation_graph/walker.go             | 24 +++++++++++++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 166b9e4..11a3e8f 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -9,12 +9,16 @@ import (
 const relationTreeGraphName string = "Relationships"
 const directed bool = true
 
-type RelationTreeDOTSerializer struct{}
+type RelationTreeDOTSerializer struct {
+	// ids of the nodes whose children were serialized
+	serialized map[string]struct{}
+}
 
 func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string, error) {
 	graph := gographviz.NewGraph()
 	graph.SetDir(directed) //directed graph true
 	graph.SetName(relationTreeGraphName)
+	s.serialized = make(map[string]struct{})
 
 	err := s.handleNode(nil, tree, graph)
 	if err != nil {
@@ -43,6 +47,12 @@ func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node
 		}
 	}
 
+	// nodes may be reached more than once
+	if _, ok := s.serialized[id]; ok {
+		return nil
+	}
+	s.serialized[id] = struct{}{}
+
 	for _, child := range node.Children {
 		err := s.handleNode(node, child, graph)
 		if err != nil {
diff --git a/internal/relation_graph/walker.go b/internal/relation_graph/walker.go
index 4362410..33aa262 100644
--- a/internal/relation_graph/walker.go
+++ b/internal/relation_graph/walker.go
@@ -46,12 +46,36 @@ func (w *walker) Walk(ctx context.Context, policy *domain.Policy) (*domain.Relat
 		rootChildren = append(rootChildren, trees[orphan])
 	}
 
+	// nodes which are only reachable through cycles have no orphan ancestor
+	reached := make(map[*domain.RelationTree]struct{})
+	for _, tree := range rootChildren {
+		w.markReached(tree, reached)
+	}
+	for _, edge := range edges {
+		tree := w.getTree(edge.First(), trees)
+		if _, ok := reached[tree]; !ok {
+			rootChildren = append(rootChildren, tree)
+			w.markReached(tree, reached)
+		}
+	}
+
 	return &domain.RelationTree{
 		Node:     nil,
 		Children: rootChildren,
 	}, nil
 }
 
+// markReached adds tree and its descendants to reached
+func (w *walker) markReached(tree *domain.RelationTree, reached map[*domain.RelationTree]struct{}) {
+	if _, ok := reached[tree]; ok {
+		return
+	}
+	reached[tree] = struct{}{}
+	for _, child := range tree.Children {
+		w.markReached(child, reached)
+	}
+}
+
 func (w *walker) getTree(node *domain.RelationNode, trees map[string]*domain.RelationTree) *domain.RelationTree {
 	tree, ok := trees[node.Id()]
 	if !ok {
-- 
2.43.0


From bf2bd61eab7f96afef54af32d90576b52ef21915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:36 +0000
Subject: [PATCH 15/24] fix: escape quotes and backslashes in DOT strings

Identifiers with quotes or backslashes produced malformed graphs.
---
 internal/relation_graph/goal_tree_serializer.go     | 3 +--
 internal/relation_graph/relation_tree_serializer.go | 7 ++++++-
 pkg/types/graph.go                                  | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/goal_tree_serializer.go b/internal/relation_graph/goal_tree_serializer.go
index 6b2753c..fb0bb0f 100644
--- a/internal/relation_graph/goal_tree_serializer.go
+++ b/internal/relation_graph/goal_tree_serializer.go
@@ -180,8 +180,7 @@ func (s *dotSerializer) nextId() string {
 
 // sprintf formats a string and wraps it with quotes
 func (s *dotSerializer) sprintf(format string, args ...any) string {
-	format = "\"" + format + "\""
-	return fmt.Sprintf(format, args...)
+	return "\"" + dotEscaper.Replace(fmt.Sprintf(format, args...)) + "\""
 }
 
 func SerializerFactory(model api.ExplainFormat) (GoalTreeSerializer, error) {
diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 11a3e8f..203a886 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -1,6 +1,8 @@
 package relation_graph
 
 import (
+	"strings"
+
 	"github.com/awalterschulze/gographviz"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
@@ -9,6 +11,9 @@ import (
 const relationTreeGraphName string = "Relationships"
 const directed bool = true
 
+// dotEscaper escapes the contents of quoted DOT strings
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 type RelationTreeDOTSerializer struct {
 	// ids of the nodes whose children were serialized
 	serialized map[string]struct{}
@@ -78,5 +83,5 @@ func (s *RelationTreeDOTSerializer) nodeLabel(node *domain.RelationNode) string
 }
 
 func (s *RelationTreeDOTSerializer) wrap(str string) string {
-	return "\"" + str + "\""
+	return "\"" + dotEscaper.Replace(str) + "\""
 }
diff --git a/pkg/types/graph.go b/pkg/types/graph.go
index faa60f3..07662db 100644
--- a/pkg/types/graph.go
+++ b/pkg/types/graph.go
@@ -68,10 +68,11 @@ func GraphToDOT(graph *MapDiGraph) string {
 }
 
 func mapId(id string) string {
-	id = strings.ReplaceAll(id, "\"", "\\\"")
 	return wrap(id)
 }
 
 func wrap(txt string) string {
+	txt = strings.ReplaceAll(txt, "\\", "\\\\")
+	txt = strings.ReplaceAll(txt, "\"", "\\\"")
 	return "\"" + txt + "\""
 }
-- 
2.43.0


From 36f5e9b5b9f0606edf4619812451ba879d56ab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:24 +0000
Subject: [PATCH 16/24] fix: explain in JSON format

Goal trees reference their parents, which encoding/json refuses as a cycle,
so every JSON explanation failed.
---
 internal/relation_graph/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/types.go b/internal/relation_graph/types.go
index 4c2cea0..facfea6 100644
--- a/internal/relation_graph/types.go
+++ b/internal/relation_graph/types.go
@@ -25,7 +25,7 @@ type GoalTree interface {
 // The ORNode is satisfied if the Goal is found in *any*
 // Paths
 type ORNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"` // cyclic reference
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -37,7 +37,7 @@ func (n *ORNode) SetParent(p GoalTree)    { n.Parent = p }
 // The ANDNode is satisfied if the Goal is found in *all*
 // Paths
 type ANDNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"` // cyclic reference
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -49,7 +49,7 @@ func (n *ANDNode) SetParent(p GoalTree)    { n.Parent = p }
 // A DifferenceNode is satisfied if the Goal is found
 // on the Left GoalTree but not on the Right.
 type DifferenceNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"` // cyclic reference
 	Result SearchResult
 	Left   GoalTree
 	Right  GoalTree
@@ -92,7 +92,7 @@ func (r SearchResult) MarshalJSON() ([]byte, error) {
 
 // PathNode represents a possible search path in the GoalTree
 type PathNode struct {
-	Parent       GoalTree
+	Parent       GoalTree `json:"-"` // cyclic reference
 	Result       SearchResult
 	RelationNode *domain.RelationNode
 	Path         GoalTree
-- 
2.43.0


From c2317548430f82445b0ceebe8eea068478c4f54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:26 +0000
Subject: [PATCH 17/24] fix: set the format of ExplainCheck responses

---
 internal/relation_graph/service.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 125390c..bf615c3 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -141,6 +141,7 @@ func (s *Service) ExplainCheck(
 	return &api.ExplainCheckResponse{
 		GoalTree:   serialized,
 		Authorized: found,
+		Format:     req.Format,
 	}, nil
 }
 
-- 
2.43.0


From 95cd25eaba1edf20e91be3381205337d9cf8a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:28 +0000
Subject: [PATCH 18/24] fix: do not ignore errors while serializing goal trees

---
 internal/relation_graph/goal_tree_serializer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/goal_tree_serializer.go b/internal/relation_graph/goal_tree_serializer.go
index fb0bb0f..2661665 100644
--- a/internal/relation_graph/goal_tree_serializer.go
+++ b/internal/relation_graph/goal_tree_serializer.go
@@ -51,13 +51,13 @@ func (s *dotSerializer) Serialize(goalTree GoalTree) (string, error) {
 func (s *dotSerializer) handleGoalTree(parentId string, tree GoalTree, graph *gographviz.Graph) error {
 	switch node := tree.(type) {
 	case *PathNode:
-		s.handlePathNode(parentId, node, graph)
+		return s.handlePathNode(parentId, node, graph)
 	case *ORNode:
-		s.handleORNode(parentId, node, graph)
+		return s.handleORNode(parentId, node, graph)
 	case *ANDNode:
-		s.handleANDNode(parentId, node, graph)
+		return s.handleANDNode(parentId, node, graph)
 	case *DifferenceNode:
-		s.handleDifferenceNode(parentId, node, graph)
+		return s.handleDifferenceNode(parentId, node, graph)
 	case nil:
 		break
 	default:
-- 
2.43.0


From 0ee71b00892f14c501403f47ae3b6e4d3679489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:31 +0000
Subject: [PATCH 19/24] fix: lex identifiers which start with _this

Identifiers such as _this_team were split in two tokens.
---
 internal/relation_expression_parser/lexer.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/relation_expression_parser/lexer.go b/internal/relation_expression_parser/lexer.go
index 011258e..4099dcf 100644
--- a/internal/relation_expression_parser/lexer.go
+++ b/internal/relation_expression_parser/lexer.go
@@ -152,6 +152,21 @@ func (l *Lexer) lexTerminal(typ tokenType, str string) bool {
 	return ok
 }
 
+// lexThis lexes the this keyword, unless it is the beginning of an identifier
+func (l *Lexer) lexThis() bool {
+	ok := l.consumeString(domain.ThisLexeme)
+	if !ok {
+		return false
+	}
+	if char, _ := l.peek(); isIdentifierRune(char) {
+		l.reset()
+		return false
+	}
+
+	l.emit(tokenThis)
+	return true
+}
+
 func (l *Lexer) lexEOF() bool {
 	char, _ := l.peek()
 	return char == eof
@@ -177,7 +192,7 @@ func (l *Lexer) scan() {
 		} else if l.lexTerminal(tokenUnion, domain.UnionLexeme) {
 		} else if l.lexTerminal(tokenDifference, domain.DifferenceLexeme) {
 		} else if l.lexTerminal(tokenIntersection, domain.IntersectionLexeme) {
-		} else if l.lexTerminal(tokenThis, domain.ThisLexeme) {
+		} else if l.lexThis() {
 		} else if l.lexIdentifier() {
 		} else if char, _ := l.peek(); unicode.IsSpace(char) {
 			l.skipSpaces()
-- 
2.43.0


From 2169fda85fcac3427798a9535cc7e94b9927829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:07 +0000
Subject: [PATCH 20/24] fix: remove leftover relationships when a policy is
 created

If the deletion of a policy was interrupted by a crash or an error, a policy
created later under the same id inherited the remaining relationships.
---
 internal/store/kv_store/policy_repository.go | 27 ++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index 210a1a6..e8f2141 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -38,6 +38,14 @@ func (r *policyRepository) SetPolicy(ctx context.Context, record *domain.PolicyR
 		return false, err
 	}
 
+	if !has {
+		// an interrupted deletion of a policy might have left relationships behind
+		err = r.purgePolicy(record.Policy.Id)
+		if err != nil {
+			return false, err
+		}
+	}
+
 	err = store.SetObject(record)
 	if err != nil {
 		return false, err
@@ -46,6 +54,25 @@ func (r *policyRepository) SetPolicy(ctx context.Context, record *domain.PolicyR
 	return types.RecordFound(has), nil
 }
 
+// purgePolicy removes all relationships stored for the given policy id
+func (r *policyRepository) purgePolicy(id string) error {
+	for _, prefixKV := range []rcdb.KVStore{r.kvStore.relationshipPrefixKV, r.kvStore.relationshipDataPrefixKV} {
+		kv := rcdb.NewWrapperKV(prefixKV, policyPrefix(id))
+		keys, err := listKeys(kv)
+		if err != nil {
+			return err
+		}
+
+		for _, key := range keys {
+			err := kv.Delete(key)
+			if err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func (r *policyRepository) GetPolicy(ctx context.Context, id string) (*domain.PolicyRecord, error) {
 	store := r.kvStore.getPolicyStore()
 	opt, err := store.GetObject([]byte(id))
-- 
2.43.0


From 1dded9e5ee0a65ba3a16fd891e6f3cd1e18f9393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:39 +0000
Subject: [PATCH 21/24] fix: let interrupted deletions of relationships be
 repeated

The entry used to list relationships was removed first, so after a crash
DeleteRelationships did not find a relationship which still granted access.
---
 internal/store/kv_store/checked_kv.go        | 26 +++++++++++++++++++-
 internal/store/kv_store/policy_repository.go |  6 +++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/internal/store/kv_store/checked_kv.go b/internal/store/kv_store/checked_kv.go
index fd1957a..51c7ca0 100644
--- a/internal/store/kv_store/checked_kv.go
+++ b/internal/store/kv_store/checked_kv.go
@@ -15,6 +15,10 @@ var _ rcdb.KVStore = (*checkedKV)(nil)
 type checkedKV struct {
 	rcdb.KVStore
 	err error
+
+	// holdDeletes makes Delete only record the keys in heldDeletes
+	holdDeletes bool
+	heldDeletes [][]byte
 }
 
 // check keeps and returns err
@@ -40,6 +44,10 @@ func (kv *checkedKV) Set(key, value []byte) error {
 }
 
 func (kv *checkedKV) Delete(key []byte) error {
+	if kv.holdDeletes {
+		kv.heldDeletes = append(kv.heldDeletes, key)
+		return nil
+	}
 	return kv.check(kv.KVStore.Delete(key))
 }
 
@@ -91,8 +99,24 @@ func (s *relationshipStore) Set(relationship *Relationship) error {
 	return s.firstErr(s.RaccoonStore.Set(relationship))
 }
 
+// Delete removes the entries of a relationship in the reverse order of RaccoonStore,
+// which begins with the one used to list relationships: if interrupted, the relationship
+// would not be listed but still be found as a sucessor.
 func (s *relationshipStore) Delete(relationship *Relationship) error {
-	return s.firstErr(s.RaccoonStore.Delete(relationship))
+	s.kv.holdDeletes = true
+	err := s.RaccoonStore.Delete(relationship)
+	s.kv.holdDeletes = false
+	if err != nil {
+		return err
+	}
+
+	for i := len(s.kv.heldDeletes) - 1; i >= 0; i-- {
+		if err := s.kv.Delete(s.kv.heldDeletes[i]); err != nil {
+			return err
+		}
+	}
+	s.kv.heldDeletes = nil
+	return s.firstErr(nil)
 }
 
 func (s *relationshipStore) Get(source, dest *RelationNode) (rcdb.Option[*Relationship], error) {
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index e8f2141..c80bcb5 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -160,12 +160,14 @@ func (r *policyRepository) DeleteRelationship(ctx context.Context, policyId stri
 		return false, err
 	}
 
-	err = relationshipStore.Delete(&relationship)
+	// the relationship is removed last, such that an interrupted
+	// DeleteRelationships finds it when repeated
+	err = relationshipDataStore.DeleteById(id)
 	if err != nil {
 		return false, err
 	}
 
-	err = relationshipDataStore.DeleteById(id)
+	err = relationshipStore.Delete(&relationship)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 11b8acf8eb27f90067b8d524bcc14da45c75144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:22 +0000
Subject: [PATCH 22/24] fix: do not interleave the storage operations of
 concurrent requests

---
 locking.go | 110 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 zanzi.go   |  20 +++++++---
 2 files changed, 124 insertions(+), 6 deletions(-)
 create mode 100644 locking.go

diff --git a/locking.go b/locking.go
new file mode 100644
index 0000000..52ae91d
--- /dev/null
+++ b/locking.go
@@ -0,0 +1,110 @@
+package zanzi
+
+import (
+	"context"
+	"sync"
+
+	"github.com/sourcenetwork/zanzi/pkg/api"
+)
+
+var _ api.PolicyServiceServer = (*lockedPolicyService)(nil)
+var _ api.RelationGraphServer = (*lockedRelationGraph)(nil)
+
+// lockedPolicyService serializes requests which change the store, as each one takes several storage operations.
+// Requests which only read may overlap with each other.
+type lockedPolicyService struct {
+	api.UnimplementedPolicyServiceServer
+	service api.PolicyServiceServer
+	mutex   *sync.RWMutex
+}
+
+func (s *lockedPolicyService) CreatePolicy(ctx context.Context, req *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.service.CreatePolicy(ctx, req)
+}
+
+func (s *lockedPolicyService) UpdatePolicy(ctx context.Context, req *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.service.UpdatePolicy(ctx, req)
+}
+
+func (s *lockedPolicyService) DeletePolicy(ctx context.Context, req *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.service.DeletePolicy(ctx, req)
+}
+
+func (s *lockedPolicyService) GetPolicy(ctx context.Context, req *api.GetPolicyRequest) (*api.GetPolicyResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.service.GetPolicy(ctx, req)
+}
+
+func (s *lockedPolicyService) ListPolicyIds(ctx context.Context, req *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.service.ListPolicyIds(ctx, req)
+}
+
+func (s *lockedPolicyService) SetRelationship(ctx context.Context, req *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.service.SetRelationship(ctx, req)
+}
+
+func (s *lockedPolicyService) DeleteRelationship(ctx context.Context, req *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.service.DeleteRelationship(ctx, req)
+}
+
+func (s *lockedPolicyService) GetRelationship(ctx context.Context, req *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.service.GetRelationship(ctx, req)
+}
+
+func (s *lockedPolicyService) DeleteRelationships(ctx context.Context, req *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.service.DeleteRelationships(ctx, req)
+}
+
+func (s *lockedPolicyService) FindRelationshipRecords(ctx context.Context, req *api.FindRelationshipRecordsRequest) (*api.FindRelationshipRecordsResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.service.FindRelationshipRecords(ctx, req)
+}
+
+// lockedRelationGraph keeps the store unchanged during each query.
+type lockedRelationGraph struct {
+	api.UnimplementedRelationGraphServer
+	service api.RelationGraphServer
+	mutex   *sync.RWMutex
+}
+
+func (s *lockedRelationGraph) Check(ctx context.Context, req *api.CheckRequest) (*api.CheckResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.service.Check(ctx, req)
+}
+
+func (s *lockedRelationGraph) ExplainCheck(ctx context.Context, req *api.ExplainCheckRequest) (*api.ExplainCheckResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.service.ExplainCheck(ctx, req)
+}
+
+func (s *lockedRelationGraph) Expand(ctx context.Context, req *api.ExpandRequest) (*api.ExpandResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.service.Expand(ctx, req)
+}
+
+func (s *lockedRelationGraph) DumpRelationships(ctx context.Context, req *api.DumpRelationshipsRequest) (*api.DumpRelationshipResponse, error) {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.service.DumpRelationships(ctx, req)
+}
diff --git a/zanzi.go b/zanzi.go
index 6c0d773..917b915 100644
--- a/zanzi.go
+++ b/zanzi.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os/user"
 	"strings"
+	"sync"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 	"go.uber.org/zap"
@@ -153,12 +154,19 @@ type Zanzi struct {
 }
 
 func (z *Zanzi) init() {
-	z.polService = policy.NewService(z.store.GetPolicyRepository())
-	z.relGraphService = relation_graph.NewService(
-		z.store.GetRelationNodeRepository(),
-		z.store.GetPolicyRepository(),
-		z.logger,
-	)
+	mutex := &sync.RWMutex{}
+	z.polService = &lockedPolicyService{
+		service: policy.NewService(z.store.GetPolicyRepository()),
+		mutex:   mutex,
+	}
+	z.relGraphService = &lockedRelationGraph{
+		service: relation_graph.NewService(
+			z.store.GetRelationNodeRepository(),
+			z.store.GetPolicyRepository(),
+			z.logger,
+		),
+		mutex: mutex,
+	}
 }
 
 // GetRelationshipGraphService returns an implementation of the
-- 
2.43.0


From 49175180971aa056f182252ded2862e7554d985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:58 +0000
Subject: [PATCH 23/24] fix: let an interrupted deletion of a policy be
 repeated

The relationships which an interrupted or failed deletion left behind stayed
visible to GetRelationship, as repeating the deletion did nothing.
---
 internal/policy/service.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index dc5d1ab..5d43879 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -108,13 +108,9 @@ func (s *Service) DeletePolicy(
 	if err != nil {
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
-	if !found {
-		return &api.DeletePolicyResponse{
-			Found:                false,
-			RelationshipsRemoved: 0,
-		}, nil
-	}
 
+	// an interrupted deletion removed the policy but not all of its relationships:
+	// these are removed even if the policy isn't found, such that it can be repeated
 	selector := allRelationshipsSelector()
 	count, err := repo.DeleteRelationships(ctx, req.Id, &selector)
 	if err != nil {
@@ -122,7 +118,7 @@ func (s *Service) DeletePolicy(
 	}
 
 	return &api.DeletePolicyResponse{
-		Found:                true,
+		Found:                bool(found),
 		RelationshipsRemoved: count,
 	}, nil
 }
-- 
2.43.0


From 45dcca52c4434826a591c0b361969a9218c2936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:45 +0000
Subject: [PATCH 24/24] fix: treat selector wildcards without payload as
 wildcards

FindRelationshipRecords panicked on an object wildcard selector which was built
without its empty payload.
---
 internal/policy/spec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index da4af96..62a8aac 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -387,13 +387,13 @@ func (s *ValidSelectorSpec) validObjectSelector(selector *domain.ObjectSelector,
 }
 
 func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSelector, relSelector *domain.RelationSelector, policy *domain.Policy) error {
-	if relSelector.GetWildcard() != nil {
+	if _, ok := relSelector.GetSelector().(*domain.RelationSelector_Wildcard); ok {
 		return nil
 	}
 
 	relName := relSelector.GetRelationName()
 
-	if objSelector.GetWildcard() != nil {
+	if _, ok := objSelector.GetSelector().(*domain.ObjectSelector_Wildcard); ok {
 		for _, resource := range policy.Resources {
 			if resource.GetRelationByName(relName) != nil {
 				return nil
-- 
2.43.0

