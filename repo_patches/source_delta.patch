From 8cd56537cf95ce4dee590564f65708d977806671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 01/22] fix: a wildcard subject in a tupleset no longer crashes
 evaluation

---
 internal/relation_graph/rule_evaluator.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/relation_graph/rule_evaluator.go b/internal/relation_graph/rule_evaluator.go
index 371d80a..83ccd4b 100644
--- a/internal/relation_graph/rule_evaluator.go
+++ b/internal/relation_graph/rule_evaluator.go
@@ -97,6 +97,12 @@ func (f *evaluator) evaluateTupleToUserset(ctx context.Context, policyId string,
 	}
 	f.logger.Debugf("ttu evaluation found tuplesets: %v", sucessors)
 
+	// a resource-wide subject names no concrete object to move to,
+	// it therefore contributes no node to the tuple to userset
+	sucessors = utils.Filter(sucessors, func(node *domain.RelationNode) bool {
+		return node.GetWildcard() == nil
+	})
+
 	mapper := func(node *domain.RelationNode) (*domain.RelationNode, error) {
 		return buildTupleToUsersetNode(node, rule.ComputedUsersetRelation)
 	}
@@ -116,8 +122,6 @@ func buildTupleToUsersetNode(node *domain.RelationNode, computedRelation string)
 		entitySetNode.Object = nodeType.EntitySet.Object
 	case *domain.RelationNode_Entity:
 		entitySetNode.Object = nodeType.Entity.Object
-	case *domain.RelationNode_Wildcard:
-		//TODO not sure how I should go about this scenario yet...
 	default:
 		return nil, fmt.Errorf("building tuple to userset node: node %v: %w", node, domain.ErrInvalidVariant)
 	}
-- 
2.43.0


From c1bb64d48fff5830f91f1d520c11057a8862732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:43 +0000
Subject: [PATCH 02/22] fix: distinct relation nodes no longer share a storage
 key

---
 internal/store/kv_store/model.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/store/kv_store/model.go b/internal/store/kv_store/model.go
index 659156d..e5e5f64 100644
--- a/internal/store/kv_store/model.go
+++ b/internal/store/kv_store/model.go
@@ -2,6 +2,7 @@ package kv_store
 
 import (
 	"crypto/sha256"
+	"fmt"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 
@@ -24,9 +25,11 @@ type relationNodeKeyer struct{}
 
 func (t *relationNodeKeyer) Key(node *RelationNode) []byte {
 	hasher := sha256.New()
-	hasher.Write([]byte(node.Resource))
-	hasher.Write([]byte(node.Id))
-	hasher.Write([]byte(node.Relation))
+	// fields are length prefixed such that no two distinct nodes produce the same input
+	fmt.Fprintf(hasher, "%d/", node.Type)
+	for _, field := range []string{node.Resource, node.Id, node.Relation} {
+		fmt.Fprintf(hasher, "%d:%s", len(field), field)
+	}
 	return hasher.Sum(nil)
 }
 
-- 
2.43.0


From 549f870dc176991c319c66fd51d3f4bb719993b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:46 +0000
Subject: [PATCH 03/22] fix: keep the relationships and relationship data of
 each policy apart

---
 internal/store/kv_store/kv_store.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 3b1d167..f22dae4 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -1,6 +1,8 @@
 package kv_store
 
 import (
+	"fmt"
+
 	rcdb "github.com/sourcenetwork/raccoondb"
 
 	"github.com/sourcenetwork/zanzi/internal/policy"
@@ -47,7 +49,7 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, []byte(policyId))
+	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyKeyspace(policyId))
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
@@ -60,10 +62,18 @@ func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*
 	factory := func() *RelationshipData { return &RelationshipData{} }
 	marshaler := rcdb.ProtoMarshaler[*RelationshipData](factory)
 	ider := relationshipDataIDer{}
-	store := rcdb.NewObjStore[*RelationshipData](kv.relationshipDataPrefixKV, marshaler, &ider)
+	dataKV := rcdb.NewWrapperKV(kv.relationshipDataPrefixKV, policyKeyspace(policyId))
+	store := rcdb.NewObjStore[*RelationshipData](dataKV, marshaler, &ider)
 	return &store
 }
 
+// policyKeyspace returns the prefix under which everything which belongs to a policy is stored.
+// The id is length prefixed such that no policy's keyspace contains another's,
+// regardless of the characters used in its id.
+func policyKeyspace(policyId string) []byte {
+	return []byte(fmt.Sprintf("%d:%s", len(policyId), policyId))
+}
+
 func (kv *KVStore) GetPolicyRepository() policy.Repository {
 	repo := newPolicyRepository(kv)
 	return &repo
-- 
2.43.0


From d0bc45ff0d906355149be52df52fd6002bbb7d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:51 +0000
Subject: [PATCH 04/22] fix: distinct relation nodes no longer share an Id

---
 pkg/domain/relation_graph.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/pkg/domain/relation_graph.go b/pkg/domain/relation_graph.go
index a40e222..1d799dc 100644
--- a/pkg/domain/relation_graph.go
+++ b/pkg/domain/relation_graph.go
@@ -35,26 +35,24 @@ func (n *RelationNode) IsTerminalNode() bool {
 // Hash produces an Id of a RelationNode which uniquely identifies it.
 func (n *RelationNode) Id() string {
 	hasher := sha256.New()
-	separator := []byte{byte('/')}
+	// fields are length prefixed and tagged with the node's kind,
+	// such that no two distinct nodes produce the same Id
+	write := func(kind string, fields ...string) {
+		hasher.Write([]byte(kind))
+		for _, field := range fields {
+			fmt.Fprintf(hasher, "/%d:%s", len(field), field)
+		}
+	}
 
-	// since Ids and Relations are required, it's impossible
-	// for users to created an entity node which would cause a clash
-	switch node := n.Node.(type) {
+	switch node := n.GetNode().(type) {
 	case *RelationNode_EntitySet:
-		hasher.Write([]byte(node.EntitySet.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Object.Id))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.EntitySet.Relation))
+		set := node.EntitySet
+		write("set", set.GetObject().GetResource(), set.GetObject().GetId(), set.GetRelation())
 	case *RelationNode_Entity:
-		hasher.Write([]byte(node.Entity.Object.Resource))
-		hasher.Write(separator)
-		hasher.Write([]byte(node.Entity.Object.Id))
-		hasher.Write(separator)
+		object := node.Entity.GetObject()
+		write("entity", object.GetResource(), object.GetId())
 	case *RelationNode_Wildcard:
-		hasher.Write([]byte(node.Wildcard.Resource))
-		hasher.Write(separator)
-		hasher.Write(separator)
+		write("wildcard", node.Wildcard.GetResource())
 	default:
 	}
 
-- 
2.43.0


From bf713a6248ed4611e916768230e65d5486c7a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:23 +0000
Subject: [PATCH 05/22] fix: Check evaluates nodes which are reached more than
 once

---
 internal/relation_graph/searcher.go | 107 ++++++++++++++++++++++++----
 1 file changed, 92 insertions(+), 15 deletions(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index d6625ba..8d1f5a9 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -3,6 +3,7 @@ package relation_graph
 import (
 	"context"
 	"fmt"
+	"math"
 
 	"github.com/sourcenetwork/zanzi/internal/utils"
 	"github.com/sourcenetwork/zanzi/pkg/domain"
@@ -11,17 +12,45 @@ import (
 
 func NewSearcher(builder goalTreeBuilder, logger types.Logger) Searcher {
 	return Searcher{
-		builder:   builder,
-		logger:    logger,
-		seenNodes: make(map[string]struct{}),
+		builder:  builder,
+		logger:   logger,
+		path:     make(map[string]int),
+		resolved: make(map[string]resolution),
+		lowest:   noDependency,
 	}
 }
 
+// noDependency is the depth used for results which do not depend on any open node
+const noDependency = math.MaxInt
+
+// resolution is the known result of searching for the goal from some node.
+//
+// Failures found while exploring a cycle assume that the nodes which are still
+// being searched (ie. open nodes) do not reach the goal.
+// lowest is the depth of the uppermost open node the result depends on,
+// or noDependency if the result is definitive.
+type resolution struct {
+	result SearchResult
+	lowest int
+}
+
 type Searcher struct {
-	builder       goalTreeBuilder
-	logger        types.Logger
-	seenNodes     map[string]struct{}
-	resolvedTrees map[string]GoalTree
+	builder goalTreeBuilder
+	logger  types.Logger
+
+	// path maps the nodes currently being searched to their depth
+	path map[string]int
+
+	// resolved maps explored nodes to their result
+	resolved map[string]resolution
+
+	// tentative lists the nodes whose resolution depends on an open node,
+	// in the order in which they were resolved
+	tentative []string
+
+	// lowest is the depth of the uppermost open node found
+	// since the innermost open node started being searched
+	lowest int
 }
 
 // Search receives an Origin and a Goal and searches for a Path in the RelationGraph between
@@ -93,7 +122,7 @@ func (s *Searcher) searchAND(ctx context.Context, policy *domain.Policy, tree *A
 		}
 
 		// ANDNode requires that all Paths to the Goal are found
-		if newPath.GetResult() == SearchResult_FAILURE {
+		if newPath.GetResult() != SearchResult_SUCCESS {
 			foundAll = false
 			s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
 			break
@@ -159,7 +188,7 @@ func (s *Searcher) searchDifference(ctx context.Context, policy *domain.Policy,
 		return nil, err
 	}
 
-	found := leftTree.GetResult() == SearchResult_SUCCESS && rightTree.GetResult() == SearchResult_FAILURE
+	found := leftTree.GetResult() == SearchResult_SUCCESS && rightTree.GetResult() != SearchResult_SUCCESS
 	result := utils.Conditional(found, SearchResult_SUCCESS, SearchResult_FAILURE)
 
 	diff := &DifferenceNode{
@@ -183,14 +212,17 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 		Reason:       node.Reason,
 	}
 
-	// add trail
-	// use cached value
 	nodeId := node.RelationNode.Id()
-	if _, ok := s.seenNodes[nodeId]; ok {
-		s.logger.Debugf("duplicated node - terminating brach: %v", node.RelationNode)
+	if depth, ok := s.path[nodeId]; ok {
+		s.logger.Debugf("cycle found - terminating branch: %v", node.RelationNode)
+		s.lowest = min(s.lowest, depth)
+		return pathNode, nil
+	}
+	if known, ok := s.resolved[nodeId]; ok {
+		s.logger.Debugf("resolved node - terminating branch: %v", node.RelationNode)
+		s.lowest = min(s.lowest, known.lowest)
+		pathNode.Result = known.result
 		return pathNode, nil
-	} else {
-		s.seenNodes[nodeId] = struct{}{}
 	}
 
 	spec := GoalFoundSpec{}
@@ -203,6 +235,11 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 		return pathNode, nil
 	}
 
+	depth := len(s.path)
+	s.path[nodeId] = depth
+	outerLowest, outerTentative := s.lowest, len(s.tentative)
+	s.lowest = noDependency
+
 	goalTree, err := s.builder.Build(ctx, policy, pathNode.RelationNode)
 	if err != nil {
 		return nil, err
@@ -217,9 +254,49 @@ func (s *Searcher) searchPath(ctx context.Context, policy *domain.Policy, node *
 	pathNode.Path = goalTree
 	pathNode.Result = goalTree.GetResult()
 
+	delete(s.path, nodeId)
+	s.resolve(nodeId, depth, pathNode.Result, outerTentative)
+	s.lowest = min(outerLowest, s.lowest)
+
 	return pathNode, nil
 }
 
+// resolve registers the result of a node which is no longer open.
+// outerTentative is the amount of tentative results which existed before the node was opened.
+func (s *Searcher) resolve(nodeId string, depth int, result SearchResult, outerTentative int) {
+	dependents := s.tentative[outerTentative:]
+
+	switch {
+	case result == SearchResult_SUCCESS:
+		// Reaching the goal never depends on the failures assumed for open nodes.
+		// The failures found meanwhile could have assumed that the current node
+		// would not reach the goal, so they must be forgotten.
+		for _, id := range dependents {
+			delete(s.resolved, id)
+		}
+		s.tentative = s.tentative[:outerTentative]
+		s.lowest = noDependency
+		s.resolved[nodeId] = resolution{result: result, lowest: noDependency}
+	case s.lowest >= depth:
+		// every assumption made was about the current node or the nodes below it
+		for _, id := range dependents {
+			s.resolved[id] = resolution{result: s.resolved[id].result, lowest: noDependency}
+		}
+		s.tentative = s.tentative[:outerTentative]
+		s.lowest = noDependency
+		s.resolved[nodeId] = resolution{result: result, lowest: noDependency}
+	default:
+		for _, id := range dependents {
+			s.resolved[id] = resolution{
+				result: s.resolved[id].result,
+				lowest: min(s.lowest, s.resolved[id].lowest),
+			}
+		}
+		s.tentative = append(s.tentative, nodeId)
+		s.resolved[nodeId] = resolution{result: result, lowest: s.lowest}
+	}
+}
+
 type GoalFoundSpec struct{}
 
 func (s *GoalFoundSpec) Found(pathNode *PathNode, goal *Goal) bool {
-- 
2.43.0


From 989135b7b70a8abce2e30febdeca4c7fefff7ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:49 +0000
Subject: [PATCH 06/22] fix: Expand walks every operand of an intersection

---
 internal/relation_graph/searcher.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index 8d1f5a9..763e0ef 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -124,8 +124,11 @@ func (s *Searcher) searchAND(ctx context.Context, policy *domain.Policy, tree *A
 		// ANDNode requires that all Paths to the Goal are found
 		if newPath.GetResult() != SearchResult_SUCCESS {
 			foundAll = false
-			s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
-			break
+			// without a Target there's no goal to reach and the entire Graph must be walked
+			if goal.Target != nil {
+				s.logger.Debugf("AND Node terminated: node %v did not reach path", newPath)
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From 69301a3b9dae38e43740ac6584c4ba337bdc8547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:54 +0000
Subject: [PATCH 07/22] fix: the resource name of a userset subject is its
 entity's resource

---
 pkg/domain/relationship.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index ebad6d7..c311fe6 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -84,7 +84,7 @@ func (s *Subject) GetResourceName() string {
 	case *Subject_Entity:
 		return subj.Entity.Resource
 	case *Subject_EntitySet:
-		return subj.EntitySet.Relation
+		return subj.EntitySet.GetEntity().GetResource()
 	case *Subject_ResourceSet:
 		return subj.ResourceSet.ResourceName
 	}
-- 
2.43.0


From abf3f46b8c9e4ff09266d201f0d71d70f47ab937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:58 +0000
Subject: [PATCH 08/22] fix: a selector with any object and a named relation no
 longer panics

---
 internal/policy/spec.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index b387c56..02447b4 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -383,6 +383,15 @@ func (s *ValidSelectorSpec) validRelationSelector(objSelector *domain.ObjectSele
 
 	relName := relSelector.GetRelationName()
 
+	if objSelector.GetWildcard() != nil {
+		for _, resource := range policy.Resources {
+			if resource.GetRelationByName(relName) != nil {
+				return nil
+			}
+		}
+		return fmt.Errorf("relation %v: %w", relName, ErrRelationNotFound)
+	}
+
 	resourceName := s.getObjectSelectorResourceName(objSelector)
 	resource := policy.GetResourceByName(resourceName)
 	relation := resource.GetRelationByName(relName)
-- 
2.43.0


From bcd599c908457a916dc3e0e5bd862438a51bb8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:01 +0000
Subject: [PATCH 09/22] fix: selectors match on field values rather than on
 message internals

---
 internal/policy/selector_spec.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/policy/selector_spec.go b/internal/policy/selector_spec.go
index a9b4378..6dacba2 100644
--- a/internal/policy/selector_spec.go
+++ b/internal/policy/selector_spec.go
@@ -2,7 +2,8 @@ package policy
 
 import (
 	"fmt"
-	"reflect"
+
+	"google.golang.org/protobuf/proto"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
 )
@@ -59,7 +60,7 @@ func (s *RelationshipSelectorSpec) Satisfies(relationship *domain.Relationship)
 
 func (s *RelationshipSelectorSpec) objectSpec(entity *domain.Entity) predicate {
 	return func(r *domain.Relationship) bool {
-		return reflect.DeepEqual(entity, r.Object)
+		return proto.Equal(entity, r.Object)
 	}
 }
 
@@ -89,7 +90,7 @@ func (s *RelationshipSelectorSpec) relationWildcardSpec() predicate {
 
 func (s *RelationshipSelectorSpec) subjectSpec(subject *domain.Subject) predicate {
 	return func(r *domain.Relationship) bool {
-		return reflect.DeepEqual(r.Subject, subject)
+		return proto.Equal(r.Subject, subject)
 	}
 }
 
-- 
2.43.0


From cc4298868f17f3e9a6397d368833baad932b0753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:27 +0000
Subject: [PATCH 10/22] fix: enforce the required fields of policies and
 relationships

---
 internal/policy/spec.go | 43 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index 02447b4..f3b2518 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -19,11 +19,11 @@ func (s *ValidPolicySpec) Verify(policy *domain.Policy) error {
 func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
 	lut := NewPolicyLookUpTable(policy)
 
-	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
+	if err := s.RequiredFieldsPresent(policy); err != nil {
 		return err
 	}
 
-	if err := s.RequiredFieldsPresent(policy); err != nil {
+	if err := s.UniqueResourceAndRelationsNames(policy); err != nil {
 		return err
 	}
 
@@ -39,6 +39,21 @@ func (s *ValidPolicySpec) verify(policy *domain.Policy) error {
 }
 
 func (s *ValidPolicySpec) RequiredFieldsPresent(policy *domain.Policy) error {
+	if policy.GetId() == "" {
+		return fmt.Errorf("policy id is required: %w", ErrInvalidPolicy)
+	}
+
+	for _, resource := range policy.GetResources() {
+		if resource.GetName() == "" {
+			return fmt.Errorf("resource name is required: %w", ErrInvalidPolicy)
+		}
+		for _, relation := range resource.GetRelations() {
+			if relation.GetName() == "" {
+				return fmt.Errorf("resource %v: relation name is required: %w", resource.GetName(), ErrInvalidPolicy)
+			}
+		}
+	}
+
 	return policy.Validate()
 }
 
@@ -173,6 +188,30 @@ type AllowedRelationshipSpec struct {
 
 // ValidateRelationship checks the relationship contains the rquried fields
 func (s *AllowedRelationshipSpec) requiredFields(relationship *domain.Relationship) error {
+	required := []string{
+		relationship.GetObject().GetResource(),
+		relationship.GetObject().GetId(),
+		relationship.GetRelation(),
+	}
+
+	switch subject := relationship.GetSubject().GetSubject().(type) {
+	case *domain.Subject_Entity:
+		required = append(required, subject.Entity.GetResource(), subject.Entity.GetId())
+	case *domain.Subject_EntitySet:
+		set := subject.EntitySet
+		required = append(required, set.GetEntity().GetResource(), set.GetEntity().GetId(), set.GetRelation())
+	case *domain.Subject_ResourceSet:
+		required = append(required, subject.ResourceSet.GetResourceName())
+	default:
+		return fmt.Errorf("relationship %v: subject is required: %w", relationship, ErrInvalidRelationship)
+	}
+
+	for _, field := range required {
+		if field == "" {
+			return fmt.Errorf("relationship %v: missing required field: %w", relationship, ErrInvalidRelationship)
+		}
+	}
+
 	err := relationship.Validate()
 	if err != nil {
 		return fmt.Errorf("relationship %v: %w", relationship, ErrInvalidRelationship)
-- 
2.43.0


From 26a217b13ca157b7b87e42071d358d92a2c0bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:19 +0000
Subject: [PATCH 11/22] fix: incomplete policies, relationships and selectors
 are refused instead of panicking

---
 internal/policy/helpers.go             |  4 +-
 internal/policy/selector_spec.go       |  6 +--
 internal/policy/service.go             |  8 ++--
 internal/policy/spec.go                | 61 ++++++++++++++++++--------
 internal/policy/types.go               |  8 ++--
 internal/store/kv_store/mapper.go      | 20 ++++-----
 pkg/domain/relation_expression_tree.go |  6 +--
 pkg/domain/relationship.go             |  6 +--
 8 files changed, 72 insertions(+), 47 deletions(-)

diff --git a/internal/policy/helpers.go b/internal/policy/helpers.go
index 588caf0..e2e99ff 100644
--- a/internal/policy/helpers.go
+++ b/internal/policy/helpers.go
@@ -21,7 +21,7 @@ func GetExpressionTree(r *domain.Relation) (*domain.RelationExpressionTree, erro
 	var tree *domain.RelationExpressionTree
 	var err error
 
-	switch t := r.RelationExpression.Expression.(type) {
+	switch t := r.GetRelationExpression().GetExpression().(type) {
 	case *domain.RelationExpression_Expr:
 		tree, err = parser.Parse(t.Expr)
 		if err != nil {
@@ -40,7 +40,7 @@ func GetPolicyFromDefinition(d *api.PolicyDefinition) (*domain.Policy, error) {
 	var policy *domain.Policy
 	var err error
 
-	switch definition := d.Definition.(type) {
+	switch definition := d.GetDefinition().(type) {
 	case *api.PolicyDefinition_Policy:
 		policy = definition.Policy
 	case *api.PolicyDefinition_PolicyYaml:
diff --git a/internal/policy/selector_spec.go b/internal/policy/selector_spec.go
index 6dacba2..3bad792 100644
--- a/internal/policy/selector_spec.go
+++ b/internal/policy/selector_spec.go
@@ -20,7 +20,7 @@ type RelationshipSelectorSpec struct {
 func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelectorSpec, error) {
 	spec := RelationshipSelectorSpec{}
 
-	switch objectSelector := selector.ObjectSelector.Selector.(type) {
+	switch objectSelector := selector.GetObjectSelector().GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		spec.objectPredicate = spec.objectSpec(objectSelector.ObjectSpec)
 	case *domain.ObjectSelector_Wildcard:
@@ -31,7 +31,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("ObjectSelector %v: %w", objectSelector, domain.ErrInvalidVariant)
 	}
 
-	switch relationSelector := selector.RelationSelector.Selector.(type) {
+	switch relationSelector := selector.GetRelationSelector().GetSelector().(type) {
 	case *domain.RelationSelector_RelationName:
 		spec.relationPredicate = spec.relationNameSpec(relationSelector.RelationName)
 	case *domain.RelationSelector_Wildcard:
@@ -40,7 +40,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("RelationSelector %v: %w", relationSelector, domain.ErrInvalidVariant)
 	}
 
-	switch subjectSelector := selector.SubjectSelector.Selector.(type) {
+	switch subjectSelector := selector.GetSubjectSelector().GetSelector().(type) {
 	case *domain.SubjectSelector_SubjectSpec:
 		spec.subjectPredicate = spec.subjectSpec(subjectSelector.SubjectSpec)
 	case *domain.SubjectSelector_Wildcard:
diff --git a/internal/policy/service.go b/internal/policy/service.go
index dc5d1ab..b067b86 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -38,9 +38,9 @@ func (s *Service) CreatePolicy(
 
 	repo := s.getPolicyRepository()
 
-	fetched, err := repo.GetPolicy(ctx, policy.Id)
+	fetched, err := repo.GetPolicy(ctx, policy.GetId())
 	if fetched != nil {
-		return nil, fmt.Errorf("create policy: policy %v: %w", policy.Id, ErrPolicyExists)
+		return nil, fmt.Errorf("create policy: policy %v: %w", policy.GetId(), ErrPolicyExists)
 	}
 	if err != nil {
 		return nil, fmt.Errorf("create policy: %w", err)
@@ -74,12 +74,12 @@ func (s *Service) UpdatePolicy(
 
 	repo := s.getPolicyRepository()
 
-	record, err := repo.GetPolicy(ctx, policy.Id)
+	record, err := repo.GetPolicy(ctx, policy.GetId())
 	if err != nil {
 		return nil, fmt.Errorf("update policy: %w", err)
 	}
 	if record == nil {
-		return nil, fmt.Errorf("update policy: policy %v: %w", policy.Id, ErrPolicyNotFound)
+		return nil, fmt.Errorf("update policy: policy %v: %w", policy.GetId(), ErrPolicyNotFound)
 	}
 
 	spec := ValidPolicySpec{}
diff --git a/internal/policy/spec.go b/internal/policy/spec.go
index f3b2518..fb6957d 100644
--- a/internal/policy/spec.go
+++ b/internal/policy/spec.go
@@ -11,7 +11,7 @@ type ValidPolicySpec struct{}
 func (s *ValidPolicySpec) Verify(policy *domain.Policy) error {
 	err := s.verify(policy)
 	if err != nil {
-		return fmt.Errorf("policy %v: %w", policy.Id, err)
+		return fmt.Errorf("policy %v: %w", policy.GetId(), err)
 	}
 	return nil
 }
@@ -97,6 +97,9 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 			if err != nil {
 				return fmt.Errorf("resoruce %v: relation %v: %w", resource.Name, relation.Name, err)
 			}
+			if err := s.completeExpressionTree(tree); err != nil {
+				return fmt.Errorf("resoruce %v: relation %v: %w", resource.Name, relation.Name, err)
+			}
 			rules := tree.GetRules()
 			for _, rule := range rules {
 				err := s.policyContainsRelationsInRule(resource.Name, relation.Name, lut, rule)
@@ -109,17 +112,39 @@ func (s *ValidPolicySpec) RelationExpressionWellDefined(policy *domain.Policy, l
 	return nil
 }
 
+// completeExpressionTree verifies that every node in the tree is set and known
+func (s *ValidPolicySpec) completeExpressionTree(tree *domain.RelationExpressionTree) error {
+	switch node := tree.GetNode().(type) {
+	case *domain.RelationExpressionTree_OpNode:
+		operator := node.OpNode.GetOperator()
+		if operator.RelationExpression() == "" {
+			return fmt.Errorf("operator %v: %w", operator, domain.ErrInvalidVariant)
+		}
+		if err := s.completeExpressionTree(node.OpNode.GetLeft()); err != nil {
+			return err
+		}
+		return s.completeExpressionTree(node.OpNode.GetRight())
+	case *domain.RelationExpressionTree_Rule:
+		return nil
+	default:
+		return fmt.Errorf("incomplete tree: %w", ErrRelExpTree)
+	}
+}
+
 func (s *ValidPolicySpec) policyContainsRelationsInRule(resource, relation string, lut PolicyLookUpTable, rule *domain.Rule) error {
-	switch r := rule.Rule.(type) {
+	switch r := rule.GetRule().(type) {
 	case *domain.Rule_Cu:
-		target := r.Cu.TargetRelation
+		target := r.Cu.GetTargetRelation()
 		rel := lut.GetRelation(resource, target)
 		if rel == nil {
 			return fmt.Errorf("resource %v missing relation %v: %w", resource, target, ErrRelExpTree)
 		}
 	case *domain.Rule_This:
 	case *domain.Rule_Ttu:
-		target := r.Ttu.TuplesetRelation
+		if r.Ttu.GetComputedUsersetRelation() == "" {
+			return fmt.Errorf("tuple to userset missing computed userset relation: %w", ErrRelExpTree)
+		}
+		target := r.Ttu.GetTuplesetRelation()
 		tuplesetRel := lut.GetRelation(resource, target)
 		if tuplesetRel == nil {
 			return fmt.Errorf("resource %v missing relation %v: %w", resource, target, ErrRelExpTree)
@@ -163,14 +188,14 @@ func (s *ValidPolicySpec) ValidSubjectRestriction(restriction *domain.SubjectRes
 
 func (s *ValidPolicySpec) validSubjectRestrictionSet(restrictionSet *domain.SubjectRestrictionSet, lut PolicyLookUpTable) error {
 
-	for _, elem := range restrictionSet.Restrictions {
-		switch restriction := elem.Entry.(type) {
+	for _, elem := range restrictionSet.GetRestrictions() {
+		switch restriction := elem.GetEntry().(type) {
 		case *domain.SubjectRestrictionSet_Restriction_Entity:
-			if lut.GetResource(restriction.Entity.ResourceName) == nil {
-				return fmt.Errorf("no resource %v", restriction.Entity.ResourceName)
+			if lut.GetResource(restriction.Entity.GetResourceName()) == nil {
+				return fmt.Errorf("no resource %v", restriction.Entity.GetResourceName())
 			}
 		case *domain.SubjectRestrictionSet_Restriction_EntitySet:
-			resource, relation := restriction.EntitySet.ResourceName, restriction.EntitySet.RelationName
+			resource, relation := restriction.EntitySet.GetResourceName(), restriction.EntitySet.GetRelationName()
 			if lut.GetRelation(resource, relation) == nil {
 				return fmt.Errorf("no relation %v for resource %v", relation, resource)
 			}
@@ -296,7 +321,7 @@ func (s *SubjectRestrictionSpec) Satisfies(relationship *domain.Relationship, ta
 
 	var err error
 
-	switch restriction := relation.SubjectRestriction.SubjectRestriction.(type) {
+	switch restriction := relation.GetSubjectRestriction().GetSubjectRestriction().(type) {
 	case *domain.SubjectRestriction_UniversalSet:
 		err = nil
 	case *domain.SubjectRestriction_RestrictionSet:
@@ -327,7 +352,7 @@ func (s *SubjectRestrictionSpec) satisfiesRestrictionSet(subject *domain.Subject
 		subjResource = subjectType.ResourceSet.ResourceName
 	}
 
-	for _, restriction := range set.Restrictions {
+	for _, restriction := range set.GetRestrictions() {
 		err := validator(restriction, subjResource, subjRelation)
 		if err == nil {
 			return nil
@@ -377,17 +402,17 @@ func (s *SubjectRestrictionSpec) satisfiesRestriction(restriction *domain.Subjec
 type ValidSelectorSpec struct{}
 
 func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, policy *domain.Policy) error {
-	err := s.validObjectSelector(selector.ObjectSelector, policy)
+	err := s.validObjectSelector(selector.GetObjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("object selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validRelationSelector(selector.ObjectSelector, selector.RelationSelector, policy)
+	err = s.validRelationSelector(selector.GetObjectSelector(), selector.GetRelationSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("relation selector invalid: policy %v: %w", policy.Id, err)
 	}
 
-	err = s.validSubjectSelector(selector.SubjectSelector, policy)
+	err = s.validSubjectSelector(selector.GetSubjectSelector(), policy)
 	if err != nil {
 		return fmt.Errorf("subject selector invalid: policy %v: %w", policy.Id, err)
 	}
@@ -396,11 +421,11 @@ func (s *ValidSelectorSpec) Satisfies(selector *domain.RelationshipSelector, pol
 }
 
 func (s *ValidSelectorSpec) validObjectSelector(selector *domain.ObjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.ObjectSelector_ObjectSpec:
-		resource := policy.GetResourceByName(s.ObjectSpec.Resource)
+		resource := policy.GetResourceByName(s.ObjectSpec.GetResource())
 		if resource == nil {
-			return fmt.Errorf("resource %v: %w", s.ObjectSpec.Resource, ErrResourceNotFound)
+			return fmt.Errorf("resource %v: %w", s.ObjectSpec.GetResource(), ErrResourceNotFound)
 		}
 	case *domain.ObjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
@@ -452,7 +477,7 @@ func (s *ValidSelectorSpec) getObjectSelectorResourceName(objSelector *domain.Ob
 }
 
 func (s *ValidSelectorSpec) validSubjectSelector(selector *domain.SubjectSelector, policy *domain.Policy) error {
-	switch s := selector.Selector.(type) {
+	switch s := selector.GetSelector().(type) {
 	case *domain.SubjectSelector_ResourceSpec:
 		resource := policy.GetResourceByName(s.ResourceSpec)
 		if resource == nil {
diff --git a/internal/policy/types.go b/internal/policy/types.go
index ba09fc9..25fb5cc 100644
--- a/internal/policy/types.go
+++ b/internal/policy/types.go
@@ -44,10 +44,10 @@ func NewPolicyLookUpTable(policy *domain.Policy) PolicyLookUpTable {
 		resources: make(map[string]*domain.Resource),
 	}
 
-	for _, resource := range policy.Resources {
-		lut.resources[resource.Name] = resource
-		for _, relation := range resource.Relations {
-			key := lut.buildRelationKey(resource.Name, relation.Name)
+	for _, resource := range policy.GetResources() {
+		lut.resources[resource.GetName()] = resource
+		for _, relation := range resource.GetRelations() {
+			key := lut.buildRelationKey(resource.GetName(), relation.GetName())
 			lut.relations[key] = relation
 		}
 	}
diff --git a/internal/store/kv_store/mapper.go b/internal/store/kv_store/mapper.go
index 3a6897f..2df60ad 100644
--- a/internal/store/kv_store/mapper.go
+++ b/internal/store/kv_store/mapper.go
@@ -10,18 +10,18 @@ func (m *relationshipMapper) ToInternal(relationship *domain.Relationship) Relat
 	var subjType RelationType
 	var subjResource, subjId, subjRelation string
 
-	switch subject := relationship.Subject.Subject.(type) {
+	switch subject := relationship.GetSubject().GetSubject().(type) {
 	case *domain.Subject_Entity:
-		subjResource = subject.Entity.Resource
-		subjId = subject.Entity.Id
+		subjResource = subject.Entity.GetResource()
+		subjId = subject.Entity.GetId()
 		subjType = RelationType_OBJECT
 	case *domain.Subject_EntitySet:
-		subjResource = subject.EntitySet.Entity.Resource
-		subjId = subject.EntitySet.Entity.Id
-		subjRelation = subject.EntitySet.Relation
+		subjResource = subject.EntitySet.GetEntity().GetResource()
+		subjId = subject.EntitySet.GetEntity().GetId()
+		subjRelation = subject.EntitySet.GetRelation()
 		subjType = RelationType_OBJECT_SET
 	case *domain.Subject_ResourceSet:
-		subjResource = subject.ResourceSet.ResourceName
+		subjResource = subject.ResourceSet.GetResourceName()
 		subjType = RelationType_RESOURCE_SET
 	default:
 		subjType = RelationType_UNKNOWN
@@ -29,9 +29,9 @@ func (m *relationshipMapper) ToInternal(relationship *domain.Relationship) Relat
 
 	return Relationship{
 		Source: &RelationNode{
-			Resource: relationship.Object.Resource,
-			Id:       relationship.Object.Id,
-			Relation: relationship.Relation,
+			Resource: relationship.GetObject().GetResource(),
+			Id:       relationship.GetObject().GetId(),
+			Relation: relationship.GetRelation(),
 			Type:     RelationType_OBJECT_SET,
 		},
 		Dest: &RelationNode{
diff --git a/pkg/domain/relation_expression_tree.go b/pkg/domain/relation_expression_tree.go
index f4d8cef..171070d 100644
--- a/pkg/domain/relation_expression_tree.go
+++ b/pkg/domain/relation_expression_tree.go
@@ -76,12 +76,12 @@ func (tree *RelationExpressionTree) GetRules() []*Rule {
 }
 
 func (tree *RelationExpressionTree) getRules(acc []*Rule) []*Rule {
-	switch n := tree.Node.(type) {
+	switch n := tree.GetNode().(type) {
 	case *RelationExpressionTree_Rule:
 		acc = append(acc, n.Rule)
 	case *RelationExpressionTree_OpNode:
-		acc = n.OpNode.Left.getRules(acc)
-		acc = n.OpNode.Right.getRules(acc)
+		acc = n.OpNode.GetLeft().getRules(acc)
+		acc = n.OpNode.GetRight().getRules(acc)
 	}
 	return acc
 }
diff --git a/pkg/domain/relationship.go b/pkg/domain/relationship.go
index c311fe6..56a1ff3 100644
--- a/pkg/domain/relationship.go
+++ b/pkg/domain/relationship.go
@@ -80,13 +80,13 @@ func (b *RelationshipBuilder) Wildcard(objResource, objId, relation, subjResourc
 
 // GetResourceName returns the Subject's Resource Name
 func (s *Subject) GetResourceName() string {
-	switch subj := s.Subject.(type) {
+	switch subj := s.GetSubject().(type) {
 	case *Subject_Entity:
-		return subj.Entity.Resource
+		return subj.Entity.GetResource()
 	case *Subject_EntitySet:
 		return subj.EntitySet.GetEntity().GetResource()
 	case *Subject_ResourceSet:
-		return subj.ResourceSet.ResourceName
+		return subj.ResourceSet.GetResourceName()
 	}
 	return ""
 }
-- 
2.43.0


From 4e6140ed7685db88e954be0cfd9a7c760d492fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:42 +0000
Subject: [PATCH 12/22] fix: incomplete relation graph requests no longer panic

---
 internal/relation_graph/goal_tree.go |  2 +-
 internal/relation_graph/searcher.go  |  4 ++--
 internal/relation_graph/service.go   | 16 ++++++++++------
 pkg/domain/relation_graph.go         | 14 +++++++-------
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/internal/relation_graph/goal_tree.go b/internal/relation_graph/goal_tree.go
index f276691..aa20fa4 100644
--- a/internal/relation_graph/goal_tree.go
+++ b/internal/relation_graph/goal_tree.go
@@ -64,7 +64,7 @@ func (b *goalTreeBuilder) handleTerminalNodes(node *domain.RelationNode) GoalTre
 func (b *goalTreeBuilder) handleEntitySet(ctx context.Context, pol *domain.Policy, node *domain.EntitySetNode) (GoalTree, error) {
 	table := policy.NewPolicyLookUpTable(pol)
 
-	relation := table.GetRelation(node.Object.Resource, node.Relation)
+	relation := table.GetRelation(node.GetObject().GetResource(), node.GetRelation())
 	if relation == nil {
 		return nil, policy.ErrRelationNotFound
 	}
diff --git a/internal/relation_graph/searcher.go b/internal/relation_graph/searcher.go
index 763e0ef..b9b7198 100644
--- a/internal/relation_graph/searcher.go
+++ b/internal/relation_graph/searcher.go
@@ -327,11 +327,11 @@ func (s *GoalFoundSpec) isEntityGoalFound(pathNode *PathNode, goal *domain.Entit
 	case *domain.RelationNode_Entity:
 		goalEntity := goal.Object
 		pathEntity := node.Entity.Object
-		return goalEntity.Resource == pathEntity.Resource && goalEntity.Id == pathEntity.Id
+		return goalEntity.GetResource() == pathEntity.GetResource() && goalEntity.GetId() == pathEntity.GetId()
 	case *domain.RelationNode_EntitySet:
 		return false
 	case *domain.RelationNode_Wildcard:
-		return node.Wildcard.Resource == goal.Object.Resource
+		return node.Wildcard.GetResource() == goal.GetObject().GetResource()
 	default:
 		return false
 	}
diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 85e9298..20db526 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -45,8 +45,8 @@ func (s *Service) Check(
 	origin := domain.RelationNode{
 		Node: &domain.RelationNode_EntitySet{
 			EntitySet: &domain.EntitySetNode{
-				Object:   req.AccessRequest.Object,
-				Relation: req.AccessRequest.Relation,
+				Object:   req.GetAccessRequest().GetObject(),
+				Relation: req.GetAccessRequest().GetRelation(),
 			},
 		},
 	}
@@ -54,7 +54,7 @@ func (s *Service) Check(
 		Target: &domain.RelationNode{
 			Node: &domain.RelationNode_Entity{
 				Entity: &domain.EntityNode{
-					Object: req.AccessRequest.Subject,
+					Object: req.GetAccessRequest().GetSubject(),
 				},
 			},
 		},
@@ -100,8 +100,8 @@ func (s *Service) ExplainCheck(
 	origin := domain.RelationNode{
 		Node: &domain.RelationNode_EntitySet{
 			EntitySet: &domain.EntitySetNode{
-				Object:   req.AccessRequest.Object,
-				Relation: req.AccessRequest.Relation,
+				Object:   req.GetAccessRequest().GetObject(),
+				Relation: req.GetAccessRequest().GetRelation(),
 			},
 		},
 	}
@@ -109,7 +109,7 @@ func (s *Service) ExplainCheck(
 		Target: &domain.RelationNode{
 			Node: &domain.RelationNode_Entity{
 				Entity: &domain.EntityNode{
-					Object: req.AccessRequest.Subject,
+					Object: req.GetAccessRequest().GetSubject(),
 				},
 			},
 		},
@@ -156,6 +156,10 @@ func (s *Service) Expand(
 	builder := newGoalTreeBuilder(evaluator, s.logger)
 	searcher := NewSearcher(builder, s.logger)
 
+	if req.GetRoot().GetNode() == nil {
+		return nil, fmt.Errorf("expand: %w: root: %w", api.ErrInvalidRequest, domain.ErrInvalidVariant)
+	}
+
 	goal := Goal{
 		Target: nil,
 	}
diff --git a/pkg/domain/relation_graph.go b/pkg/domain/relation_graph.go
index 1d799dc..23c76d0 100644
--- a/pkg/domain/relation_graph.go
+++ b/pkg/domain/relation_graph.go
@@ -62,16 +62,16 @@ func (n *RelationNode) Id() string {
 
 func (n *RelationNode) PrettyString() string {
 	var resource, id, relation string
-	switch node := n.Node.(type) {
+	switch node := n.GetNode().(type) {
 	case *RelationNode_EntitySet:
-		resource = node.EntitySet.Object.Resource
-		id = node.EntitySet.Object.Id
-		relation = node.EntitySet.Relation
+		resource = node.EntitySet.GetObject().GetResource()
+		id = node.EntitySet.GetObject().GetId()
+		relation = node.EntitySet.GetRelation()
 	case *RelationNode_Entity:
-		resource = node.Entity.Object.Resource
-		id = node.Entity.Object.Id
+		resource = node.Entity.GetObject().GetResource()
+		id = node.Entity.GetObject().GetId()
 	case *RelationNode_Wildcard:
-		resource = node.Wildcard.Resource
+		resource = node.Wildcard.GetResource()
 		id = "*"
 	default:
 	}
-- 
2.43.0


From 549c6144539548a0e36d69cdaa1cf36843f7ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:21 +0000
Subject: [PATCH 13/22] fix: DumpRelationships handles cycles and nodes with
 many parents

---
 .../relation_tree_serializer.go               | 13 +++++++--
 internal/relation_graph/walker.go             | 28 +++++++++++++++++++
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 166b9e4..9fe257e 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -16,7 +16,8 @@ func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string
 	graph.SetDir(directed) //directed graph true
 	graph.SetName(relationTreeGraphName)
 
-	err := s.handleNode(nil, tree, graph)
+	visited := make(map[*domain.RelationTree]struct{})
+	err := s.handleNode(nil, tree, graph, visited)
 	if err != nil {
 		return "", err
 	}
@@ -24,7 +25,7 @@ func (s *RelationTreeDOTSerializer) Serialize(tree *domain.RelationTree) (string
 	return graph.String(), nil
 }
 
-func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node *domain.RelationTree, graph *gographviz.Graph) error {
+func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node *domain.RelationTree, graph *gographviz.Graph, visited map[*domain.RelationTree]struct{}) error {
 	id := s.nodeId(node.Node)
 	label := s.nodeLabel(node.Node)
 
@@ -43,8 +44,14 @@ func (s *RelationTreeDOTSerializer) handleNode(parent *domain.RelationTree, node
 		}
 	}
 
+	// nodes may have multiple parents or be part of a cycle
+	if _, ok := visited[node]; ok {
+		return nil
+	}
+	visited[node] = struct{}{}
+
 	for _, child := range node.Children {
-		err := s.handleNode(node, child, graph)
+		err := s.handleNode(node, child, graph, visited)
 		if err != nil {
 			return err
 		}
diff --git a/internal/relation_graph/walker.go b/internal/relation_graph/walker.go
index 4362410..956e606 100644
--- a/internal/relation_graph/walker.go
+++ b/internal/relation_graph/walker.go
@@ -46,12 +46,40 @@ func (w *walker) Walk(ctx context.Context, policy *domain.Policy) (*domain.Relat
 		rootChildren = append(rootChildren, trees[orphan])
 	}
 
+	// Cycles which aren't reachable from an orphan have no natural starting point,
+	// hence any of its nodes is used as one
+	reached := make(map[*domain.RelationTree]struct{})
+	for _, tree := range rootChildren {
+		w.markReached(tree, reached)
+	}
+	for _, edge := range edges {
+		tree := trees[edge.First().Id()]
+		if _, ok := reached[tree]; !ok {
+			rootChildren = append(rootChildren, tree)
+			w.markReached(tree, reached)
+		}
+	}
+
 	return &domain.RelationTree{
 		Node:     nil,
 		Children: rootChildren,
 	}, nil
 }
 
+// markReached adds every tree which can be reached from tree to reached
+func (w *walker) markReached(tree *domain.RelationTree, reached map[*domain.RelationTree]struct{}) {
+	pending := []*domain.RelationTree{tree}
+	for len(pending) > 0 {
+		tree := pending[len(pending)-1]
+		pending = pending[:len(pending)-1]
+		if _, ok := reached[tree]; ok {
+			continue
+		}
+		reached[tree] = struct{}{}
+		pending = append(pending, tree.Children...)
+	}
+}
+
 func (w *walker) getTree(node *domain.RelationNode, trees map[string]*domain.RelationTree) *domain.RelationTree {
 	tree, ok := trees[node.Id()]
 	if !ok {
-- 
2.43.0


From 90f19687f86b9f0007870fc9ecd45baa240e8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:25 +0000
Subject: [PATCH 14/22] fix: escape DOT strings and report DOT serialization
 errors

---
 .../relation_graph/goal_tree_serializer.go    | 19 +++++++++++++------
 .../relation_tree_serializer.go               |  2 +-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/internal/relation_graph/goal_tree_serializer.go b/internal/relation_graph/goal_tree_serializer.go
index 6b2753c..f65bf93 100644
--- a/internal/relation_graph/goal_tree_serializer.go
+++ b/internal/relation_graph/goal_tree_serializer.go
@@ -3,6 +3,7 @@ package relation_graph
 import (
 	"encoding/json"
 	"fmt"
+	"strings"
 
 	"github.com/awalterschulze/gographviz"
 	"github.com/davecgh/go-spew/spew"
@@ -51,13 +52,13 @@ func (s *dotSerializer) Serialize(goalTree GoalTree) (string, error) {
 func (s *dotSerializer) handleGoalTree(parentId string, tree GoalTree, graph *gographviz.Graph) error {
 	switch node := tree.(type) {
 	case *PathNode:
-		s.handlePathNode(parentId, node, graph)
+		return s.handlePathNode(parentId, node, graph)
 	case *ORNode:
-		s.handleORNode(parentId, node, graph)
+		return s.handleORNode(parentId, node, graph)
 	case *ANDNode:
-		s.handleANDNode(parentId, node, graph)
+		return s.handleANDNode(parentId, node, graph)
 	case *DifferenceNode:
-		s.handleDifferenceNode(parentId, node, graph)
+		return s.handleDifferenceNode(parentId, node, graph)
 	case nil:
 		break
 	default:
@@ -180,8 +181,14 @@ func (s *dotSerializer) nextId() string {
 
 // sprintf formats a string and wraps it with quotes
 func (s *dotSerializer) sprintf(format string, args ...any) string {
-	format = "\"" + format + "\""
-	return fmt.Sprintf(format, args...)
+	return dotQuote(fmt.Sprintf(format, args...))
+}
+
+// dotQuote wraps a string with quotes,
+// escaping the characters which have a special meaning within a quoted DOT string
+func dotQuote(str string) string {
+	replacer := strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n", "\r", "\\r")
+	return "\"" + replacer.Replace(str) + "\""
 }
 
 func SerializerFactory(model api.ExplainFormat) (GoalTreeSerializer, error) {
diff --git a/internal/relation_graph/relation_tree_serializer.go b/internal/relation_graph/relation_tree_serializer.go
index 9fe257e..8679f3b 100644
--- a/internal/relation_graph/relation_tree_serializer.go
+++ b/internal/relation_graph/relation_tree_serializer.go
@@ -75,5 +75,5 @@ func (s *RelationTreeDOTSerializer) nodeLabel(node *domain.RelationNode) string
 }
 
 func (s *RelationTreeDOTSerializer) wrap(str string) string {
-	return "\"" + str + "\""
+	return dotQuote(str)
 }
-- 
2.43.0


From bf97ee0220b9bacecf5defe94f48ea2cd88866be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:28 +0000
Subject: [PATCH 15/22] fix: ExplainCheck and Expand produce JSON, and
 ExplainCheck names its format

---
 internal/relation_graph/service.go | 1 +
 internal/relation_graph/types.go   | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/relation_graph/service.go b/internal/relation_graph/service.go
index 20db526..fc1e75d 100644
--- a/internal/relation_graph/service.go
+++ b/internal/relation_graph/service.go
@@ -132,6 +132,7 @@ func (s *Service) ExplainCheck(
 
 	return &api.ExplainCheckResponse{
 		GoalTree:   serialized,
+		Format:     req.Format,
 		Authorized: found,
 	}, nil
 }
diff --git a/internal/relation_graph/types.go b/internal/relation_graph/types.go
index 4c2cea0..11bb01b 100644
--- a/internal/relation_graph/types.go
+++ b/internal/relation_graph/types.go
@@ -25,7 +25,7 @@ type GoalTree interface {
 // The ORNode is satisfied if the Goal is found in *any*
 // Paths
 type ORNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -37,7 +37,7 @@ func (n *ORNode) SetParent(p GoalTree)    { n.Parent = p }
 // The ANDNode is satisfied if the Goal is found in *all*
 // Paths
 type ANDNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Paths  []GoalTree
 }
@@ -49,7 +49,7 @@ func (n *ANDNode) SetParent(p GoalTree)    { n.Parent = p }
 // A DifferenceNode is satisfied if the Goal is found
 // on the Left GoalTree but not on the Right.
 type DifferenceNode struct {
-	Parent GoalTree
+	Parent GoalTree `json:"-"`
 	Result SearchResult
 	Left   GoalTree
 	Right  GoalTree
@@ -92,7 +92,7 @@ func (r SearchResult) MarshalJSON() ([]byte, error) {
 
 // PathNode represents a possible search path in the GoalTree
 type PathNode struct {
-	Parent       GoalTree
+	Parent       GoalTree `json:"-"`
 	Result       SearchResult
 	RelationNode *domain.RelationNode
 	Path         GoalTree
-- 
2.43.0


From a35131dfb70fdbc03b7a5806ba2a9ccfd9d8a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:49 +0000
Subject: [PATCH 16/22] fix: listing policy ids is bounded to policies and
 releases its iterator

---
 internal/store/kv_store/iterate.go           | 41 ++++++++++++++++++++
 internal/store/kv_store/policy_repository.go | 22 ++++++-----
 2 files changed, 54 insertions(+), 9 deletions(-)
 create mode 100644 internal/store/kv_store/iterate.go

diff --git a/internal/store/kv_store/iterate.go b/internal/store/kv_store/iterate.go
new file mode 100644
index 0000000..c0066e8
--- /dev/null
+++ b/internal/store/kv_store/iterate.go
@@ -0,0 +1,41 @@
+package kv_store
+
+import (
+	"errors"
+
+	rcdb "github.com/sourcenetwork/raccoondb"
+)
+
+var errIterator = errors.New("kv store: could not build iterator")
+
+// iteratePrefix calls visit with every key (stripped of prefix) and value whose key starts with prefix.
+func iteratePrefix(kv rcdb.KVStore, prefix []byte, visit func(key, value []byte) error) error {
+	iter := kv.Iterator(prefix, prefixEnd(prefix))
+	if iter == nil {
+		return errIterator
+	}
+	defer iter.Close()
+
+	for ; iter.Valid(); iter.Next() {
+		key, value := iter.Key(), iter.Value()
+		if err := iter.Error(); err != nil {
+			return err
+		}
+		if err := visit(key[len(prefix):], value); err != nil {
+			return err
+		}
+	}
+	return iter.Error()
+}
+
+// prefixEnd returns the lowest key which is greater than every key which starts with prefix
+func prefixEnd(prefix []byte) []byte {
+	end := append([]byte(nil), prefix...)
+	for i := len(end) - 1; i >= 0; i-- {
+		if end[i] < 0xFF {
+			end[i]++
+			return end[:i+1]
+		}
+	}
+	return nil
+}
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index bff9aa1..13c9568 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -78,15 +78,19 @@ func (r *policyRepository) DeletePolicy(ctx context.Context, id string) (types.R
 }
 
 func (r *policyRepository) ListPolicyIds(context.Context) ([]string, error) {
-    store := r.kvStore.getPolicyStore()
-    ids, err := store.ListIds()
-    if err != nil {
-        return nil, fmt.Errorf("list policy ids: %w", err)
-    }
-
-    return utils.MapSlice(ids, func(id []byte) string {
-        return string(id)
-    }), nil
+	var ids []string
+
+	// raccoondb joins the prefix and the id with its separator
+	prefix := rcdb.Key{}.Append(policyStorePrefix, nil).ToBytes()
+	err := iteratePrefix(r.kvStore.baseKV, prefix, func(id, _ []byte) error {
+		ids = append(ids, string(id))
+		return nil
+	})
+	if err != nil {
+		return nil, fmt.Errorf("list policy ids: %w", err)
+	}
+
+	return ids, nil
 }
 
 func (r *policyRepository) SetRelationship(ctx context.Context, record *domain.RelationshipRecord) (bool, error) {
-- 
2.43.0


From e327811ab8f2d35b9eeb161cdb9674383c5a1ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:28 +0000
Subject: [PATCH 17/22] fix: errors of the kv store are no longer swallowed

---
 internal/store/kv_store/kv_store.go           |  12 +-
 internal/store/kv_store/relationship_store.go | 126 ++++++++++++++++++
 2 files changed, 133 insertions(+), 5 deletions(-)
 create mode 100644 internal/store/kv_store/relationship_store.go

diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index f22dae4..1af25e7 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -30,7 +30,6 @@ func NewKVStore(store rcdb.KVStore) (KVStore, error) {
 	return KVStore{
 		baseKV:                   store,
 		policyStore:              policyStore,
-		relationshipPrefixKV:     rcdb.NewWrapperKV(store, relationshipStorePrefix),
 		relationshipDataPrefixKV: rcdb.NewWrapperKV(store, relationshipDataStorePrefix),
 	}, nil
 }
@@ -38,7 +37,6 @@ func NewKVStore(store rcdb.KVStore) (KVStore, error) {
 type KVStore struct {
 	baseKV                   rcdb.KVStore
 	policyStore              rcdb.ObjectStore[*domain.PolicyRecord]
-	relationshipPrefixKV     rcdb.KVStore
 	relationshipDataPrefixKV rcdb.KVStore
 }
 
@@ -46,16 +44,20 @@ func (kv *KVStore) getPolicyStore() *rcdb.ObjectStore[*domain.PolicyRecord] {
 	return &kv.policyStore
 }
 
-func (kv *KVStore) getRelationshipStore(policyId string) rcdb.RaccoonStore[*Relationship, *RelationNode] {
+func (kv *KVStore) getRelationshipStore(policyId string) relationshipStore {
 	factory := func() *Relationship { return &Relationship{} }
 	marshaler := rcdb.ProtoMarshaler[*Relationship](factory)
-	store := rcdb.NewWrapperKV(kv.relationshipPrefixKV, policyKeyspace(policyId))
+	latch := &latchKV{kv: kv.baseKV}
+	store := rcdb.NewWrapperKV(rcdb.NewWrapperKV(latch, relationshipStorePrefix), policyKeyspace(policyId))
 	schema := rcdb.RaccoonSchema[*Relationship, *RelationNode]{
 		Store:     store,
 		Keyer:     &relationNodeKeyer{},
 		Marshaler: marshaler,
 	}
-	return rcdb.NewRaccoonStore(schema)
+	return relationshipStore{
+		store: rcdb.NewRaccoonStore(schema),
+		kv:    latch,
+	}
 }
 
 func (kv *KVStore) getRelationshipDataStore(policyId string) *rcdb.ObjectStore[*RelationshipData] {
diff --git a/internal/store/kv_store/relationship_store.go b/internal/store/kv_store/relationship_store.go
new file mode 100644
index 0000000..1d8587b
--- /dev/null
+++ b/internal/store/kv_store/relationship_store.go
@@ -0,0 +1,126 @@
+package kv_store
+
+import (
+	rcdb "github.com/sourcenetwork/raccoondb"
+)
+
+// relationshipStore wraps a RaccoonStore whose methods do not return
+// every error reported by the underlying kv store.
+// A relationshipStore must be used for the duration of a single operation.
+type relationshipStore struct {
+	store rcdb.RaccoonStore[*Relationship, *RelationNode]
+	kv    *latchKV
+}
+
+func (s *relationshipStore) Set(relationship *Relationship) error {
+	err := s.store.Set(relationship)
+	return s.kv.firstError(err)
+}
+
+func (s *relationshipStore) Get(source, dest *RelationNode) (rcdb.Option[*Relationship], error) {
+	opt, err := s.store.Get(source, dest)
+	return opt, s.kv.firstError(err)
+}
+
+func (s *relationshipStore) Delete(relationship *Relationship) error {
+	err := s.store.Delete(relationship)
+	return s.kv.firstError(err)
+}
+
+func (s *relationshipStore) GetSucessors(node *RelationNode) ([]*Relationship, error) {
+	relationships, err := s.store.GetSucessors(node)
+	return relationships, s.kv.firstError(err)
+}
+
+func (s *relationshipStore) List() ([]*Relationship, error) {
+	relationships, err := s.store.List()
+	return relationships, s.kv.firstError(err)
+}
+
+var _ rcdb.KVStore = (*latchKV)(nil)
+
+// latchKV wraps a KVStore and holds on to the first error it reports.
+// Every call made after an error fails with that same error.
+type latchKV struct {
+	kv  rcdb.KVStore
+	err error
+}
+
+// firstError returns the first error reported by the store, if there's none returns err
+func (l *latchKV) firstError(err error) error {
+	if l.err != nil {
+		return l.err
+	}
+	return err
+}
+
+func (l *latchKV) latch(err error) error {
+	if l.err == nil {
+		l.err = err
+	}
+	return l.err
+}
+
+func (l *latchKV) Get(key []byte) ([]byte, error) {
+	if l.err != nil {
+		return nil, l.err
+	}
+	value, err := l.kv.Get(key)
+	return value, l.latch(err)
+}
+
+func (l *latchKV) Has(key []byte) (bool, error) {
+	if l.err != nil {
+		return false, l.err
+	}
+	has, err := l.kv.Has(key)
+	return has, l.latch(err)
+}
+
+func (l *latchKV) Set(key, value []byte) error {
+	if l.err != nil {
+		return l.err
+	}
+	return l.latch(l.kv.Set(key, value))
+}
+
+func (l *latchKV) Delete(key []byte) error {
+	if l.err != nil {
+		return l.err
+	}
+	return l.latch(l.kv.Delete(key))
+}
+
+func (l *latchKV) Iterator(start, end []byte) rcdb.Iterator {
+	if l.err != nil {
+		return &failedIterator{err: l.err}
+	}
+	iter := l.kv.Iterator(start, end)
+	if iter == nil {
+		return &failedIterator{err: l.latch(errIterator)}
+	}
+	return &latchIterator{Iterator: iter, latch: l}
+}
+
+// latchIterator reports the iterator's errors to its store
+type latchIterator struct {
+	rcdb.Iterator
+	latch *latchKV
+}
+
+func (i *latchIterator) Close() error {
+	i.latch.latch(i.Iterator.Error())
+	return i.latch.latch(i.Iterator.Close())
+}
+
+// failedIterator is an empty iterator
+type failedIterator struct {
+	err error
+}
+
+func (i *failedIterator) Valid() bool   { return false }
+func (i *failedIterator) Next()         {}
+func (i *failedIterator) Key() []byte   { return nil }
+func (i *failedIterator) Value() []byte { return nil }
+func (i *failedIterator) Error() error  { return i.err }
+func (i *failedIterator) Close() error  { return nil }
-- 
2.43.0


From 31aeb7e8e8a7053f3244bcd05059703bc577680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:08 +0000
Subject: [PATCH 18/22] fix: interrupted deletions can be completed by
 repeating them

---
 internal/policy/service.go                    | 10 +++++--
 internal/store/kv_store/kv_store.go           |  7 +++--
 internal/store/kv_store/policy_repository.go  |  9 ++++--
 internal/store/kv_store/relationship_store.go | 30 +++++++++++++++++--
 4 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/internal/policy/service.go b/internal/policy/service.go
index b067b86..81f1b09 100644
--- a/internal/policy/service.go
+++ b/internal/policy/service.go
@@ -104,11 +104,11 @@ func (s *Service) DeletePolicy(
 	repo := s.getPolicyRepository()
 
 	// TODO wrap in Tx
-	found, err := repo.DeletePolicy(ctx, req.Id)
+	record, err := repo.GetPolicy(ctx, req.Id)
 	if err != nil {
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
-	if !found {
+	if record == nil {
 		return &api.DeletePolicyResponse{
 			Found:                false,
 			RelationshipsRemoved: 0,
@@ -121,6 +121,12 @@ func (s *Service) DeletePolicy(
 		return nil, fmt.Errorf("failed to delete policy: %w", err)
 	}
 
+	// The policy is removed last such that an interrupted deletion can be resumed
+	_, err = repo.DeletePolicy(ctx, req.Id)
+	if err != nil {
+		return nil, fmt.Errorf("failed to delete policy: %w", err)
+	}
+
 	return &api.DeletePolicyResponse{
 		Found:                true,
 		RelationshipsRemoved: count,
diff --git a/internal/store/kv_store/kv_store.go b/internal/store/kv_store/kv_store.go
index 1af25e7..e488ea9 100644
--- a/internal/store/kv_store/kv_store.go
+++ b/internal/store/kv_store/kv_store.go
@@ -54,9 +54,12 @@ func (kv *KVStore) getRelationshipStore(policyId string) relationshipStore {
 		Keyer:     &relationNodeKeyer{},
 		Marshaler: marshaler,
 	}
+	prefix := rcdb.Key{}.Append(policyKeyspace(policyId), nil).ToBytes()
 	return relationshipStore{
-		store: rcdb.NewRaccoonStore(schema),
-		kv:    latch,
+		store:  rcdb.NewRaccoonStore(schema),
+		kv:     latch,
+		prefix: rcdb.Key{}.Append(relationshipStorePrefix, prefix).ToBytes(),
+		ider:   rcdb.IderFromNodeKeyer[*Relationship, *RelationNode](&relationNodeKeyer{}),
 	}
 }
 
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index 13c9568..87381e2 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -138,12 +138,14 @@ func (r *policyRepository) DeleteRelationship(ctx context.Context, policyId stri
 		return false, err
 	}
 
-	err = relationshipStore.Delete(&relationship)
+	// The relationship is removed last such that it can still be found
+	// if the deletion is interrupted
+	err = relationshipDataStore.DeleteById(id)
 	if err != nil {
 		return false, err
 	}
 
-	err = relationshipDataStore.DeleteById(id)
+	err = relationshipStore.Delete(&relationship)
 	if err != nil {
 		return false, err
 	}
@@ -201,6 +203,9 @@ func (r *policyRepository) FindRelationshipRecords(ctx context.Context, policyId
 		return nil, err
 	}
 
+	// relationships whose write or deletion was interrupted have no record
+	records = utils.Filter(records, func(record *domain.RelationshipRecord) bool { return record != nil })
+
 	return records, nil
 }
 
diff --git a/internal/store/kv_store/relationship_store.go b/internal/store/kv_store/relationship_store.go
index 1d8587b..9ada50d 100644
--- a/internal/store/kv_store/relationship_store.go
+++ b/internal/store/kv_store/relationship_store.go
@@ -2,6 +2,7 @@ package kv_store
 
 import (
 	rcdb "github.com/sourcenetwork/raccoondb"
+	"google.golang.org/protobuf/proto"
 )
 
 // relationshipStore wraps a RaccoonStore whose methods do not return
@@ -10,6 +11,10 @@ import (
 type relationshipStore struct {
 	store rcdb.RaccoonStore[*Relationship, *RelationNode]
 	kv    *latchKV
+
+	// prefix of every key in the store
+	prefix []byte
+	ider   rcdb.Ider[*Relationship]
 }
 
 func (s *relationshipStore) Set(relationship *Relationship) error {
@@ -32,9 +37,30 @@ func (s *relationshipStore) GetSucessors(node *RelationNode) ([]*Relationship, e
 	return relationships, s.kv.firstError(err)
 }
 
+// List returns every stored relationship, including those which were only partially written
+// or deleted because an operation was interrupted.
 func (s *relationshipStore) List() ([]*Relationship, error) {
-	relationships, err := s.store.List()
-	return relationships, s.kv.firstError(err)
+	var relationships []*Relationship
+	seen := make(map[string]struct{})
+
+	// a relationship is stored under two keys
+	err := iteratePrefix(s.kv, s.prefix, func(_, value []byte) error {
+		relationship := &Relationship{}
+		if err := proto.Unmarshal(value, relationship); err != nil {
+			return err
+		}
+
+		id := string(s.ider.Id(relationship))
+		if _, ok := seen[id]; !ok {
+			seen[id] = struct{}{}
+			relationships = append(relationships, relationship)
+		}
+		return nil
+	})
+	if err := s.kv.firstError(err); err != nil {
+		return nil, err
+	}
+	return relationships, nil
 }
 
 var _ rcdb.KVStore = (*latchKV)(nil)
-- 
2.43.0


From e5634d69f8fd5a308bc66770e4ea76aa775b6f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:53 +0000
Subject: [PATCH 19/22] fix: concurrent operations of an instance are
 linearizable

---
 sync.go  | 109 +++++++++++++++++++++++++++++++++++++++++++++++++++++++
 zanzi.go |  20 +++++++---
 2 files changed, 123 insertions(+), 6 deletions(-)
 create mode 100644 sync.go

diff --git a/sync.go b/sync.go
new file mode 100644
index 0000000..aa25e34
--- /dev/null
+++ b/sync.go
@@ -0,0 +1,109 @@
+package zanzi
+
+import (
+	"context"
+	"sync"
+
+	"github.com/sourcenetwork/zanzi/pkg/api"
+)
+
+var _ api.PolicyServiceServer = (*syncPolicyService)(nil)
+var _ api.RelationGraphServer = (*syncRelationGraph)(nil)
+
+// syncPolicyService serializes the operations which mutate the store.
+// An operation performs multiple reads and writes, which must not be interleaved
+// with those of a concurrent mutation.
+type syncPolicyService struct {
+	api.PolicyServiceServer
+	mu *sync.RWMutex
+}
+
+func (s *syncPolicyService) CreatePolicy(ctx context.Context, req *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.PolicyServiceServer.CreatePolicy(ctx, req)
+}
+
+func (s *syncPolicyService) UpdatePolicy(ctx context.Context, req *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.PolicyServiceServer.UpdatePolicy(ctx, req)
+}
+
+func (s *syncPolicyService) DeletePolicy(ctx context.Context, req *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.PolicyServiceServer.DeletePolicy(ctx, req)
+}
+
+func (s *syncPolicyService) GetPolicy(ctx context.Context, req *api.GetPolicyRequest) (*api.GetPolicyResponse, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	return s.PolicyServiceServer.GetPolicy(ctx, req)
+}
+
+func (s *syncPolicyService) ListPolicyIds(ctx context.Context, req *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	return s.PolicyServiceServer.ListPolicyIds(ctx, req)
+}
+
+func (s *syncPolicyService) SetRelationship(ctx context.Context, req *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.PolicyServiceServer.SetRelationship(ctx, req)
+}
+
+func (s *syncPolicyService) DeleteRelationship(ctx context.Context, req *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.PolicyServiceServer.DeleteRelationship(ctx, req)
+}
+
+func (s *syncPolicyService) GetRelationship(ctx context.Context, req *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	return s.PolicyServiceServer.GetRelationship(ctx, req)
+}
+
+func (s *syncPolicyService) FindRelationshipRecords(ctx context.Context, req *api.FindRelationshipRecordsRequest) (*api.FindRelationshipRecordsResponse, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	return s.PolicyServiceServer.FindRelationshipRecords(ctx, req)
+}
+
+func (s *syncPolicyService) DeleteRelationships(ctx context.Context, req *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.PolicyServiceServer.DeleteRelationships(ctx, req)
+}
+
+// syncRelationGraph keeps the store from being mutated while the relation graph is traversed.
+type syncRelationGraph struct {
+	api.RelationGraphServer
+	mu *sync.RWMutex
+}
+
+func (s *syncRelationGraph) Check(ctx context.Context, req *api.CheckRequest) (*api.CheckResponse, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	return s.RelationGraphServer.Check(ctx, req)
+}
+
+func (s *syncRelationGraph) ExplainCheck(ctx context.Context, req *api.ExplainCheckRequest) (*api.ExplainCheckResponse, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	return s.RelationGraphServer.ExplainCheck(ctx, req)
+}
+
+func (s *syncRelationGraph) Expand(ctx context.Context, req *api.ExpandRequest) (*api.ExpandResponse, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	return s.RelationGraphServer.Expand(ctx, req)
+}
+
+func (s *syncRelationGraph) DumpRelationships(ctx context.Context, req *api.DumpRelationshipsRequest) (*api.DumpRelationshipResponse, error) {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	return s.RelationGraphServer.DumpRelationships(ctx, req)
+}
diff --git a/zanzi.go b/zanzi.go
index 6c0d773..9338eb7 100644
--- a/zanzi.go
+++ b/zanzi.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os/user"
 	"strings"
+	"sync"
 
 	rcdb "github.com/sourcenetwork/raccoondb"
 	"go.uber.org/zap"
@@ -153,12 +154,19 @@ type Zanzi struct {
 }
 
 func (z *Zanzi) init() {
-	z.polService = policy.NewService(z.store.GetPolicyRepository())
-	z.relGraphService = relation_graph.NewService(
-		z.store.GetRelationNodeRepository(),
-		z.store.GetPolicyRepository(),
-		z.logger,
-	)
+	mu := &sync.RWMutex{}
+	z.polService = &syncPolicyService{
+		PolicyServiceServer: policy.NewService(z.store.GetPolicyRepository()),
+		mu:                  mu,
+	}
+	z.relGraphService = &syncRelationGraph{
+		RelationGraphServer: relation_graph.NewService(
+			z.store.GetRelationNodeRepository(),
+			z.store.GetPolicyRepository(),
+			z.logger,
+		),
+		mu: mu,
+	}
 }
 
 // GetRelationshipGraphService returns an implementation of the
-- 
2.43.0


From f93494ba912ab8b089d724829d2e81ea2dc703f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:57 +0000
Subject: [PATCH 20/22] fix: identifiers may start with the reserved word for
 direct relationships

---
 internal/relation_expression_parser/lexer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/relation_expression_parser/lexer.go b/internal/relation_expression_parser/lexer.go
index 011258e..d4b4ecf 100644
--- a/internal/relation_expression_parser/lexer.go
+++ b/internal/relation_expression_parser/lexer.go
@@ -161,7 +161,12 @@ func (l *Lexer) lexIdentifier() bool {
 	count := l.stepWhile(isIdentifierRune)
 	ok := count > 0
 	if ok {
-		l.emit(tokenIdentifier)
+		// only a whole word is reserved, an identifier may start with it
+		if l.input[l.startPos:l.currPos] == domain.ThisLexeme {
+			l.emit(tokenThis)
+		} else {
+			l.emit(tokenIdentifier)
+		}
 	}
 
 	return ok
@@ -177,7 +182,6 @@ func (l *Lexer) scan() {
 		} else if l.lexTerminal(tokenUnion, domain.UnionLexeme) {
 		} else if l.lexTerminal(tokenDifference, domain.DifferenceLexeme) {
 		} else if l.lexTerminal(tokenIntersection, domain.IntersectionLexeme) {
-		} else if l.lexTerminal(tokenThis, domain.ThisLexeme) {
 		} else if l.lexIdentifier() {
 		} else if char, _ := l.peek(); unicode.IsSpace(char) {
 			l.skipSpaces()
-- 
2.43.0


From 7a27d29e204e1610c8b2e73315ddbea7163246fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:26 +0000
Subject: [PATCH 21/22] fix: selectors are rebuilt from their field values
 before they are matched

Restores selector_spec.go and makes the repository provide it with plain values.
---
 internal/policy/selector_spec.go             | 13 +++++-----
 internal/store/kv_store/mapper.go            | 25 ++++++++++++++++++++
 internal/store/kv_store/policy_repository.go |  2 +-
 3 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/internal/policy/selector_spec.go b/internal/policy/selector_spec.go
index 3bad792..a9b4378 100644
--- a/internal/policy/selector_spec.go
+++ b/internal/policy/selector_spec.go
@@ -2,8 +2,7 @@ package policy
 
 import (
 	"fmt"
-
-	"google.golang.org/protobuf/proto"
+	"reflect"
 
 	"github.com/sourcenetwork/zanzi/pkg/domain"
 )
@@ -20,7 +19,7 @@ type RelationshipSelectorSpec struct {
 func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelectorSpec, error) {
 	spec := RelationshipSelectorSpec{}
 
-	switch objectSelector := selector.GetObjectSelector().GetSelector().(type) {
+	switch objectSelector := selector.ObjectSelector.Selector.(type) {
 	case *domain.ObjectSelector_ObjectSpec:
 		spec.objectPredicate = spec.objectSpec(objectSelector.ObjectSpec)
 	case *domain.ObjectSelector_Wildcard:
@@ -31,7 +30,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("ObjectSelector %v: %w", objectSelector, domain.ErrInvalidVariant)
 	}
 
-	switch relationSelector := selector.GetRelationSelector().GetSelector().(type) {
+	switch relationSelector := selector.RelationSelector.Selector.(type) {
 	case *domain.RelationSelector_RelationName:
 		spec.relationPredicate = spec.relationNameSpec(relationSelector.RelationName)
 	case *domain.RelationSelector_Wildcard:
@@ -40,7 +39,7 @@ func NewSelectorSpec(selector *domain.RelationshipSelector) (RelationshipSelecto
 		return spec, fmt.Errorf("RelationSelector %v: %w", relationSelector, domain.ErrInvalidVariant)
 	}
 
-	switch subjectSelector := selector.GetSubjectSelector().GetSelector().(type) {
+	switch subjectSelector := selector.SubjectSelector.Selector.(type) {
 	case *domain.SubjectSelector_SubjectSpec:
 		spec.subjectPredicate = spec.subjectSpec(subjectSelector.SubjectSpec)
 	case *domain.SubjectSelector_Wildcard:
@@ -60,7 +59,7 @@ func (s *RelationshipSelectorSpec) Satisfies(relationship *domain.Relationship)
 
 func (s *RelationshipSelectorSpec) objectSpec(entity *domain.Entity) predicate {
 	return func(r *domain.Relationship) bool {
-		return proto.Equal(entity, r.Object)
+		return reflect.DeepEqual(entity, r.Object)
 	}
 }
 
@@ -90,7 +89,7 @@ func (s *RelationshipSelectorSpec) relationWildcardSpec() predicate {
 
 func (s *RelationshipSelectorSpec) subjectSpec(subject *domain.Subject) predicate {
 	return func(r *domain.Relationship) bool {
-		return proto.Equal(r.Subject, subject)
+		return reflect.DeepEqual(r.Subject, subject)
 	}
 }
 
diff --git a/internal/store/kv_store/mapper.go b/internal/store/kv_store/mapper.go
index 2df60ad..b303e65 100644
--- a/internal/store/kv_store/mapper.go
+++ b/internal/store/kv_store/mapper.go
@@ -82,6 +82,31 @@ func (m *relationshipMapper) FromInternal(relationship *Relationship) domain.Rel
 	}
 }
 
+// PlainSelector rebuilds a selector from its field values.
+// Selectors are matched against mapped relationships as Go values, and the messages a caller
+// provides may carry state which is not part of their value or be incomplete.
+func (m *relationshipMapper) PlainSelector(selector *domain.RelationshipSelector) *domain.RelationshipSelector {
+	plain := &domain.RelationshipSelector{
+		ObjectSelector:   &domain.ObjectSelector{Selector: selector.GetObjectSelector().GetSelector()},
+		RelationSelector: &domain.RelationSelector{Selector: selector.GetRelationSelector().GetSelector()},
+		SubjectSelector:  &domain.SubjectSelector{Selector: selector.GetSubjectSelector().GetSelector()},
+	}
+
+	spec := m.ToInternal(&domain.Relationship{
+		Object:  selector.GetObjectSelector().GetObjectSpec(),
+		Subject: selector.GetSubjectSelector().GetSubjectSpec(),
+	})
+	relationship := m.FromInternal(&spec)
+
+	if _, ok := plain.ObjectSelector.Selector.(*domain.ObjectSelector_ObjectSpec); ok {
+		plain.ObjectSelector.Selector = &domain.ObjectSelector_ObjectSpec{ObjectSpec: relationship.Object}
+	}
+	if _, ok := plain.SubjectSelector.Selector.(*domain.SubjectSelector_SubjectSpec); ok {
+		plain.SubjectSelector.Selector = &domain.SubjectSelector_SubjectSpec{SubjectSpec: relationship.Subject}
+	}
+	return plain
+}
+
 func (m *relationshipMapper) FromPublicRelationNode(node *domain.RelationNode) RelationNode {
 	var resource, id, relation string
 	var relType RelationType
diff --git a/internal/store/kv_store/policy_repository.go b/internal/store/kv_store/policy_repository.go
index 87381e2..5ad378d 100644
--- a/internal/store/kv_store/policy_repository.go
+++ b/internal/store/kv_store/policy_repository.go
@@ -161,7 +161,7 @@ func (r *policyRepository) FindRelationships(ctx context.Context, policyId strin
 		return nil, err
 	}
 
-	spec, err := policy.NewSelectorSpec(selector)
+	spec, err := policy.NewSelectorSpec(r.mapper.PlainSelector(selector))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2a9d7e375b4666ed626482e498f9f07c155b7f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:38 +0000
Subject: [PATCH 22/22] fix: labels and ids of graphs are escaped in their DOT
 rendering

GraphToDOT wrote node labels as they are and left backslashes and line
breaks of ids alone, so graphs with such text rendered as malformed
documents.
---
 pkg/types/graph.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/types/graph.go b/pkg/types/graph.go
index faa60f3..cfc0d58 100644
--- a/pkg/types/graph.go
+++ b/pkg/types/graph.go
@@ -68,10 +68,12 @@ func GraphToDOT(graph *MapDiGraph) string {
 }
 
 func mapId(id string) string {
-	id = strings.ReplaceAll(id, "\"", "\\\"")
 	return wrap(id)
 }
 
+// dotEscaper escapes the characters which cannot appear as is in a quoted DOT string
+var dotEscaper = strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n", "\r", "\\r")
+
 func wrap(txt string) string {
-	return "\"" + txt + "\""
+	return "\"" + dotEscaper.Replace(txt) + "\""
 }
-- 
2.43.0

