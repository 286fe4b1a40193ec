#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=hook)))

RG='internal/relation_graph/'; KV='internal/store/kv_store/'; PO='internal/policy/'

prop('C01','Check decides exactly what the relation expressions define',
 'Check answers authorized exactly when the requested subject belongs to the set denoted by (object, relation): direct, set-valued and wildcard subjects, computed usersets and tuple-to-userset rules are followed, and +, & and - are set union, intersection and difference. The answer depends only on the current policy and relationships, not on how often a subject or node is reachable, on the order in which things were declared or written, or on how deep or wide the graph is. Where the policy or stored relationships leave a needed relation undefined, Check may fail, but a returned answer is never wrong.',
 ['inputs','configurations'],
 'All policies whose expressions are built from _this, computed-userset and tuple-to-userset rules with +,&,- up to the bound, all relationship sets over the bounded tuple universe, all (object, relation, subject) queries; plus every chain depth and fan-out up to the bound.',
 'One test checks one tuple against one union expression; no test has an intersection, difference, wildcard, entity set or shared node. The claim is over all expression/relationship-set pairs.',
 [RG+'searcher.go',RG+'goal_tree.go',RG+'rule_evaluator.go',KV+'node_repository.go','pkg/domain/relation_graph.go'],
 [('recursive goal-tree search', RG+'searcher.go:Searcher.search*'),('rule evaluation',RG+'rule_evaluator.go'),('successor lookup',KV+'node_repository.go:GetSucessors')],
 [('seenNodes','nodes already met by the search',RG+'searcher.go')],
 ['RelationGraph.Check response'])

prop('C02','Cyclic and recursive definitions terminate with the least-fixpoint answer',
 'For any relationships and policies, including group cycles, mutually recursive relations and cyclic parent chains, Check, ExplainCheck, Expand and DumpRelationships return in finite time without exhausting the stack. When no relation depends on itself through the right-hand side of a difference, Check on such cyclic data answers by the least fixpoint: a subject is a member exactly if some finite derivation shows it.',
 ['inputs','configurations'],
 'All relationship sets over a universe whose set-valued and parent edges can close cycles of length 1 to 3, under all recursive expression pairs in the bound.',
 'No test contains a cycle; the claim covers all of them.',
 [RG+'searcher.go',RG+'walker.go',RG+'relation_tree_serializer.go',RG+'goal_tree_serializer.go'],
 [('visited-node bookkeeping',RG+'searcher.go:searchPath'),('dump traversal',RG+'relation_tree_serializer.go:handleNode')],
 None,['Check/ExplainCheck/Expand/DumpRelationships responses'])

prop('C03','ExplainCheck gives the verdict of Check in every format',
 'For every access request and every explain format (SPEW, JSON, DOT), ExplainCheck succeeds exactly when Check succeeds, reports the same authorized verdict, echoes the requested format, and returns a serialized goal tree that is well formed for that format and whose result at the root is that verdict; every result the tree shows follows from the results below it. The explanation names the requested object and, when access is granted, the subject or wildcard that granted it.',
 ['inputs','configurations'],
 'All policies, relationship sets and queries in the bounded space, times the three formats; identifiers include characters that are special in DOT and JSON.',
 'ExplainCheck has no test at all.',
 [RG+'service.go',RG+'goal_tree_serializer.go',RG+'types.go'],
 [('shared search',RG+'service.go:ExplainCheck'),('serializers',RG+'goal_tree_serializer.go')],
 None,['ExplainCheckResponse.authorized, .goal_tree, .format'])

prop('C04','Expand shows exactly the nodes reachable from its root',
 'Expand on (object, relation) succeeds in every format whenever all relations it meets are defined, and the returned tree mentions every entity, entity set and wildcard that the rewrite rules and stored relationships make reachable from the root, and no node that is unreachable. Unknown policies and undefined root relations are refused with an error.',
 ['inputs','configurations'],
 'All relationship sets and expressions in the bounded space, every root node, every format.',
 'Expand has no test.',
 [RG+'service.go',RG+'searcher.go',RG+'goal_tree_serializer.go'],
 [('goal-less search',RG+'searcher.go:GoalFoundSpec'),('serializers',RG+'goal_tree_serializer.go')],
 None,['ExpandResponse.goal_tree'])

prop('C05','DumpRelationships lists exactly the stored relationships',
 'The DOT graph returned by DumpRelationships is well formed and contains, apart from the artificial root node and its edges, one edge per relationship stored in that policy, from the object-relation node to the subject node, each node labelled with its entity and relation, and no edge for anything not stored in that policy. Rewrite rules are not applied, and cyclic, shared or disconnected relationships are all included.',
 ['inputs','histories'],
 'All relationship sets over a universe with entity, entity-set and wildcard subjects, cycles, and identifiers containing quotes, backslashes and separators.',
 'DumpRelationships has no test.',
 [RG+'walker.go',RG+'relation_tree_serializer.go',KV+'node_repository.go'],
 [('edge walk',RG+'walker.go:Walk'),('DOT writer',RG+'relation_tree_serializer.go')],
 None,['DumpRelationshipResponse.dot'])

prop('C06','The relationship store behaves as a map keyed by the exact relationship',
 'After any sequence of SetRelationship, DeleteRelationship and overwrites in a policy, GetRelationship returns a record exactly for the relationships set and not since deleted, with the relationship, policy id and app data of the last set; the overwritten and found flags tell whether the record existed. Two relationships that differ in any component, including the kind of subject, never affect one another, whatever characters their identifiers contain.',
 ['histories','inputs'],
 'All operation sequences up to the depth bound over colliding relationships, and all pairs of an adversarial universe of identifiers (shared prefixes and concatenations, separators, case variants, empty-relation look-alikes, unicode, NUL).',
 'Tests set and get a single relationship; deletion and overwriting are untested and no two relationships ever meet.',
 [KV+'policy_repository.go',KV+'model.go',KV+'mapper.go',PO+'service.go'],
 [('node keys',KV+'model.go:relationNodeKeyer'),('record mapping',KV+'mapper.go'),('edge + data stores',KV+'policy_repository.go')],
 [('relationship store','edges of a policy, indexed by source and by destination',KV+'kv_store.go'),('relationship data store','app data and creation time',KV+'kv_store.go')],
 ['SetRelationship/GetRelationship/DeleteRelationship responses'])

prop('C07','Policies are isolated from one another',
 'No request addressed to one policy changes or reveals anything of another: the policies, relationships, app data, selector results, dumps and access decisions of every other policy id are the same before and after it. This holds for every pair of distinct policy ids, whatever their characters, even when the policies share resource names and identical relationships.',
 ['histories','inputs'],
 'All operation sequences up to the bound interleaved over two or three policies holding identical relationships, and all ordered pairs of an adversarial set of policy ids.',
 'Only ListPolicyIds is tested with two policies, and no two policies hold relationships.',
 [KV+'kv_store.go',KV+'policy_repository.go',KV+'node_repository.go'],
 [('per-policy key prefixes',KV+'kv_store.go:getRelationshipStore'),('per-policy data store',KV+'kv_store.go:getRelationshipDataStore')],
 None,['every response for the other policy'])

prop('C08','Selectors select exactly the matching relationships',
 'FindRelationshipRecords returns one complete record for each stored relationship of the policy that satisfies all three selectors (object: exact, by resource, any; relation: exact, any; subject: exact, by resource, any) and nothing else. DeleteRelationships with the same selector removes exactly those relationships, reports their number, and leaves all others. Find refuses selectors whose object resource, relation or subject resource the policy does not define.',
 ['inputs','histories'],
 'All relationship sets over the universe times all combinations of object, relation and subject selectors, embedded or arriving over the wire.',
 'Tests only cover three error cases; no positive selection and no DeleteRelationships.',
 [PO+'selector_spec.go',PO+'spec.go',KV+'policy_repository.go','pkg/domain/selector.go','pkg/domain/relationship.go'],
 [('selector predicates',PO+'selector_spec.go'),('selector validation',PO+'spec.go:ValidSelectorSpec'),('filtering',KV+'policy_repository.go:FindRelationships')],
 None,['FindRelationshipRecords and DeleteRelationships responses'])

prop('C09','Only relationships the policy admits are ever stored',
 'SetRelationship succeeds exactly when the policy exists, object, relation and subject are complete, they name resources and relations the policy defines, and the relation\'s subject restriction admits the subject: a universal restriction admits all, an entity restriction admits entities and wildcards of its resource, an entity-set restriction admits only that resource-relation set. A refused request changes nothing.',
 ['inputs','configurations'],
 'All subject-restriction sets over the bounded policy times all relationships over defined and undefined names, the three subject kinds, and missing components.',
 'Five hand-picked cases; restriction kinds times subject kinds are not covered and wildcards are absent.',
 [PO+'spec.go',PO+'service.go'],
 [('admission spec',PO+'spec.go:AllowedRelationshipSpec'),('restriction spec',PO+'spec.go:SubjectRestrictionSpec')],
 None,['SetRelationship error or response, and the store afterwards'])

prop('C10','Only well-formed policies are accepted, and all of them are',
 'CreatePolicy and UpdatePolicy accept a policy exactly when it has an id, its resources have distinct non-empty names and their relations distinct non-empty names, each relation has a well-formed expression whose computed usersets and tupleset relations exist on the same resource, and each given subject restriction refers only to defined resources and relations. A rejected policy leaves the store as it was.',
 ['inputs','configurations'],
 'All policies in a bounded family obtained by applying every single and every pair of defects (duplicate, empty, dangling, malformed, missing) to every base policy, by both create and update, in structured and YAML form.',
 'The integration test lists invalid-policy scenarios as a TODO.',
 [PO+'spec.go',PO+'helpers.go',PO+'service.go','pkg/domain/relation_expression_tree.go'],
 [('policy spec',PO+'spec.go:ValidPolicySpec'),('expression check',PO+'spec.go:policyContainsRelationsInRule')],
 None,['CreatePolicy/UpdatePolicy error, GetPolicy and ListPolicyIds afterwards'])

prop('C11','Policy life cycle: create once, update in place, delete completely',
 'Over any sequence of requests: creating an existing id fails and changes nothing; updating replaces definition and app data but keeps creation time and relationships, and fails for an unknown id; deleting reports whether the policy existed and how many relationships it had, and removes all of them, so a policy created later under that id starts empty. GetPolicy returns the last accepted definition and app data, and ListPolicyIds returns every existing id exactly once and nothing else.',
 ['histories'],
 'All request sequences up to the depth bound over two policy ids, several definitions and relationships, from empty and non-empty stores.',
 'Tests chain at most three calls from an empty store; delete with relationships, re-creation and interleavings of ids are absent.',
 [PO+'service.go',KV+'policy_repository.go'],
 [('life-cycle rules',PO+'service.go'),('policy records',KV+'policy_repository.go')],
 [('policy store','records by id',KV+'kv_store.go')],
 ['policy service responses'])

prop('C12','The relation expression language is parsed as documented',
 'A text is accepted as a relation expression exactly if it is in the documented grammar (_this, identifiers, identifier->identifier, + & -, parentheses, any white space between tokens), and it denotes the expression obtained with equal precedence and left associativity, parentheses grouping. The textual form of any expression tree parses back to an expression with the same meaning.',
 ['inputs','programs'],
 'All token strings up to the length bound, all character strings up to a length bound over an alphabet of the special characters, letters, digits, unicode letters and white space, and all expression trees up to the size bound.',
 'A handful of expressions are tested; rejection of malformed text, mixed operators and round trips are not.',
 ['internal/relation_expression_parser/lexer.go','internal/relation_expression_parser/parser.go','internal/relation_expression_parser/primitives.go','pkg/domain/relation_expression_tree.go'],
 [('lexer','internal/relation_expression_parser/lexer.go'),('combinator parser','internal/relation_expression_parser/parser.go'),('printer','pkg/domain/relation_expression_tree.go:RelationExpression')],
 None,['acceptance by CreatePolicy and Check answers; parser result tree'])

prop('C13','A YAML policy means the same as its structured form',
 'A policy supplied as YAML is stored, validated and evaluated identically to the structured policy it abbreviates: same id, name, documentation, attributes, resources, relations and expressions; each type entry is an entity restriction, a resource:relation entry an entity-set restriction, and the * entry a universal restriction. The result does not depend on the order of keys in the document, and unknown fields and malformed documents are rejected.',
 ['inputs','programs'],
 'All policies of a bounded family rendered to YAML in all key orders and quoting styles, compared with the structured form through every service response.',
 'The mapper test file is empty; one test covers unknown fields.',
 ['pkg/policy_definition/mapper.go','pkg/policy_definition/unmarshaler.go','pkg/policy_definition/types.go'],
 [('unmarshalling','pkg/policy_definition/unmarshaler.go'),('mapping','pkg/policy_definition/mapper.go')],
 None,['GetPolicy record after CreatePolicy from YAML; PolicyFromYaml result'])

prop('C14','Concurrent policy-service requests are linearizable',
 'When requests to the policy service overlap, their responses and the final state are those of executing them one at a time in some order consistent with real time. In particular one id is created at most once, no update revives a deleted policy, no relationship outlives a concurrent deletion of its policy, and no listing contains an incomplete record.',
 ['schedules'],
 'All interleavings, at storage-operation and at statement granularity, of two and three clients with one or two requests each that collide on the same policy and relationships, up to the preemption bound.',
 'All tests are single threaded.',
 ['zanzi.go','locking.go',PO+'service.go',KV+'policy_repository.go',KV+'kv_store.go'],
 [('request-level locking','locking.go:lockedPolicyService')],
 [('policy and relationship stores','shared by all requests',KV+'kv_store.go')],
 ['responses of overlapping calls and the state after they finish'])

prop('C15','A Check sees one consistent state and is not disturbed by other requests',
 'A Check, ExplainCheck, Expand or DumpRelationships that overlaps with writes answers as it would on one state the store really had during the call; it never combines parts of different states into an answer none of them justifies. Overlapping queries never influence each other\'s answers.',
 ['schedules'],
 'All interleavings, at storage-operation and at statement granularity, of queries with one or two concurrent writes and with other queries, up to the preemption bound.',
 'All tests are single threaded; only interleavings between two reads of one query show a violation.',
 ['zanzi.go','locking.go',RG+'service.go',RG+'searcher.go',KV+'node_repository.go'],
 [('per-request searcher',RG+'service.go:Check'),('request-level locking','locking.go:lockedRelationGraph')],
 None,['query responses under overlap'])

prop('C16','A crash between storage writes loses nothing acknowledged and is repairable',
 'If the process stops after any storage write of a request, then after restart every policy and relationship the request did not address is as before, access decisions are those before or after an interrupted single-relationship request, and repeating the interrupted request completes it exactly. An interrupted policy deletion leaves the policy either whole or gone: it grants nothing, and a policy created later under that id starts with no relationships.',
 ['crash_points','histories'],
 'Every prefix of the storage writes of every request in every state reached by the histories in the bound, followed by restart, repetition, and further requests.',
 'No test stops a request half way.',
 [KV+'policy_repository.go',PO+'service.go',KV+'kv_store.go'],
 [('write order of the repositories',KV+'policy_repository.go'),('cleanup on creation',KV+'policy_repository.go:SetPolicy')],
 None,['all responses of a new instance over the surviving store'])

prop('C17','Storage errors surface and never turn into wrong answers',
 'If any storage operation performed for a request fails, the request either reports an error or still produces exactly the response and effect of a fault-free run: a write is never acknowledged without being stored, and a query never answers from incomplete data. Other policies and relationships are unaffected, and the request succeeds with its normal effect when repeated after the fault is gone. The same holds for a request whose context is cancelled before it or at any moment of it.',
 ['fault_sequences','histories'],
 'Every single failing storage operation (read, existence test, write, delete, iterator step, iterator end) of every request in every state of the bound, and every pair of failing operations in the thorough tier.',
 'The stores used by the tests never fail.',
 [KV+'policy_repository.go',KV+'node_repository.go',KV+'kv_store.go',PO+'service.go',RG+'service.go'],
 [('error propagation',KV+'policy_repository.go'),('error propagation in search',RG+'searcher.go')],
 None,['responses under fault injection and the store afterwards'])

prop('C18','No request, however malformed, crashes the process',
 'Every request that can arrive over the wire or be built by an embedding program, with any subset of its message fields missing, empty or holding out-of-range enum values, gets a response or an error; no request panics or stops the process. A request that is refused changes nothing.',
 ['inputs'],
 'Every request message with every combination of absent or empty sub-messages and undefined enum values, on empty and populated stores.',
 'Tests send complete requests; a single missing field is tested once.',
 [PO+'service.go',PO+'spec.go',PO+'selector_spec.go',PO+'helpers.go',RG+'service.go',RG+'searcher.go',KV+'mapper.go'],
 [('request validation',PO+'spec.go'),('variant defaults',RG+'goal_tree.go')],
 None,['absence of panics; error values'])

prop('C19','All state is in the store: restart and queries change nothing',
 'At every point of every request history, a new instance opened on the same store gives the same responses to every request as the instance that performed the history, with the in-memory and with the on-disk store. Queries (Check, ExplainCheck, Expand, DumpRelationships, GetPolicy, ListPolicyIds, GetRelationship, FindRelationshipRecords) leave the store byte for byte unchanged, and requests passed in are not modified. What a client does afterwards with the messages it passed in or was given has no effect on the stored state or on later answers.',
 ['histories','crash_points'],
 'All request histories up to the depth bound with a restart at every point, on the memory store and on LevelDB, comparing the complete observable state.',
 'No test restarts or uses the on-disk store.',
 ['zanzi.go',KV+'kv_store.go',PO+'service.go',RG+'service.go'],
 [('stateless services over the store','zanzi.go:init'),('store construction','zanzi.go:WithDefaultKVStore')],
 None,['responses of old and new instance; raw store contents'])

prop('C20','The gRPC server answers as the embedded library does',
 'Every policy-service and relation-graph request sent to the gRPC server, within the transport\'s message size limit, gets the response, or an error exactly when, the embedded service would give for the same history. Requests that went through encoding are treated no differently from ones built in memory. The command-line client and the HTTP gateway pass requests on and return responses unchanged.',
 ['histories','inputs'],
 'All request sequences up to the bound executed against an embedded instance and a served instance in lock step.',
 'The server package has no tests.',
 ['pkg/server/server.go','zanzi.go','pkg/api/policy_service_grpc.pb.go','pkg/api/relation_graph_grpc.pb.go','cmd/zanzid/main.go','cmd/zanzi-cli/main.go','pkg/api/policy_service.pb.gw.go','pkg/api/relation_graph.pb.gw.go'],
 [('service registration','pkg/server/server.go:registerGRPCServices')],
 None,['client-side responses'])

prop('C21','The exported graph containers keep both edge directions consistent',
 'After any sequence of node and edge insertions in the exported graph containers, the successors of a node are exactly the targets and its ancestors exactly the sources of the edges added at it, each once, with the latest node data; edges to unknown nodes are refused in the generic graph without effect. The DOT rendering of a graph whose edges join its nodes contains exactly its nodes and edges.',
 ['histories'],
 'All operation sequences up to the depth bound over three node ids including self loops, duplicates and node updates.',
 'Three tests with one edge each.',
 ['pkg/types/map_graph.go','pkg/types/graph.go','pkg/types/option.go'],
 [('forward and backward edge maps','pkg/types/map_graph.go:SetEdge')],
 None,['GetSucessors/GetAncestors/GetNode/SetEdge results; GraphToDOT output'])

prop('C22','No request wedges the store for the requests after it',
 'On the bundled stores, whatever was requested before and however much is stored, every request completes: no finished request keeps a lock, iterator or other resource that makes a later request block forever, including requests that failed.',
 ['histories','configurations'],
 'For every request kind, successful and failing, at every store size of a sweep across internal buffer sizes, followed by every kind of write, on the bundled in-memory store and under overlapping clients.',
 'Tests use fewer than ten stored keys, below the buffer sizes at which a leaked iterator blocks writers.',
 [KV+'policy_repository.go',KV+'node_repository.go',PO+'service.go'],
 [('iterator handling',KV+'policy_repository.go:ListPolicyIds')],
 None,['completion of every call'])

prop('C23','Instances use what they were configured with and never affect each other',
 'New with any list of options yields an instance that keeps its data in exactly the store named by the last store option (the given key-value store, the data directory with a leading ~ standing for the home directory, or a memory store of its own) and touches no other store named in the list; loggers and the order of options never change an answer, and an option that cannot be honoured, or a server address that cannot be listened on, is reported as an error. Several instances in one process with their own stores are independent: no request to one instance, in whatever order, changes any answer of another one.',
 ['inputs','histories','configurations'],
 'All lists of up to three options; all sequences of up to four requests over two instances, both completely observed.',
 'Tests build one instance with one store; shared package state, option precedence and failing options are not exercised.',
 ['zanzi.go','pkg/server/server.go','internal/policy/service.go',RG+'service.go',KV+'kv_store.go'],
 [('options and defaults','zanzi.go:New, With*'),('listening','pkg/server/server.go:Server.Init')],
 None,['New results and all responses of all instances'])

prop('C24','The exported builders and accessors say what they mean',
 'The helpers of pkg/domain with which clients build and read messages are faithful for all inputs: a SelectorBuilder yields, after any sequence of calls, the selector described by the last call for each part since the last Reset, and selectors built earlier stay unchanged; relationship, entity, record and expression-tree constructors yield exactly the described message; lookups by name find the named item or nothing; a tree lists its rules in order and prints as text that reads back as the same tree; nodes have equal ids exactly when they are the same node, and their object and kind are reported correctly.',
 ['inputs','histories'],
 'All sequences of five builder calls over 14 calls; all pairs of adversarial names in all pairs of components; all expression trees of up to four leaves.',
 'No test covers these helpers beyond single uses.',
 ['pkg/domain/selector.go','pkg/domain/relationship.go','pkg/domain/policy.go','pkg/domain/relation_graph.go','pkg/domain/relation_expression_tree.go'],
 [('selector builder','pkg/domain/selector.go:SelectorBuilder'),('node identity','pkg/domain/relation_graph.go:RelationNode.Id')],
 None,['values returned by the helpers'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
