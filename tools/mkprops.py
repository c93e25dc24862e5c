"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": ["src/fedservice/" + f for f in files],
         "mechanism": [{"name": n, "where": "src/fedservice/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "src/fedservice/" + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Maximum path length constraints are enforced along the whole chain",
  "A trust chain is accepted only if, for every superior statement in it that sets a maximum path length, "
  "the number of intermediates between that statement's issuer and the leaf does not exceed that maximum. "
  "A chain whose statements all keep within every such maximum (and that breaks no other constraint) is not rejected, "
  "wherever in the chain the maxima appear and whether or not the statements in between carry constraints.",
  ["inputs"], "all chains of any length, with any assignment of max_path_length / no constraints to each statement",
  "Tests try chains of up to three statements and call the length calculation with a handful of hand-picked arguments; the claim is over every chain length and every placement of constraints.",
  ["entity_statement/constraints.py"],
  [("meets_restrictions", "entity_statement/constraints.py"), ("calculate_path_length", "entity_statement/constraints.py")],
  observe=["return value of meets_restrictions", "chains returned by the verifier"])

p("C02", "Naming constraints bind every entity below the statement that sets them",
  "A trust chain is accepted only if every subject at or below a statement that sets naming constraints falls under the permitted subtrees in force (when there are any) and under none of the excluded subtrees in force. "
  "A subtree in force (permitted or excluded) is replaced only by the subordinate's subtrees that lie inside it, so what is permitted is never widened. "
  "A name falls under a subtree exactly when, label by label from the right, it repeats the subtree's labels (up to the subtree's first empty label) and has at least as many labels.",
  ["inputs"], "all chains, all subject identifiers, all permitted/excluded lists, present or absent at each level",
  "The stable tests check nine fixed host names; the claim is over every list at every level and every identifier.",
  ["entity_statement/constraints.py"],
  [("more_specific / permitted / excluded", "entity_statement/constraints.py"), ("update_naming_constraints / add_constraints / update_specs", "entity_statement/constraints.py"), ("meets_restrictions", "entity_statement/constraints.py")])

p("C03", "A trust chain is only accepted if it is signed, linked and anchored",
  "A chain is reported as verified only if its first statement is issued by a configured trust anchor, no statement in it has expired, each statement's signature verifies with keys that the federation entity already trusts for that statement's issuer or that a verified statement earlier in the chain vouched for, and each statement is about the entity that issues the next one (the last may instead be about the same entity as the one before it). "
  "The verified chain contains the verified content of exactly the supplied statements in the supplied order, its anchor is the first issuer and its issuer path runs from the leaf to the anchor. "
  "Keys are only ever added for the subject of a statement whose signature was verified.",
  ["inputs", "histories"], "all lists of signed statements, all key jar contents, any sequence of earlier verifications",
  "Tests verify chains from well-behaved entities; an attacker's chain (unknown anchor whose keys happen to be known, re-ordered, unlinked, wrongly signed) and key jar state left by earlier runs are outside any sample.",
  ["entity/function/verifier.py", "entity/function/__init__.py"],
  [("TrustChainVerifier.trusted_anchor", "entity/function/verifier.py"), ("TrustChainVerifier.verify_trust_chain", "entity/function/verifier.py"), ("TrustChainVerifier.__call__", "entity/function/verifier.py"), ("verify_trust_chains", "entity/function/__init__.py")],
  state=[("keyjar", "keys trusted per entity id", "entity/function/verifier.py")])

p("C04", "A trust chain lives exactly as long as its shortest-lived statement",
  "The expiry time of a verified trust chain equals the smallest expiry time among its statements. "
  "A chain is reported expired exactly when the current time is past that time, and a statement is reported expired exactly when it carries an expiry time that the current time is past.",
  ["inputs"], "all chain lengths, all orders and values of exp (including 0), all clock values",
  "Tests use one or two chains of fixed length whose statements all have the same lifetime.",
  ["entity/function/verifier.py", "entity_statement/statement.py", "utils.py"],
  [("trust_chain_expires_at", "entity/function/verifier.py"), ("TrustChain.is_expired", "entity_statement/statement.py"), ("statement_is_expired", "utils.py")])

p("C05", "Combining metadata policies never loosens what a superior demands",
  "Combining a superior's policy for a claim with a subordinate's either fails or yields a policy under which every value accepted satisfies what the superior's policy demands and what the subordinate's demands: exact values and defaults are kept, allowed-value sets are intersected, required-value sets are united, and an essential claim stays essential. "
  "Policies and fixed metadata that only one of the two states are carried over unchanged, and a subordinate can never change a metadata value a superior has fixed.",
  ["inputs"], "all pairs of policies over all operators and all value lists; all sets of claims",
  "Tests combine a few dozen hand-written policy pairs; the guarantee is over all operator combinations and value sets.",
  ["entity/function/policy.py"],
  [("combine_claim_policy, do_*, combine_*", "entity/function/policy.py"), ("combine_metadata", "entity/function/policy.py"), ("combine", "entity/function/policy.py")])

p("C06", "Metadata that comes out of policy application satisfies the policy",
  "Applying a metadata policy either fails with a policy error or returns metadata in which, for each claim the policy names: a fixed value is the value; every value the policy adds is present; a default is used only when nothing else gave the claim a value; the value is one of / within the allowed values; all required values are present; and an essential claim is present. "
  "Values are only changed as an operator prescribes (an allowed-values operator never adds values and never drops an allowed one), and claims the policy does not name come out as they went in. Metadata that already satisfies the policy is not refused.",
  ["inputs"], "all metadata and all policies over all operators, scalar and list values, present and absent claims",
  "Tests apply some twenty fixed policies; nothing samples scalar/list mixes, operator combinations and claim absence systematically.",
  ["entity/function/policy.py", "entity/function/policy_operator.py"],
  [("apply_metadata_policy", "entity/function/policy.py"), ("PolicyOperator subclasses", "entity/function/policy_operator.py"), ("construct_evaluation_sequence", "entity/function/policy_operator.py"), ("apply_policy", "entity/function/policy.py")])

p("C07", "Policies of every superior are applied, top down, to each entity type",
  "The metadata a trust chain yields for an entity type is the leaf's own metadata for that type after the combination, from the trust anchor downwards, of the metadata and metadata policies that every superior statement in the chain states for that entity type, and of nothing stated for any other type. "
  "A type the leaf does not declare yields no metadata. "
  "Applying policies leaves the verified statements of the chain as they were, so applying them again gives the same result.",
  ["inputs", "histories"], "all chain lengths, all entity types, any distribution of policies over the statements, repeated application",
  "Tests use chains with at most two superiors and one entity type at a time, and never apply policies twice.",
  ["entity/function/policy.py", "entity/function/__init__.py"],
  [("TrustChainPolicy.gather_policies", "entity/function/policy.py"), ("TrustChainPolicy._policy / __call__", "entity/function/policy.py"), ("apply_policies", "entity/function/__init__.py")])

p("C08", "Chain collection finds every path to the top and always terminates",
  "Turning the collected tree of superiors into chains yields exactly one chain per path from the leaf to a top of the tree, each listing the statements from the top down. "
  "Collecting follows every authority the entity configuration hints at (stopping at the requested anchor), asks each authority about exactly the entity below it, and terminates even when authority hints form a cycle.",
  ["inputs", "configurations"], "all federation topologies (trees, DAGs, cycles), all trees of any depth and width",
  "Tests use three fixed topologies without cycles and with at most two branches.",
  ["entity/function/trust_chain_collector.py", "entity/function/__init__.py"],
  [("collect_tree / collect_branch", "entity/function/trust_chain_collector.py"), ("tree2chains", "entity/function/__init__.py")])

p("C09", "Cached statements are never used past their lifetime or for another entity",
  "A cache lookup never returns a decoded statement that expires within the configured safety margin, and a stored entity statement is reused only for the same authority and subject and only while more than the safety margin of its lifetime remains; otherwise it is fetched anew and the cache is refreshed. "
  "Everything else stored in the cache is returned as it was stored, and a lookup of something absent returns nothing.",
  ["inputs", "histories"], "all sequences of stores, lookups and deletes, all clock values, all margins, all authority/subject pairs",
  "Tests fetch each statement once with a fixed long lifetime; expiry, margins and repeated use under a moving clock are not sampled.",
  ["entity_statement/cache.py", "entity/function/trust_chain_collector.py"],
  [("ESCache.__getitem__", "entity_statement/cache.py"), ("_get_entity_statement", "entity/function/trust_chain_collector.py"), ("too_old / __call__", "entity/function/trust_chain_collector.py")],
  state=[("ESCache._db", "statements by key", "entity_statement/cache.py")])

p("C10", "Only trust marks from a trusted, delegated and unexpired source are accepted",
  "A trust mark is reported valid only if it carries all required claims, has not expired, its issuer has a verified trust chain ending in the requested trust anchor, its signature verifies with that issuer's federation keys and, when it carries a delegation, that delegation names the mark's identifier and issuer and is signed by the mark's owner as declared by the trust anchor. "
  "When the issuer is asked for the status, the mark is reported valid only if the issuer says it is active; whatever fails is reported as not valid or raises an error.",
  ["inputs"], "all trust marks (any claims, issuers, signatures, delegations), all answers from the issuer",
  "Tests verify one or two marks that are valid and issued by a well-behaved issuer.",
  ["entity/function/trust_mark_verifier.py", "entity/__init__.py"],
  [("TrustMarkVerifier.__call__", "entity/function/trust_mark_verifier.py"), ("TrustMarkVerifier.verify_delegation", "entity/function/trust_mark_verifier.py"), ("FederationEntity.verify_trust_mark", "entity/__init__.py")])

p("C11", "The register of issued trust marks remembers exactly what was issued",
  "After any sequence of additions, asking for a trust mark identifier and subject finds an entry exactly when such a mark was added and the latest one has not expired, regardless of what was added for other subjects, and an identifier never registered simply yields nothing. With an issue time an entry is found only if a mark issued then was added, and always if that one is the latest and unexpired. "
  "Listing an identifier gives each subject it was issued to once, restricted to the given subject when one is given, and a dumped register that is loaded again answers every query the same way.",
  ["histories", "inputs"], "all sequences of additions over any identifiers, subjects, issue and expiry times; both register implementations",
  "The only stable test adds one mark and finds it.",
  ["trust_mark_entity/__init__.py"],
  [("FileDB", "trust_mark_entity/__init__.py"), ("SimpleDB", "trust_mark_entity/__init__.py")],
  state=[("FileDB files / SimpleDB._db", "issued marks per identifier", "trust_mark_entity/__init__.py")])

p("C12", "Issued trust marks say what was specified, and status answers match",
  "A trust mark is only issued for an identifier the issuer has a specification for; it is issued in the issuer's name, names the identifier and the subject asked for, carries the specification's claims and an expiry exactly when a lifetime is configured, and is recorded as issued. "
  "The status endpoint answers active exactly when the mark asked about, given as a mark or as subject and identifier, is recorded as issued and the latest such mark is still in force. "
  "The listing endpoint lists exactly the subjects with a recorded mark of the identifier.",
  ["inputs", "histories"], "all specifications, identifiers, subjects, lifetimes and request shapes",
  "Tests issue a single mark and query it in one or two ways.",
  ["trust_mark_entity/entity.py", "trust_mark_entity/server/trust_mark_status.py", "trust_mark_entity/server/trust_mark_list.py", "trust_mark_entity/server/trust_mark.py"],
  [("TrustMarkEntity.create_trust_mark", "trust_mark_entity/entity.py"), ("TrustMarkStatus.process_request", "trust_mark_entity/server/trust_mark_status.py"), ("TrustMarkList.process_request", "trust_mark_entity/server/trust_mark_list.py"), ("TrustMark.process_request", "trust_mark_entity/server/trust_mark.py")])

p("C13", "Fetch states only what is registered for own subordinates, in own name",
  "A fetched entity statement is always issued by the serving entity itself; it is about the requested subject, which must be a registered subordinate (or the entity itself), and it contains that subordinate's registered keys and the metadata and metadata policy configured for that subordinate, or else for its entity types. "
  "Asking about an unknown subordinate is an error. "
  "Serving a request never changes what is registered, so the same request always gets the same content.",
  ["inputs", "histories"], "all requests (any iss/sub), all registrations and policies, any sequence of requests",
  "Tests fetch one statement for one known subordinate and never repeat or vary the request.",
  ["entity/server/fetch.py", "entity_statement/create.py"],
  [("Fetch.process_request", "entity/server/fetch.py"), ("create_entity_statement", "entity_statement/create.py")],
  state=[("server.subordinate / server.policy", "registered subordinates and policies", "entity/server/__init__.py")])

p("C14", "Subordinate listing returns exactly the subordinates that match every filter",
  "Without filters the listing returns every registered subordinate. "
  "With filters (entity type, intermediate, trust marked, trust mark identifier) (entity types as registered; a flag that is not set filters nothing) it returns exactly the registered subordinates that satisfy each filter given, each once, whatever information a subordinate's entity configuration lacks.",
  ["inputs"], "all sets of subordinates with any attributes, all combinations of filters",
  "Tests list two or three subordinates with one filter at a time.",
  ["entity/server/list.py"],
  [("List.process_request", "entity/server/list.py"), ("List.filter", "entity/server/list.py")])

p("C15", "Statements with critical extensions that are not understood are refused",
  "Verifying an entity statement fails if it marks as critical an extra claim the verifier does not declare known, or a policy operator beyond the standard ones that the verifier does not declare known; it does not fail because of extras that are not marked critical or that are known. "
  "An empty list of critical operators handed to the policy check while extra operators exist is refused. "
  "A trust mark verified for an entity is refused when its subject is another entity, and a status request is refused unless it names a mark or both subject and identifier.",
  ["inputs"], "all sets of extra claims, critical lists and known extensions; all trust marks and status requests",
  "Stable tests try a single extra claim and a single extra operator.",
  ["message.py"],
  [("EntityStatement.verify", "message.py"), ("MetadataPolicy.verify / Policy.verify", "message.py"), ("TrustMark.verify", "message.py"), ("TrustMarkStatusRequest.verify", "message.py")])

p("C16", "Redirect URIs and metadata in a registration are held to the rules",
  "A registration is accepted only if every redirect URI obeys the rules for the client's application type: web clients that use more than the code flow must use https, native clients may only use custom schemes or http on the local host, and no redirect URI carries a fragment. "
  "Every accepted URI is kept with its query part, in order, none is dropped or added. "
  "A requested capability is kept only to the extent that the server supports it, where the server states what it supports.",
  ["inputs"], "all registration requests (any URIs, application types, response types), all server capabilities",
  "Tests register clients with one well-formed https redirect URI.",
  ["appserver/oauth2/registration.py"],
  [("verify_redirect_uris", "appserver/oauth2/registration.py"), ("match_claim / filter_client_request", "appserver/oauth2/registration.py")])

p("C17", "Automatic registration only ever registers the client the trust chain is about",
  "An unknown client is registered automatically only on the strength of a verified trust chain whose leaf is that very client, with the metadata that results from applying that chain's policies; without one the request is refused and nothing is registered. "
  "This holds alike for a chain that is looked up and for one supplied in the request. "
  "A client that is already registered other than automatically is never re-registered this way.",
  ["inputs", "histories"], "all client identifiers and supplied trust chains, any state of the client database",
  "Tests register one honest client; a chain about another entity is never supplied.",
  ["appserver/oidc/authorization.py", "appserver/oauth2/authorization.py", "appserver/oauth2/pushed_authorization.py"],
  [("Authorization.do_automatic_registration / client_authentication", "appserver/oidc/authorization.py"), ("Authorization.do_automatic_registration", "appserver/oauth2/authorization.py"), ("PushedAuthorization", "appserver/oauth2/pushed_authorization.py")])

p("C18", "Explicit registration uses only verified, policy-bound client metadata",
  "Explicit registration succeeds only for an entity with a verified trust chain, stores the client (OpenID Connect: under that entity's identifier; OAuth2: or under a new identifier when the server gives new ones) with metadata that satisfies the superiors' policies, and answers with an entity statement issued by the server about and for that client and naming the trust anchor used.",
  ["inputs"], "all registration requests, all superiors' policies",
  "Tests register one client whose metadata already satisfies the policy.",
  ["appserver/oidc/registration.py", "appserver/oauth2/registration.py"],
  [("Registration.process_request", "appserver/oidc/registration.py"), ("Registration.process_request", "appserver/oauth2/registration.py")])

p("C19", "A registration response is used only if its issuer and anchor are trusted",
  "A client acts on an explicit registration response only if the response names a trust anchor the client trusts, is correctly signed, and its issuer has a verified trust chain to that anchor; anything else is refused. "
  "The metadata the client ends up with is what the response states, held to the policies of the client's own superiors.",
  ["inputs"], "all registration responses (any issuer, anchor, signature, metadata)",
  "Tests handle one honest response.",
  ["appclient/oidc/registration.py", "appclient/oauth2/registration.py"],
  [("Registration._signature_verifies / parse_federation_registration_response", "appclient/oidc/registration.py"), ("same", "appclient/oauth2/registration.py")])

p("C20", "Trust chain choice is deterministic: configured priority, then shortest",
  "When several trust chains are available the one ending in the highest-priority trust anchor is chosen, and without a usable priority one of the available chains is chosen. "
  "Chains are stored per entity and anchor, keeping for each anchor a shortest one of those saved together and leaving what is stored for other entities and anchors untouched; looking up an entity and anchor returns what was stored for them and nothing for unknown ones. "
  "Exporting a chain gives the same leaf-first statements every time it is asked for.",
  ["inputs", "histories"], "all lists of chains, all priority lists, any sequence of saves, lookups and exports",
  "Tests store one or two chains and read them back once.",
  ["entity/__init__.py", "__init__.py", "entity_statement/statement.py"],
  [("pick_trust_chain / pick_from_stored_trust_chains", "entity/__init__.py"), ("save_trust_chains / get_trust_chain", "__init__.py"), ("chains2dict", "entity_statement/statement.py"), ("TrustChain.export_chain", "entity_statement/statement.py")],
  state=[("federation_context.trust_chain", "stored chains per entity and anchor", "__init__.py")])

p("C21", "Resolve answers only from a verified chain to the requested anchor",
  "A resolve response is issued by the resolving entity about the requested subject, and its metadata is the policy-bound metadata from a verified trust chain of that subject that ends in the requested trust anchor, restricted to the requested type when one is given; it carries that chain's statements from the leaf upwards. "
  "If there is no such chain no metadata is returned (an error is raised).",
  ["inputs"], "all subjects, anchors, types and topologies",
  "Tests resolve one subject against the one existing anchor.",
  ["entity/server/resolve.py", "entity/function/trust_chain_collector.py"],
  [("Resolve.process_request", "entity/server/resolve.py"), ("get_chain", "entity/function/trust_chain_collector.py")])

p("C22", "A created entity statement contains exactly what it was asked to state",
  "A created entity statement is issued by the given issuer and about the given subject; it contains exactly the metadata, metadata policy, authority hints, audience, constraints and further claims it was given, omitting those not given, and lives for the given lifetime. "
  "The keys it carries are those given for the subject or, if none were given, the issuer's public keys, never private key material. "
  "An entity configuration names its entity as both issuer and subject and carries the entity's metadata, authority hints and trust marks.",
  ["inputs"], "all combinations of given and omitted claims and values",
  "Tests create statements with a few fixed argument combinations.",
  ["entity_statement/create.py", "entity/server/entity_configuration.py", "entity/context.py"],
  [("create_entity_statement", "entity_statement/create.py"), ("EntityConfiguration.process_request", "entity/server/entity_configuration.py")])

open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
