From d544e9ddeb75d0ed26d9acaaa8c50a0f8856772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:26 +0000
Subject: [PATCH 01/38] fix: enforce max_path_length and naming constraints on
 every statement of a trust chain

A maximum path length was never remembered, and statements without constraints of
their own were skipped, so the superiors' constraints were not applied to them.
---
 src/fedservice/entity_statement/constraints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index 289c34c..d6842d3 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -139,10 +139,13 @@ def meets_restrictions(trust_chain: List[EntityStatement]) -> bool:
         try:
             _constraints = statement['constraints']
         except KeyError:
-            continue
+            # What the superiors have set still applies
+            _constraints = {}
 
         current_max_path_length = calculate_path_length(_constraints, current_max_path_length,
                                                         max_assigned)
+        if 'max_path_length' in _constraints:
+            max_assigned = True
 
         if current_max_path_length < 0:
             return False
-- 
2.43.0


From c0a73204b270ef2829da965d3850c66d2148cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 02/38] fix: subordinate naming constraints need not state both
 permitted and excluded

---
 src/fedservice/entity_statement/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity_statement/constraints.py b/src/fedservice/entity_statement/constraints.py
index d6842d3..63467da 100644
--- a/src/fedservice/entity_statement/constraints.py
+++ b/src/fedservice/entity_statement/constraints.py
@@ -85,7 +85,7 @@ def add_constraints(new_constraints: dict, naming_constraints: dict):
 
             continue
         else:
-            if not new_constraints[key]:
+            if not new_constraints.get(key):
                 continue
 
         naming_constraints[key] = update_specs(new_constraints[key], naming_constraints[key])
-- 
2.43.0


From 43c538520aa46d1c4580f2b5edff7b9b64e9ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 03/38] fix: only a configured trust anchor can anchor a trust
 chain

The key jar holds keys of every entity that has been part of a verified chain, so
being in the key jar does not mean being a trust anchor.
---
 src/fedservice/entity/function/verifier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 6f698d0..0df004c 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -25,7 +25,9 @@ class TrustChainVerifier(Function):
         payload = _jwt.jwt.payload()
         _federation_entity = get_federation_entity(self)
         if _federation_entity:
-            if payload['iss'] not in _federation_entity.keyjar:
+            # Having keys for an entity does not make it a trust anchor
+            if payload['iss'] not in _federation_entity.trust_anchors or \
+                    payload['iss'] not in _federation_entity.keyjar:
                 logger.warning(
                     f"Trust chain ending in a trust anchor I do not know: {payload['iss']}", )
                 return False
-- 
2.43.0


From e6806afcd66cb03e24241c0ee9b4e8bc0198a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 04/38] fix: the statements in a trust chain must form a chain

Each statement must be about the entity that issued the next one.
---
 src/fedservice/entity/function/verifier.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 0df004c..09f9325 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -42,6 +42,18 @@ class TrustChainVerifier(Function):
 
         return True
 
+    def is_linked(self, statements):
+        # Every statement must be about the entity that issued the next one. The exception is the
+        # last one which might be something someone else has issued about that entity.
+        for superior, subordinate in zip(statements, statements[1:]):
+            if superior['sub'] == subordinate['iss']:
+                continue
+            if subordinate is statements[-1] and superior['sub'] == subordinate['sub']:
+                continue
+            logger.warning(f"Broken trust chain between {superior['sub']} and {subordinate['iss']}")
+            return False
+        return True
+
     def verify_trust_chain(self, entity_statement_list):
         """
         Verifies the trust chain. Works its way down from the Trust Anchor to the leaf.
@@ -99,7 +111,7 @@ class TrustChainVerifier(Function):
 
                 ves.append(res)
 
-        if ves and meets_restrictions(ves):
+        if ves and self.is_linked(ves) and meets_restrictions(ves):
             return ves
         else:
             return []
-- 
2.43.0


From b5c3c8a74169b344a37bc48b59831182763c283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:00 +0000
Subject: [PATCH 05/38] fix: subset_of and superset_of on claims that are not
 lists

A single value was looked for among the operator names instead of among the allowed
values, and then split into characters.
---
 src/fedservice/entity/function/policy_operator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/policy_operator.py b/src/fedservice/entity/function/policy_operator.py
index 6580b9d..e33c8e2 100644
--- a/src/fedservice/entity/function/policy_operator.py
+++ b/src/fedservice/entity/function/policy_operator.py
@@ -82,8 +82,8 @@ class SubsetOf(PolicyOperator):
             if isinstance(metadata[claim], list):
                 _val = set(metadata_policy[claim][self.name]).intersection(set(metadata[claim]))
             else:
-                if metadata[claim] in metadata_policy[claim]:
-                    _val = metadata[claim]
+                if metadata[claim] in metadata_policy[claim][self.name]:
+                    return
                 else:
                     raise PolicyError(f"{metadata[claim]} not in allowed subset: {metadata_policy[claim]}")
 
@@ -99,7 +99,7 @@ class SupersetOf(PolicyOperator):
 
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
-            if set(metadata_policy[claim][self.name]).difference(set(metadata[claim])):
+            if set(metadata_policy[claim][self.name]).difference(union(metadata[claim], [])):
                 raise PolicyError(f"{metadata[claim]} not superset of {metadata_policy[claim][self.name]}")
 
 
-- 
2.43.0


From 3fc0a3c278779ce4501dce216b4b01782ca65d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 06/38] fix: one_of can not be evaded by making the claim a
 list

---
 src/fedservice/entity/function/policy_operator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/policy_operator.py b/src/fedservice/entity/function/policy_operator.py
index e33c8e2..8cf1abd 100644
--- a/src/fedservice/entity/function/policy_operator.py
+++ b/src/fedservice/entity/function/policy_operator.py
@@ -44,7 +44,9 @@ class OneOf(PolicyOperator):
     def __call__(self, claim, metadata, metadata_policy):
         if claim in metadata:
             if isinstance(metadata[claim], list):  # Should not be
-                return None
+                if set(metadata[claim]).difference(set(metadata_policy[claim][self.name])):
+                    raise PolicyError(
+                        f"{metadata[claim]} not among {metadata_policy[claim][self.name]}")
             else:
                 if metadata[claim] in metadata_policy[claim][self.name]:
                     pass
-- 
2.43.0


From 66e73c28ce714f62cd9ddc0f60956e185cca0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 07/38] fix: a subordinate's policy can not make a superior's
 policy ineffective

A value set by a subordinate is applied instead of the superior's one_of, subset_of,
superset_of and add, and subset_of removes what the superior adds.
---
 src/fedservice/entity/function/policy.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 34b7d21..782c9f1 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -21,6 +21,12 @@ def combine_one_of(s1, s2):
     return list(set(s1).intersection(set(s2)))
 
 
+def to_set(val):
+    if isinstance(val, list):
+        return set(val)
+    return {val}
+
+
 def combine_add(s1, s2):
     if isinstance(s1, list):
         set1 = set(s1)
@@ -185,6 +191,20 @@ def combine_claim_policy(superior, child):
         elif comb_policy == {'superset_of', 'add'}:
             if not set(rule['add']).issuperset(set(rule['superset_of'])):
                 raise PolicyError('"add" not a superset of "superset"')
+
+        if "add" in rule and "subset_of" in rule:
+            if not to_set(rule["add"]).issubset(rule["subset_of"]):
+                raise PolicyError('"add" not a subset of "subset"')
+
+        if "value" in rule:
+            # A subordinate's value must obey what the superior has stated
+            _value = to_set(rule["value"])
+            for policy in ["one_of", "subset_of"]:
+                if policy in rule and not _value.issubset(rule[policy]):
+                    raise PolicyError(f"value not a subset of {policy}")
+            for policy in ["superset_of", "add"]:
+                if policy in rule and not _value.issuperset(to_set(rule[policy])):
+                    raise PolicyError(f"value not a superset of {policy}")
     return rule
 
 
-- 
2.43.0


From 87923b3a2204f8348d50fbba8289843f8c36011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 08/38] fix: applying a metadata policy must not alter the
 statements or the superiors' metadata

The verified entity configuration was changed in place, and the leaf could override
metadata values set by its superiors.
---
 src/fedservice/entity/function/policy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 782c9f1..2395e8d 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -360,11 +360,12 @@ class TrustChainPolicy(Function):
         :return: A metadata statement that adheres to a metadata policy
         """
 
+        # Don't change the verified statement
+        metadata = metadata.copy()
         _metadata = policy.get("metadata", None)
         if _metadata:
-            _metadata = _metadata.copy()
-            _metadata.update(metadata)
-            metadata = _metadata
+            # What a superior has set can not be changed by a subordinate
+            metadata.update(_metadata)
 
         _metadata_policy = policy.get('metadata_policy', None)
         if _metadata_policy:
-- 
2.43.0


From 56a8735e66c3669f250fc49297e1cf8a4283ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:48 +0000
Subject: [PATCH 09/38] fix: break out of loops among authority hints

A loop was noticed but followed anyway, forever.
---
 src/fedservice/entity/function/trust_chain_collector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 6f3a9ab..c6909a4 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -257,6 +257,7 @@ class TrustChainCollector(Function):
         for authority in entity_configuration['authority_hints']:
             if authority in seen:  # loop ?!
                 logger.warning(f"Loop detected at {authority}")
+                continue
             superior[authority] = self.collect_branch(entity_id, authority, seen,
                                                       max_superiors, stop_at=stop_at)
 
-- 
2.43.0


From f00f974e0febc9472178dd20a2e728486daad4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 10/38] fix: do not use cached statements past their lifetime

get() and 'in' on the cache ignored the lifetime, an entity configuration was used until
allowed_delta seconds after it expired, and one that had been dropped from the cache
while the statement it had issued had not, broke the collection.
---
 src/fedservice/entity/function/trust_chain_collector.py | 5 ++++-
 src/fedservice/entity_statement/cache.py                | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index c6909a4..1996bd9 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -333,6 +333,9 @@ class TrustChainCollector(Function):
 
         if entity_statement:
             _entity_configuration = self.config_cache[authority]
+            if _entity_configuration is None:  # Too old, get a new one
+                self.get_federation_fetch_endpoint(authority)
+                _entity_configuration = self.config_cache[authority]
             return entity_statement, self.collect_tree(authority,
                                                        _entity_configuration,
                                                        stop_at=stop_at,
@@ -343,7 +346,7 @@ class TrustChainCollector(Function):
 
     def too_old(self, statement):
         now = time.time()
-        if now >= statement["exp"] + self.allowed_delta:
+        if now >= statement["exp"] - self.allowed_delta:
             return True
         else:
             return False
diff --git a/src/fedservice/entity_statement/cache.py b/src/fedservice/entity_statement/cache.py
index 31f5ee4..c4d218c 100644
--- a/src/fedservice/entity_statement/cache.py
+++ b/src/fedservice/entity_statement/cache.py
@@ -49,7 +49,8 @@ class ESCache(ImpExp):
         return len(self._db)
 
     def __contains__(self, item):
-        return item in self._db
+        return self[item] is not None
 
     def get(self, key, default: Optional[Any] = None):
-        return self._db.get(key, default)
+        statement = self[key]
+        return default if statement is None else statement
-- 
2.43.0


From a3c16a935f77b3864eb446f31e646ad7265503fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 11/38] fix: refuse trust marks whose delegation does not
 verify

A delegation that failed was only logged, and a delegation for another trust mark or
another issuer was accepted. A trust mark that did not verify was still looked into.
---
 src/fedservice/entity/__init__.py                     | 2 ++
 src/fedservice/entity/function/trust_mark_verifier.py | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 1bac7c1..1e89ab9 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -369,6 +369,8 @@ class FederationEntity(Unit):
         # Verifies the signature of the Trust Mark
         verified_trust_mark = self.function.trust_mark_verifier(
             trust_mark=trust_mark, trust_anchor=_tmi_trust_chain.anchor)
+        if not verified_trust_mark:
+            return None
 
         if check_with_issuer:
             # This to check that the Trust Mark is still valid according to the Trust Mark Issuer
diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index ea64782..c92fa03 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -50,6 +50,7 @@ class TrustMarkVerifier(Function):
             _delegation = self.verify_delegation(_trust_mark, trust_anchor)
             if not _delegation:
                 logger.warning("Could not verify the delegation")
+                return None
 
         # Get trust chain
         # _federation_entity = get_federation_entity(self)
@@ -101,4 +102,8 @@ class TrustMarkVerifier(Function):
         _key_jar = KeyJar()
         _key_jar = import_jwks(_key_jar, tm_owner_info['jwks'], tm_owner_info['sub'])
         keys = _key_jar.get_jwt_verify_keys(_delegation.jwt)
-        return _delegation.verify_compact(keys=keys)
+        _info = _delegation.verify_compact(keys=keys)
+        # must be about this trust mark and this trust mark issuer
+        if _info.get('id') != trust_mark['id'] or _info.get('sub') != trust_mark['iss']:
+            return None
+        return _info
-- 
2.43.0


From 0bb822440b632fe214970a58b72be398065fb10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 12/38] fix: an expired trust mark must not hide other
 subjects' trust marks (FileDB)

Whether the last line in the file had expired was checked before checking whom it was
about. Asking for an unknown trust mark id raised an exception.
---
 src/fedservice/trust_mark_entity/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 6c1ff10..30212c3 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -31,17 +31,19 @@ class FileDB(object):
         return False
 
     def find(self, trust_mark_id: str, sub: str, iat: Optional[int] = 0):
+        if trust_mark_id not in self.config:
+            return False
+
         with open(self.config[trust_mark_id], "r") as fp:
             # Get the last issued
             for line in reversed(list(fp)):
                 _tmi = json.loads(line.rstrip())
 
-                if 'exp' in _tmi:
-                    now = utc_time_sans_frac()
-                    if now > _tmi["exp"]:
-                        return False
-
                 if self._match(sub, iat, _tmi):
+                    if 'exp' in _tmi:
+                        now = utc_time_sans_frac()
+                        if now > _tmi["exp"]:
+                            return False
                     return True
         return False
 
-- 
2.43.0


From eb456ca11afddddf46e766c926656ff54764f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 13/38] fix: SimpleDB can hold more than one trust mark per id

Adding a second one failed, unknown ids raised an exception, expired ones were found
and listing returned the internal dictionary.
---
 src/fedservice/trust_mark_entity/__init__.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/trust_mark_entity/__init__.py b/src/fedservice/trust_mark_entity/__init__.py
index 30212c3..7ce6027 100644
--- a/src/fedservice/trust_mark_entity/__init__.py
+++ b/src/fedservice/trust_mark_entity/__init__.py
@@ -100,20 +100,21 @@ class SimpleDB(object):
 
     def add(self, tm_info: dict):
         if tm_info['id'] in self._db:
-            self._db[tm_info['id']].append({tm_info['sub']: tm_info})
+            self._db[tm_info['id']][tm_info['sub']] = tm_info
         else:
             self._db[tm_info['id']] = {tm_info["sub"]: tm_info}
 
     def list(self, trust_mark_id, sub: Optional[str] = ""):
+        _subs = self._db.get(trust_mark_id, {})
         if sub:
-            if self._db[trust_mark_id].get(sub, None):
-                return [sub]
-        elif trust_mark_id in self._db:
-            return self._db[trust_mark_id]
+            return [sub] if sub in _subs else []
+        return list(_subs)
 
     def find(self, trust_mark_id, sub: str, iat: Optional[int] = 0) -> bool:
-        _tmi = self._db[trust_mark_id].get(sub, None)
+        _tmi = self._db.get(trust_mark_id, {}).get(sub, None)
         if _tmi:
+            if 'exp' in _tmi and utc_time_sans_frac() > _tmi['exp']:
+                return False
             if iat:
                 if iat == _tmi["iat"]:
                     return True
-- 
2.43.0


From 1dd36729374814d54903d07f68f4a6c2b485b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 14/38] fix: trust mark listing for one subject returns a list
 with that subject

---
 src/fedservice/trust_mark_entity/server/trust_mark_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_list.py b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
index 3a543ad..027522d 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_list.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_list.py
@@ -39,7 +39,7 @@ class TrustMarkList(Endpoint):
 
         if 'sub' in request and 'trust_mark_id' in request:
             if _trust_mark_entity.find(request['trust_mark_id'], request['sub']):
-                return {"foo": request["sub"]}
+                return {"response_msg": json.dumps([request["sub"]]), "response_code": 200}
         elif 'trust_mark_id' in request:
             _lst = _trust_mark_entity.list(request["trust_mark_id"])
             if _lst:
-- 
2.43.0


From f9c36da4239fba5512d8b58a395859b0a440f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 15/38] fix: fetch must not issue in someone else's name or
 change what is registered

The issuer was taken from the request and what was added to the response was added to
the registered information about the subordinate, and so ended up in later responses.
---
 src/fedservice/entity/server/fetch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/entity/server/fetch.py b/src/fedservice/entity/server/fetch.py
index ab9f8f0..fc84ac6 100644
--- a/src/fedservice/entity/server/fetch.py
+++ b/src/fedservice/entity/server/fetch.py
@@ -26,9 +26,8 @@ class Fetch(Endpoint):
 
     def process_request(self, request=None, **kwargs):
         _context = self.upstream_get("context")
-        _issuer = request.get("iss")
-        if not _issuer:
-            _issuer = self.upstream_get('attribute','entity_id')
+        # Never issue anything in someone else's name
+        _issuer = self.upstream_get('attribute','entity_id')
 
         _sub = request.get("sub")
         _keyjar = self.upstream_get('attribute', 'keyjar')
@@ -50,6 +49,8 @@ class Fetch(Endpoint):
                 logger.debug(f"Known subordinates: {list(_server.subordinate.keys())}")
                 raise UnknownEntity(_sub)
 
+            # What is registered must not be changed
+            _response = dict(_response)
             if not 'authority_hints' in _response:
                 # If nothing specified add myself
                 _response["authority_hints"] = [_issuer]
-- 
2.43.0


From a883a218df22fd4d61da59d8ba5ec62cd258453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 16/38] fix: subordinate listing must match every filter and
 cope with missing information

---
 src/fedservice/entity/server/list.py | 57 ++++++++++++++++------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 921f697..6335f22 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -3,6 +3,7 @@ import logging
 
 from cryptojwt import JWT
 from cryptojwt import KeyJar
+from cryptojwt.jws.jws import factory
 from idpyoidc.key_import import import_jwks
 from idpyoidc.message import oidc
 from idpyoidc.server.endpoint import Endpoint
@@ -29,26 +30,27 @@ class List(Endpoint):
                **kwargs):
         match = []
         for entity_id, conf in subordinates.items():
-            matched = False
-            if entity_type:
-                if entity_type in conf['metadata']:
-                    matched = True
-            if trust_marked:
-                if 'trust_marks' in conf:
-                    matched = True
-                else:
-                    matched = False
-            if trust_mark_id:
-                trust_marks = conf.get('trust_marks')
-                matched = False
-                for trust_mark in trust_marks:
-                    if trust_mark['id'] == trust_mark_id:
-                        matched = True
+            # All filters that are given must match
+            if entity_type and entity_type not in conf.get('metadata', {}):
+                continue
+            trust_marks = conf.get('trust_marks') or []
+            if trust_marked and not trust_marks:
+                continue
+            if trust_mark_id and trust_mark_id not in [self.trust_mark_id(tm) for tm in
+                                                       trust_marks]:
+                continue
 
-            if matched:
-                match.append(entity_id)
+            match.append(entity_id)
         return match
 
+    @staticmethod
+    def trust_mark_id(trust_mark):
+        # A trust mark is either a signed JWT or an object with the id as a member
+        if isinstance(trust_mark, str):
+            _jws = factory(trust_mark)
+            trust_mark = _jws.jwt.payload() if _jws else {}
+        return trust_mark.get('id')
+
     def process_request(self, request=None, **kwargs):
         _db = self.upstream_get("unit").subordinate
         if not request or set(request.keys()).issubset({"client_id", "authenticated"}):
@@ -58,18 +60,23 @@ class List(Endpoint):
             subordinate_conf = None
             # I know about entity_types and intermediate or not from the registration
             for entity_id, item in _db.items():
-                if "intermediate" in request and request["intermediate"]:
-                    if "intermediate" in item and item["intermediate"]:
-                        matched_entity_ids.add(entity_id)
-                        continue
+                if request.get("intermediate") and not item.get("intermediate"):
+                    continue
                 if "entity_type" in request:
-                    if request["entity_type"] in item["entity_type"]:
-                        matched_entity_ids.add(entity_id)
+                    _types = item.get("entity_types", item.get("entity_type", []))
+                    if isinstance(_types, str):
+                        _types = [_types]
+                    if request["entity_type"] not in _types:
+                        continue
+                matched_entity_ids.add(entity_id)
 
             # I don't expect to know about trust marks from the registration
             if "trust_marked" in request or "trust_mark_id" in request:
                 subordinate_conf = self.collect_subordinates()
-                matched_entity_ids.update(self.filter(subordinates=subordinate_conf, **request))
+                matched_entity_ids.intersection_update(
+                    self.filter(subordinates=subordinate_conf,
+                                trust_marked=request.get("trust_marked"),
+                                trust_mark_id=request.get("trust_mark_id", "")))
 
             if self.extended and subordinate_conf:
                 return {"response_msg": json.dumps({id: subordinate_conf[id] for id in
@@ -86,6 +93,8 @@ class List(Endpoint):
         for entity_id, conf in _federation_entity.server.subordinate.items():
             #  get entity configuration for subordinate
             _entity_configuration = _collector.get_entity_configuration(entity_id)
+            if not _entity_configuration:
+                continue
             # Verify signature with the keys I have
             keyjar = import_jwks(keyjar, conf['jwks'], entity_id)
             _jwt = JWT(key_jar=keyjar)
-- 
2.43.0


From d6c18e9a955c8eef20af45425e932f80874de7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 17/38] fix: choose stored trust chains by priority and export
 them the same way every time

---
 src/fedservice/entity/__init__.py            | 2 +-
 src/fedservice/entity_statement/statement.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fedservice/entity/__init__.py b/src/fedservice/entity/__init__.py
index 1e89ab9..8e5d1eb 100644
--- a/src/fedservice/entity/__init__.py
+++ b/src/fedservice/entity/__init__.py
@@ -236,7 +236,7 @@ class FederationEntity(Unit):
         elif self.context.tr_priority:
             # Go by priority
             for ta_id in self.context.tr_priority:
-                for ta_id in _tas:
+                if ta_id in _trust_chains:
                     return _trust_chains[ta_id]
         return _trust_chains[_tas[0]]
 
diff --git a/src/fedservice/entity_statement/statement.py b/src/fedservice/entity_statement/statement.py
index bf40c6c..267af1d 100644
--- a/src/fedservice/entity_statement/statement.py
+++ b/src/fedservice/entity_statement/statement.py
@@ -87,9 +87,7 @@ class TrustChain(ImpExp):
         trust_chain claim in an authorization or explicit registration request.
         :return:
         """
-        _chain = self.verified_chain
-        _chain.reverse()
-        return _chain
+        return list(reversed(self.verified_chain))
 
 
 def chains2dict(trust_chains: TrustChain) -> dict:
-- 
2.43.0


From e2177faba5c99147440b44bf87de8e5ccab88332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:04 +0000
Subject: [PATCH 18/38] fix: a trust chain provided by a client must be about
 that client

---
 src/fedservice/appserver/oauth2/authorization.py        | 2 ++
 src/fedservice/appserver/oauth2/pushed_authorization.py | 2 ++
 src/fedservice/appserver/oidc/authorization.py          | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 03e3ab8..58d908a 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -54,6 +54,8 @@ class Authorization(authorization.Authorization):
             # So I get the TA's entity statement first
             provided_trust_chain.reverse()
             trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            # It has to be about the client
+            trust_chains = [tc for tc in trust_chains if tc.iss_path[0] == entity_id]
         else:
             chains, signed_entity_configuration = collect_trust_chains(self, entity_id)
             trust_chains = verify_trust_chains(self, chains, signed_entity_configuration)
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index c35b1b5..fb8579d 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -47,6 +47,8 @@ class PushedAuthorization(Authorization):
             # So I get the TA's entity statement first
             provided_trust_chain.reverse()
             trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            # It has to be about the client
+            trust_chains = [tc for tc in trust_chains if tc.iss_path[0] == entity_id]
             trust_chains = apply_policies(self, trust_chains)
         else:
             trust_chains = get_verified_trust_chains(self, entity_id)
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index e4e1ae0..97c4327 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -54,6 +54,8 @@ class Authorization(authorization.Authorization):
             # So I get the TA's entity statement first
             provided_trust_chain.reverse()
             trust_chains = verify_trust_chains(self, [provided_trust_chain])
+            # It has to be about the client
+            trust_chains = [tc for tc in trust_chains if tc.iss_path[0] == client_entity_id]
             trust_chains = apply_policies(self, trust_chains)
         else:
             trust_chains = get_verified_trust_chains(self, client_entity_id)
-- 
2.43.0


From e522765e82006ef78b33e68085bb4139e7df9fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 19/38] fix: redirect URIs of native clients may not carry
 fragments either

---
 src/fedservice/appserver/oauth2/registration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 31f1abc..3f5c67c 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -179,6 +179,9 @@ class Registration(Endpoint):
         for uri in registration_request["redirect_uris"]:
             _custom = False
             p = urlparse(uri)
+            if p.fragment:
+                raise InvalidRedirectURIError("redirect_uri contains fragment")
+
             if client_type == "native":
                 if p.scheme not in ["http", "https"]:  # Custom scheme
                     _custom = True
@@ -199,8 +202,6 @@ class Registration(Endpoint):
             elif p.scheme not in ["http", "https"]:
                 # Custom scheme
                 raise InvalidRedirectURIError("Custom redirect_uri not allowed for web client")
-            elif p.fragment:
-                raise InvalidRedirectURIError("redirect_uri contains fragment")
 
             if _custom:  # Can not verify a custom scheme
                 verified_redirect_uris.append((uri, {}))
-- 
2.43.0


From 8957c6bc28b0f378e84121c99c9cdb67502630b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 20/38] fix: explicit registration must use the request
 verified through the trust chain

---
 src/fedservice/appserver/oauth2/registration.py |  6 ++++++
 src/fedservice/appserver/oidc/registration.py   | 14 +++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/fedservice/appserver/oauth2/registration.py b/src/fedservice/appserver/oauth2/registration.py
index 3f5c67c..22b5d17 100644
--- a/src/fedservice/appserver/oauth2/registration.py
+++ b/src/fedservice/appserver/oauth2/registration.py
@@ -26,6 +26,7 @@ from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
+from fedservice.exception import NoTrustedChains
 from fedservice.message import OauthClientInformationResponse
 
 logger = logging.getLogger(__name__)
@@ -69,6 +70,11 @@ class Registration(Endpoint):
                                           entity_id=payload['sub'],
                                           signed_entity_configuration=request)
         _trust_chains = verify_trust_chains(_federation_entity, _chains, request)
+        # The request has to be the client's own Entity Configuration
+        _trust_chains = [tc for tc in _trust_chains if tc.iss_path[0] == payload['sub']]
+        if not _trust_chains:
+            raise NoTrustedChains(f"No trust chains for {payload['sub']}")
+
         _trust_chains = apply_policies(_federation_entity, _trust_chains)
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
diff --git a/src/fedservice/appserver/oidc/registration.py b/src/fedservice/appserver/oidc/registration.py
index a87f860..08ac394 100644
--- a/src/fedservice/appserver/oidc/registration.py
+++ b/src/fedservice/appserver/oidc/registration.py
@@ -5,7 +5,9 @@ from idpyoidc.message.oidc import RegistrationRequest
 from idpyoidc.server.oidc import registration
 
 from fedservice import save_trust_chains
-from fedservice.entity.function import get_verified_trust_chains
+from fedservice.entity.function import apply_policies
+from fedservice.entity.function import collect_trust_chains
+from fedservice.entity.function import verify_trust_chains
 from fedservice.entity.function.trust_chain_collector import verify_self_signed_signature
 from fedservice.entity.utils import get_federation_entity
 
@@ -45,7 +47,12 @@ class Registration(registration.Registration):
         _federation_entity = get_federation_entity(self)
 
         # Collect trust chains for client
-        _trust_chains = get_verified_trust_chains(self, entity_id=payload['sub'])
+        _chains, _ = collect_trust_chains(self, entity_id=payload['sub'],
+                                          signed_entity_configuration=request)
+        _trust_chains = verify_trust_chains(self, _chains, request)
+        # The request has to be the client's own Entity Configuration
+        _trust_chains = [tc for tc in _trust_chains if tc.iss_path[0] == payload['sub']]
+        _trust_chains = apply_policies(self, _trust_chains)
         if not _trust_chains:
             raise NoTrustedChains(f"No trust chains for {payload['sub']}")
 
@@ -53,7 +60,8 @@ class Registration(registration.Registration):
         trust_chain = _federation_entity.pick_trust_chain(_trust_chains)
         _federation_entity.trust_chain_anchor = trust_chain.anchor
 
-        req = RegistrationRequest(**payload["metadata"][opponent_entity_type])
+        # What the superiors allow and not what the client states
+        req = RegistrationRequest(**trust_chain.metadata[opponent_entity_type])
         req["client_id"] = payload['sub']
         # Perform non-federation registration
         response_info = self.non_fed_process_request(req, **kwargs)
-- 
2.43.0


From ee3ad7e87e05e2b6266a8db7caef2ad30e030249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 21/38] fix: something that is not a signed statement breaks
 the trust chain

---
 src/fedservice/entity/function/verifier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 09f9325..5dad90b 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -111,6 +111,10 @@ class TrustChainVerifier(Function):
 
                 ves.append(res)
 
+        # Something that isn't a signed JWT can not be part of a chain
+        if len(ves) != len(entity_statement_list):
+            return []
+
         if ves and self.is_linked(ves) and meets_restrictions(ves):
             return ves
         else:
-- 
2.43.0


From ef38cc72a570a3d2a58f59ebbb07bf2e46c5b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:44 +0000
Subject: [PATCH 22/38] fix: registration responses from entities without a
 verified trust chain are refused

---
 src/fedservice/appclient/oauth2/registration.py | 6 +++++-
 src/fedservice/appclient/oidc/registration.py   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/appclient/oauth2/registration.py b/src/fedservice/appclient/oauth2/registration.py
index bbe2e7d..a33a4b2 100644
--- a/src/fedservice/appclient/oauth2/registration.py
+++ b/src/fedservice/appclient/oauth2/registration.py
@@ -2,6 +2,7 @@ import logging
 from typing import Optional
 
 from cryptojwt import KeyJar
+from cryptojwt.jwt import JWT
 from idpyoidc.client.exception import ResponseError
 from idpyoidc.client.oidc import registration
 from idpyoidc.client.rp_handler import RPHandler
@@ -128,7 +129,7 @@ class Registration(registration.Registration):
             return False
 
         _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+        return any(tc.anchor == trust_anchor for tc in _trust_chains)
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
@@ -164,6 +165,9 @@ class Registration(registration.Registration):
                                             _federation_entity):
                 raise SignatureFailure("Could not verify signature")
 
+            # The response must be signed with a key that the trust chain vouched for
+            JWT(key_jar=_federation_entity.get_attribute("keyjar")).unpack(resp)
+
             # This is the trust chain from myself to the TA
             _trust_chains = get_verified_trust_chains(self, entity_id=self.upstream_get('attribute',
                                                                                         'entity_id'))
diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index aed99df..65457c0 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -107,7 +107,7 @@ class Registration(registration.Registration):
             return False
 
         _trust_chains = verify_trust_chains(federation_entity, _chains)
-        return True
+        return any(tc.anchor == trust_anchor for tc in _trust_chains)
 
     def parse_federation_registration_response(self, resp, **kwargs):
         """
-- 
2.43.0


From 9c7473df06cc67011bf1c05c10bac474a183035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:33 +0000
Subject: [PATCH 23/38] fix: verifying a trust chain must not change the JWKS
 in the verified statements

---
 src/fedservice/entity/function/verifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 5dad90b..52f0acf 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -92,7 +92,8 @@ class TrustChainVerifier(Function):
                     if len(ves) != n:
                         raise ValueError('Missing signing JWKS')
                 else:
-                    _kb = KeyBundle(keys=_jwks['keys'])
+                    # A copy since KeyBundle modifies the key descriptions
+                    _kb = KeyBundle(keys=[k.copy() for k in _jwks['keys']])
                     try:
                         old = _keyjar.get_issuer_keys(res['sub'])
                     except KeyError:
-- 
2.43.0


From 30fe0c25a4c2f8cb2854edf0284438192a1d9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:34 +0000
Subject: [PATCH 24/38] fix: a subordinate's metadata policy can not change
 what a superior has set

---
 src/fedservice/entity/function/policy.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/fedservice/entity/function/policy.py b/src/fedservice/entity/function/policy.py
index 2395e8d..500d2a9 100644
--- a/src/fedservice/entity/function/policy.py
+++ b/src/fedservice/entity/function/policy.py
@@ -226,6 +226,25 @@ def combine_metadata(superior_metadata: dict, subordinate_metadata: dict) -> dic
     return _metadata
 
 
+def same_value(val1, val2):
+    if isinstance(val1, list) and isinstance(val2, list):
+        return all(v in val2 for v in val1) and all(v in val1 for v in val2)
+    return val1 == val2
+
+
+def verify_unchanged(superior_metadata: dict, subordinate_policy: dict):
+    """
+    A subordinate's metadata policy is not allowed to change a value that a superior has set.
+    """
+    for claim in set(superior_metadata).intersection(subordinate_policy):
+        _metadata = apply_metadata_policy({claim: superior_metadata[claim]},
+                                          {claim: subordinate_policy[claim]},
+                                          construct_evaluation_sequence())
+        if not same_value(_metadata[claim], superior_metadata[claim]):
+            raise PolicyError(
+                'A subordinate is not allowed to change a value set by a superior')
+
+
 def combine(superior: dict, subordinate: dict) -> dict:
     """
 
@@ -233,6 +252,7 @@ def combine(superior: dict, subordinate: dict) -> dict:
     :param subordinate: Dictionary with two keys metadata_policy and metadata
     :return:
     """
+    verify_unchanged(superior.get('metadata', {}), subordinate.get('metadata_policy', {}))
     _metadata = combine_metadata(superior.get('metadata', {}), subordinate.get('metadata', {}))
     if _metadata:
         superior['metadata'] = _metadata
-- 
2.43.0


From 1e65a34191efee82acd4d7c5fb6b244bbff56047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:28 +0000
Subject: [PATCH 25/38] fix: cached statements that are Message instances
 expire too

---
 src/fedservice/entity_statement/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity_statement/cache.py b/src/fedservice/entity_statement/cache.py
index c4d218c..cce6836 100644
--- a/src/fedservice/entity_statement/cache.py
+++ b/src/fedservice/entity_statement/cache.py
@@ -1,4 +1,5 @@
 import logging
+from collections.abc import Mapping
 from typing import Any
 from typing import Optional
 
@@ -28,7 +29,7 @@ class ESCache(ImpExp):
         except KeyError:
             return None
         else:
-            if isinstance(statement, dict):
+            if isinstance(statement, Mapping):  # dict or Message
                 # verify that the statement is recent enough
                 _now = utc_time_sans_frac()
                 if _now < (statement["exp"] - self.allowed_delta):
-- 
2.43.0


From 2cd5c4aa0da8c7d015ce24f5519a2096675a1e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 26/38] fix: a cached entity statement can not be taken for one
 about another entity

---
 src/fedservice/entity/function/trust_chain_collector.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/trust_chain_collector.py b/src/fedservice/entity/function/trust_chain_collector.py
index 1996bd9..66d33af 100644
--- a/src/fedservice/entity/function/trust_chain_collector.py
+++ b/src/fedservice/entity/function/trust_chain_collector.py
@@ -57,12 +57,17 @@ def get_endpoint(endpoint_type, config):
     return _fe.get(f"federation_{endpoint_type}_endpoint")
 
 
+def escape(entity_id):
+    # the separators must not appear in the identifiers
+    return entity_id.replace("%", "%25").replace("!", "%21")
+
+
 def cache_key(authority, entity):
-    return f"{authority}!!{entity}"
+    return f"{escape(authority)}!!{escape(entity)}"
 
 
 def time_key(authority, entity):
-    return f"{authority}!exp!{entity}"
+    return f"{escape(authority)}!exp!{escape(entity)}"
 
 
 class TrustChainCollector(Function):
-- 
2.43.0


From 55e54c0d8e445b7546063b075f17c12815f7b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:43 +0000
Subject: [PATCH 27/38] fix: trust mark owners must be declared by the trust
 anchor itself

---
 src/fedservice/entity/function/trust_mark_verifier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/entity/function/trust_mark_verifier.py b/src/fedservice/entity/function/trust_mark_verifier.py
index c92fa03..e2041e9 100644
--- a/src/fedservice/entity/function/trust_mark_verifier.py
+++ b/src/fedservice/entity/function/trust_mark_verifier.py
@@ -2,12 +2,14 @@ import logging
 from typing import Callable
 from typing import Optional
 
+from cryptojwt import JWT
 from cryptojwt import KeyJar
 from cryptojwt.jws.jws import factory
 from idpyoidc.key_import import import_jwks
 
 from fedservice import message
 from fedservice.entity import apply_policies
+from fedservice.entity.function import collect_trust_chains
 from fedservice.entity.function import Function
 from fedservice.entity.function import get_payload
 from fedservice.entity.function import get_verified_trust_chains
@@ -88,9 +90,11 @@ class TrustMarkVerifier(Function):
 
     def verify_delegation(self, trust_mark, trust_anchor_id):
         _federation_entity = get_federation_entity(self)
-        _collector = _federation_entity.function.trust_chain_collector
+        # Only what the trust anchor has signed with the keys it is known by counts
+        _, _signed_ta_ec = collect_trust_chains(_federation_entity, trust_anchor_id)
+        _ta_ec = JWT(key_jar=_federation_entity.get_attribute('keyjar')).unpack(_signed_ta_ec)
         # Deal with the delegation
-        ta_fe_metadata = _collector.get_metadata(trust_anchor_id)['federation_entity']
+        ta_fe_metadata = _ta_ec['metadata']['federation_entity']
 
         if trust_mark['id'] not in ta_fe_metadata['trust_mark_issuers']:
             return None
-- 
2.43.0


From 37fa3829fba3337e47f0fe6cd39f527e3b7d9280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:43 +0000
Subject: [PATCH 28/38] fix: a trust mark issued by another entity has no
 status here

---
 src/fedservice/trust_mark_entity/server/trust_mark_status.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/trust_mark_entity/server/trust_mark_status.py b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
index d5a86d7..e6a1c26 100644
--- a/src/fedservice/trust_mark_entity/server/trust_mark_status.py
+++ b/src/fedservice/trust_mark_entity/server/trust_mark_status.py
@@ -38,7 +38,9 @@ class TrustMarkStatus(Endpoint):
 
         if 'trust_mark' in request:
             _mark = _trust_mark_issuer.unpack_trust_mark(request['trust_mark'])
-            if _trust_mark_issuer.find(_mark['id'], _mark['sub']):
+            # Only Trust Marks issued by this entity can be active here
+            if _mark['iss'] == _trust_mark_issuer.entity_id and \
+                    _trust_mark_issuer.find(_mark['id'], _mark['sub']):
                 return {'response_args': {'active': True}}
         else:
             if 'sub' in request:
-- 
2.43.0


From cec65e66a1b5f9018bd562f8ef3c153a5285cd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:58 +0000
Subject: [PATCH 29/38] fix: listing subordinates must not change their
 registered keys

---
 src/fedservice/entity/server/list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index 6335f22..a3a14db 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import logging
 
@@ -96,7 +97,8 @@ class List(Endpoint):
             if not _entity_configuration:
                 continue
             # Verify signature with the keys I have
-            keyjar = import_jwks(keyjar, conf['jwks'], entity_id)
+            # A copy since importing keys modifies the key descriptions
+            keyjar = import_jwks(keyjar, copy.deepcopy(conf['jwks']), entity_id)
             _jwt = JWT(key_jar=keyjar)
             _ec = _jwt.unpack(_entity_configuration)
             sub[entity_id] = _ec
-- 
2.43.0


From b092f88089e4489497c5b197ca5a8d261e26f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:34 +0000
Subject: [PATCH 30/38] fix: extras that are not marked critical must not make
 a statement invalid

---
 src/fedservice/message.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index fd84528..aba1611 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -341,7 +341,7 @@ class Policy(Message):
                 if _known:
                     if set(_known).issuperset(set(_musts)) is False:
                         raise UnknownCriticalExtension(_musts.difference(set(_known)))
-                else:
+                elif _musts:
                     raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))
 
 
@@ -435,7 +435,7 @@ class EntityStatement(JsonWebToken):
                 if _known:
                     if set(_known).issuperset(set(_musts)) is False:
                         raise UnknownCriticalExtension(_musts.difference(set(_known)))
-                else:
+                elif _musts:
                     raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))
 
         _metadata_policy = self.get('metadata_policy')
-- 
2.43.0


From 6d3e3f6e88a74f31485a16d2df50269a6c0b2217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:22 +0000
Subject: [PATCH 31/38] fix: verifying a metadata policy failed on the
 operators value and default

---
 src/fedservice/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fedservice/message.py b/src/fedservice/message.py
index aba1611..e6f5317 100644
--- a/src/fedservice/message.py
+++ b/src/fedservice/message.py
@@ -368,7 +368,8 @@ class MetadataPolicy(Message):
     def verify(self, **kwargs):
         for typ, _policy in self.items():
             for attr, item in _policy.items():
-                _p = Policy(**item)
+                # These two can be of any type, there is nothing to verify
+                _p = Policy(**{k: v for k, v in item.items() if k not in ["value", "default"]})
                 _p.verify(**kwargs)
 
 
-- 
2.43.0


From c1a55aeb8ac6009b8168cd464000f49c8902b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:29 +0000
Subject: [PATCH 32/38] fix: a trust chain with an expired statement is not a
 verified trust chain

---
 src/fedservice/entity/function/verifier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fedservice/entity/function/verifier.py b/src/fedservice/entity/function/verifier.py
index 52f0acf..3b47a75 100644
--- a/src/fedservice/entity/function/verifier.py
+++ b/src/fedservice/entity/function/verifier.py
@@ -148,6 +148,10 @@ class TrustChainVerifier(Function):
 
         trust_chain = TrustChain(exp=_expires_at, verified_chain=verified_trust_chain)
 
+        if trust_chain.is_expired():
+            logger.warning("Trust chain has expired")
+            return None
+
         iss_path = [x['iss'] for x in verified_trust_chain]
         trust_chain.anchor = iss_path[0]
         iss_path.reverse()
-- 
2.43.0


From e12c9f85af2ffa18f48c0bb90469adbff08b235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:27 +0000
Subject: [PATCH 33/38] fix: a trust mark filter that is not set filters
 nothing in the subordinate listing

---
 src/fedservice/entity/server/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/entity/server/list.py b/src/fedservice/entity/server/list.py
index a3a14db..6b17519 100644
--- a/src/fedservice/entity/server/list.py
+++ b/src/fedservice/entity/server/list.py
@@ -72,7 +72,7 @@ class List(Endpoint):
                 matched_entity_ids.add(entity_id)
 
             # I don't expect to know about trust marks from the registration
-            if "trust_marked" in request or "trust_mark_id" in request:
+            if request.get("trust_marked") or request.get("trust_mark_id"):
                 subordinate_conf = self.collect_subordinates()
                 matched_entity_ids.intersection_update(
                     self.filter(subordinates=subordinate_conf,
-- 
2.43.0


From c2e1cb6da361311a47109cfeccbf82759b42aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:30 +0000
Subject: [PATCH 34/38] fix: looking up a client's keys must not re-register a
 client registered some other way

---
 src/fedservice/appserver/oauth2/authorization.py        | 7 +++++++
 src/fedservice/appserver/oauth2/pushed_authorization.py | 7 +++++++
 src/fedservice/appserver/oidc/authorization.py          | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/src/fedservice/appserver/oauth2/authorization.py b/src/fedservice/appserver/oauth2/authorization.py
index 58d908a..8b14c92 100644
--- a/src/fedservice/appserver/oauth2/authorization.py
+++ b/src/fedservice/appserver/oauth2/authorization.py
@@ -47,6 +47,13 @@ class Authorization(authorization.Authorization):
         return request
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        client_info = _context.cdb.get(iss)
+        # A client that is registered some other way must not be registered anew
+        if client_info is not None:
+            return None
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
diff --git a/src/fedservice/appserver/oauth2/pushed_authorization.py b/src/fedservice/appserver/oauth2/pushed_authorization.py
index fb8579d..a42290c 100644
--- a/src/fedservice/appserver/oauth2/pushed_authorization.py
+++ b/src/fedservice/appserver/oauth2/pushed_authorization.py
@@ -40,6 +40,13 @@ class PushedAuthorization(Authorization):
         self.allowed_targets.append("")
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        client_info = _context.cdb.get(iss)
+        # A client that is registered some other way must not be registered anew
+        if client_info is not None:
+            return None
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, entity_id: str, provided_trust_chain: List[str]):
diff --git a/src/fedservice/appserver/oidc/authorization.py b/src/fedservice/appserver/oidc/authorization.py
index 97c4327..d811b87 100644
--- a/src/fedservice/appserver/oidc/authorization.py
+++ b/src/fedservice/appserver/oidc/authorization.py
@@ -47,6 +47,13 @@ class Authorization(authorization.Authorization):
         return request
 
     def find_client_keys(self, iss):
+        _context = self.upstream_get("context")
+        client_info = _context.cdb.get(iss)
+        # A client that is registered some other way must not be registered anew
+        if client_info is not None and "automatic_registered" not in client_info:
+            return None
+        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):
+            return None
         return self.do_automatic_registration(iss, [])
 
     def do_automatic_registration(self, client_entity_id: str, provided_trust_chain: List[str]):
-- 
2.43.0


From 6112414912e1b5e45a4ea0077c7ce314c346939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:38 +0000
Subject: [PATCH 35/38] fix: file based fetch leaves out the keys of a
 subordinate that is named by a percent-encoded entity ID

The keys are loaded under the entity ID but were exported under the pattern applied to the encoded ID.
A network location that happens to start with 'https' is not an entity ID either.
---
 src/fedservice/fetch_entity_statement/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fedservice/fetch_entity_statement/__init__.py b/src/fedservice/fetch_entity_statement/__init__.py
index 21e3ef2..ea6cc71 100644
--- a/src/fedservice/fetch_entity_statement/__init__.py
+++ b/src/fedservice/fetch_entity_statement/__init__.py
@@ -28,10 +28,13 @@ class FetchEntityStatement:
     def create_entity_statement(self, sub, **kwargs):
         _info = self.gather_info(sub)
         _info.update(kwargs)
-        _info['jwks'] = self.keyjar.export_jwks(issuer_id=self.make_entity_id(sub))
-        if sub.startswith("https"):
-            return create_entity_statement(self.make_entity_id(self.iss), unquote_plus(sub),
-                                           self.keyjar, **_info)
-
-        return create_entity_statement(self.make_entity_id(self.iss), self.make_entity_id(sub),
+        # The subject is a percent-encoded entity ID or a network location
+        if sub.startswith("https%3A%2F%2F"):
+            _sub_id = unquote_plus(sub)
+        else:
+            _sub_id = self.make_entity_id(sub)
+
+        # The keys are stored under the entity ID of the subject
+        _info['jwks'] = self.keyjar.export_jwks(issuer_id=_sub_id)
+        return create_entity_statement(self.make_entity_id(self.iss), _sub_id,
                                        self.keyjar, **_info)
-- 
2.43.0


From 903191c7e1e0666fbf33d1955a46819c8dd3d372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:38 +0000
Subject: [PATCH 36/38] fix: FSPublisher answers a fetch request with the
 subject as issuer and the issuer as subject

_create_entity_statement takes the entity the statement is about first and the issuer last.
---
 src/fedservice/fetch_entity_statement/fs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/fetch_entity_statement/fs2.py b/src/fedservice/fetch_entity_statement/fs2.py
index a59c346..f49bf73 100644
--- a/src/fedservice/fetch_entity_statement/fs2.py
+++ b/src/fedservice/fetch_entity_statement/fs2.py
@@ -101,6 +101,6 @@ class FSPublisher():
         else:
             _qs = parse_qs(p.query)
             pt = urlparse(_qs['sub'][0])
-            _jws = self._create_entity_statement(p.netloc, pt.netloc)
+            _jws = self._create_entity_statement(pt.netloc, p.netloc)
 
         return MockResponse(200, f"{_jws}", headers={'Content-Type': "application/jose"})
-- 
2.43.0


From 9b398bd2d62791798cd1df6b783e3a42c7cbc9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:38 +0000
Subject: [PATCH 37/38] fix: the issuer's own keys are loaded as the subject's
 when they are loaded late

They belong to the issuer. Loaded under the subject's entity ID they end up in the statement as the subject's keys.
---
 src/fedservice/fetch_entity_statement/fs2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fedservice/fetch_entity_statement/fs2.py b/src/fedservice/fetch_entity_statement/fs2.py
index f49bf73..b35562b 100644
--- a/src/fedservice/fetch_entity_statement/fs2.py
+++ b/src/fedservice/fetch_entity_statement/fs2.py
@@ -40,7 +40,7 @@ class FSFetchEntityStatement(FetchEntityStatement):
         iss_id = self.make_entity_id(self.iss)
         logger.debug('Statement Issuer ID: %s', iss_id)
         if iss_id not in self.keyjar:
-            self.load_jwks(self.iss, self.iss, self.make_entity_id(sub))
+            self.load_jwks(self.iss, self.iss, iss_id)
 
         if sub.startswith("https%3A%2F%2F"):
             sub_id = unquote_plus(sub)
-- 
2.43.0


From ecaa829b839820ee6344b606a5ee55a5639fbeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:46 +0000
Subject: [PATCH 38/38] fix: an entity configuration states the trust marks
 themselves, also when they are configured as a file or a callable

---
 src/fedservice/appclient/oidc/registration.py        | 2 +-
 src/fedservice/entity/server/entity_configuration.py | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fedservice/appclient/oidc/registration.py b/src/fedservice/appclient/oidc/registration.py
index 65457c0..5092a73 100644
--- a/src/fedservice/appclient/oidc/registration.py
+++ b/src/fedservice/appclient/oidc/registration.py
@@ -73,7 +73,7 @@ class Registration(registration.Registration):
 
         kwargs = {}
         if _context.trust_marks:
-            kwargs["trust_marks"] = _context.trust_marks
+            kwargs["trust_marks"] = _context.get_trust_marks()
 
         _jws = _context.create_entity_statement(
             iss=_entity_id,
diff --git a/src/fedservice/entity/server/entity_configuration.py b/src/fedservice/entity/server/entity_configuration.py
index b3fea94..cd50da7 100644
--- a/src/fedservice/entity/server/entity_configuration.py
+++ b/src/fedservice/entity/server/entity_configuration.py
@@ -1,4 +1,3 @@
-from typing import Callable
 from typing import Optional
 from typing import Union
 
@@ -38,11 +37,9 @@ class EntityConfiguration(Endpoint):
         else:
             _metadata = _fed_entity.get_metadata()
 
-        if _fed_entity.context.trust_marks:
-            if isinstance(_fed_entity.context.trust_marks, Callable):
-                args = {"trust_marks": _fed_entity.context.get_trust_marks()}
-            else:
-                args = {"trust_marks": _fed_entity.context.trust_marks}
+        _trust_marks = _fed_entity.context.get_trust_marks()
+        if _trust_marks:
+            args = {"trust_marks": _trust_marks}
         else:
             args = {}
 
-- 
2.43.0

