ST = "entity_statement/statement.py"
EN = "entity/__init__.py"
TD = "trust_mark_entity/__init__.py"
CA, TC = "entity_statement/cache.py", "entity/function/trust_chain_collector.py"
PO, PP = "entity/function/policy.py", "entity/function/policy_operator.py"
CO = "entity_statement/constraints.py"
FES, FS2 = "fetch_entity_statement/__init__.py", "fetch_entity_statement/fs2.py"
ESC = "entity/client/entity_statement.py"
FI = "entity/function/__init__.py"
TV = "entity/function/trust_mark_verifier.py"
TE, TSS, TLS, TMS = "trust_mark_entity/entity.py", *("trust_mark_entity/server/" + n + ".py" for n in ("trust_mark_status", "trust_mark_list", "trust_mark"))
RG = "appserver/oauth2/registration.py"
OIA, OAA, PAR, OIR, OAR = (f"appserver/{n}.py" for n in ("oidc/authorization", "oauth2/authorization", "oauth2/pushed_authorization", "oidc/registration", "oauth2/registration"))
CLO, CL2 = "appclient/oidc/registration.py", "appclient/oauth2/registration.py"
MSGP = "message.py"
FET = "entity/server/fetch.py"
RS, FT, LI = (f"entity/server/{n}.py" for n in ("resolve", "fetch", "list"))
VF = "entity/function/verifier.py"
CR, CX, ECF = "entity_statement/create.py", "entity/context.py", "entity/server/entity_configuration.py"
MUTATIONS = [
    # (property, contract name contains, file, old, new, "bad" | "same")
    ("C20", "chains2dict", ST, "if len(trust_chain.verified_chain) < len(", "if len(trust_chain.verified_chain) > len(", "bad"),
    ("C20", "chains2dict", ST, "if len(trust_chain.verified_chain) < len(", "if len(trust_chain.verified_chain) <= len(", "same"),
    ("C20", "chains2dict", ST, "        if trust_chain.anchor in res:\n            if", "        if trust_chain.anchor in res or not res:\n            if", "bad"),
    ("C20", "chains2dict", ST, "        else:\n            res[trust_chain.anchor] = trust_chain\n    return res",
     "        else:\n            res.setdefault(trust_chain.anchor, trust_chain)\n    return dict(res)", "same"),
    ("C20", "save_trust", "__init__.py", "            federation_context.trust_chain[_ent].update({ta: tc})",
     "            federation_context.trust_chain[_ent] = {ta: tc}", "bad"),
    ("C20", "save_trust", "__init__.py", "            federation_context.trust_chain[_ent].update({ta: tc})",
     "            federation_context.trust_chain[_ent].setdefault(ta, tc)", "bad"),
    ("C20", "save_trust", "__init__.py", "            federation_context.trust_chain[_ent].update({ta: tc})",
     "            federation_context.trust_chain[_ent][ta] = tc", "same"),
    ("C20", "save_trust", "__init__.py", "        _ent = tc.iss_path[0]", "        _ent = ta", "bad"),
    ("C20", "save_trust", "__init__.py", "        federation_context.trust_chain = {}\n", "        pass\n", "same"),
    ("C20", "save_trust", "__init__.py", "            federation_context.trust_chain[_ent].update({ta: tc})",
     "            federation_context.trust_chain[_ent].clear()\n            federation_context.trust_chain[_ent].update({ta: tc})", "bad"),
    ("C20", "get_trust_chain", "__init__.py", "return trust_info.get(trust_anchor, None)", "return trust_info.get(trust_anchor, trust_info)", "bad"),
    ("C20", "get_trust_chain", "__init__.py", "return trust_info.get(trust_anchor, None)", "return trust_info.pop(trust_anchor, None)", "bad"),
    ("C20", "get_trust_chain", "__init__.py", "return trust_info.get(trust_anchor, None)",
     "return trust_info[trust_anchor] if trust_anchor in trust_info else None", "same"),
    ("C20", "get_trust_chain", "__init__.py", "federation_context.trust_chain.get(entity_id, \"\")", "federation_context.trust_chain.setdefault(entity_id, {})", "bad"),
    ("C20", "export_chain", ST, "return list(reversed(self.verified_chain))", "self.verified_chain.reverse()\n        return self.verified_chain", "bad"),
    ("C20", "export_chain", ST, "return list(reversed(self.verified_chain))", "return self.verified_chain[::-1]", "same"),
    ("C20", "export_chain", ST, "return list(reversed(self.verified_chain))", "return list(self.verified_chain)", "bad"),
    ("C20", "export_chain", ST, "return list(reversed(self.verified_chain))", "res = []\n        for s in self.verified_chain:\n            res.insert(0, s)\n        return res", "same"),
    ("C20", "pick_trust_chain", EN, "        if len(trust_chains) == 1:", "        if len(trust_chains) <= 2:", "bad"),
    ("C20", "pick_trust_chain", EN, "            for fid in self.context.tr_priority:\n                for trust_chain in trust_chains:",
     "            for trust_chain in trust_chains:\n                for fid in self.context.tr_priority:", "bad"),
    ("C20", "pick_trust_chain", EN, "        elif self.context.tr_priority:\n            # Go by priority\n            for fid in",
     "        else:\n            for fid in", "same"),
    ("C20", "pick_trust_chain", EN, "# in the priority list. So, just pick one\n        return trust_chains[0]", "# x\n        return trust_chains[-1]", "same"),
    ("C20", "pick_trust_chain", EN, "# in the priority list. So, just pick one\n        return trust_chains[0]", "# x\n        return None", "bad"),
    ("C20", "pick_trust_chain", EN, "            for fid in self.context.tr_priority:\n                for trust_chain in trust_chains:\n                    if trust_chain.anchor == fid:\n                        return trust_chain\n",
     "            for fid in self.context.tr_priority:\n                found = [c for c in trust_chains if c.anchor == fid]\n                if found:\n                    return found[0]\n", "same"),
    ("C20", "pick_trust_chain", EN, "            for fid in self.context.tr_priority:\n                for trust_chain in", "            for fid in reversed(self.context.tr_priority):\n                for trust_chain in", "bad"),
    ("C20", "pick_from_stored", EN, "        if len(_tas) == 1:", "        if len(_tas) < 3:", "bad"),
    ("C20", "pick_from_stored", EN, "            for ta_id in self.context.tr_priority:\n                if ta_id in _trust_chains:", "            for ta_id in _tas:\n                if ta_id in self.context.tr_priority:", "bad"),
    ("C22", "create_entity_statement (", CR, "    if metadata_policy:\n        msg", "    elif metadata_policy:\n        msg", "bad"),
    ("C22", "create_entity_statement (", CR, "        if \"jwks\" in kwargs:", "        if kwargs.get(\"jwks\") and kwargs.get(\"foo\"):", "bad"),
    ("C22", "create_entity_statement (", CR, "key_jar.export_jwks()", "key_jar.export_jwks(private=True)", "bad"),
    ("C22", "create_entity_statement (", CR, "key_jar.export_jwks()", "key_jar.export_jwks(False)", "same"),
    ("C22", "create_entity_statement (", CR, "msg['authority_hints'] = authority_hints()", "msg['authority_hints'] = authority_hints", "bad"),
    ("C22", "create_entity_statement (", CR, "iss=iss, lifetime=lifetime", "iss=iss, lifetime=lifetime or 86400", "bad"),
    ("C22", "create_entity_statement (", CR, "    if kwargs:\n        msg.update(kwargs)", "    for k, v in kwargs.items():\n        if v:\n            msg[k] = v", "bad"),
    ("C22", "create_entity_statement (", CR, "    if kwargs:\n        msg.update(kwargs)", "    for k, v in kwargs.items():\n        msg[k] = v", "same"),
    ("C22", "create_entity_statement (", CR, "    if aud:\n        msg['aud'] = aud\n\n    if constraints:\n        msg['constraints'] = constraints\n",
     "    for name, val in [('aud', aud), ('constraints', constraints)]:\n        if val:\n            msg[name] = val\n", "same"),
    ("C22", "create_entity_statement (", CR, "    if aud:\n        msg['aud'] = aud\n\n    if constraints:\n        msg['constraints'] = constraints\n",
     "    for name, val in [('aud', aud), ('constraints', constraints)]:\n        if not val:\n            break\n        msg[name] = val\n", "bad"),
    ("C22", "FederationContext", CX, "        if not lifetime:\n            lifetime", "        if lifetime is None:\n            lifetime", "bad"),
    ("C22", "FederationContext", CX, "        if not authority_hints:\n            authority_hints", "        if self.authority_hints:\n            authority_hints", "bad"),
    ("C22", "FederationContext", CX, "        _trust_marks = kwargs.get(\"trust_marks\")\n        if not _trust_marks:\n            _trust_marks = self.get_trust_marks()",
     "        _trust_marks = kwargs.get(\"trust_marks\") or self.get_trust_marks()", "same"),
    ("C22", "FederationContext", CX, "        if jwks:\n            kwargs[\"jwks\"] = jwks\n        else:\n            if", "        if jwks:\n            kwargs.setdefault(\"jwks\", jwks)\n        if not jwks:\n            if", "same"),
    ("C22", "EntityConfiguration", ECF, "sub=_entity_id,", "sub=_entity_id + '/',", "bad"),
    ("C22", "EntityConfiguration", ECF, "args = {\"trust_marks\": _trust_marks}", "args = {}", "bad"),
    ("C22", "EntityConfiguration", ECF, "if _fed_entity.upstream_get:", "if _server.upstream_get:", "bad"),
    ("C05", "no fixed value above, no", PO, "    return list(set1.union(set2))", "    return list(set1.intersection(set2))", "bad"),
    ("C05", "no fixed value above, no", PO, "        if not superior[policy] and child['essential']:\n            return True\n        else:\n            return superior[policy]",
     "        return bool(superior[policy] or child[policy])", "same"),
    ("C05", "no fixed value above, no", PO, "        if superior['default'] == child['default']:\n            return superior['default']\n        else:\n            raise PolicyError(\"Not allowed to change default\")",
     "        return child['default']", "bad"),
    ("C05", "no fixed value above, no", PO, "def combine_one_of(s1, s2):\n    return list(set(s1).intersection(set(s2)))", "def combine_one_of(s1, s2):\n    return [v for v in s1 if v in s2]", "same"),
    ("C05", "a fixed value above, no", PO, "                    return {\"value\": superior[\"value\"], \"essential\": child[\"essential\"]}",
     "                    return {\"value\": child.get(\"value\", superior[\"value\"]), \"essential\": child[\"essential\"]}", "same"),
    ("C05", "a fixed value above, no", PO, "                if len(child_set) == 1:\n", "                if len(child_set) <= 2:\n", "bad"),
    ("C05", "no fixed value above, a", PO, "if policy in rule and not _value.issubset(rule[policy]):", "if policy in superior and not _value.issubset(superior[policy]):", "same"),
    ("C05", "combine_metadata", PO, "                if superior_metadata[key] != subordinate_metadata[key]:", "                if not superior_metadata[key] and superior_metadata[key] != subordinate_metadata[key]:", "bad"),
    ("C05", "combine_metadata", PO, "        _metadata = superior_metadata.copy()\n        _metadata.update(subordinate_metadata)", "        _metadata = {**superior_metadata, **subordinate_metadata}", "same"),
    ("C05", "combine_metadata", PO, "        _metadata = superior_metadata.copy()\n        _metadata.update(subordinate_metadata)", "        _metadata = superior_metadata\n        _metadata.update(subordinate_metadata)", "bad"),
    ("C05", "verify_unchanged", PO, "        if not same_value(_metadata[claim], superior_metadata[claim]):", "        if _metadata[claim] and not same_value(_metadata[claim], superior_metadata[claim]):", "bad"),
    ("C05", "verify_unchanged", PO, "        return all(v in val2 for v in val1) and all(v in val1 for v in val2)", "        return all(v in val2 for v in val1)", "bad"),
    ("C05", "verify_unchanged", PO, "        return all(v in val2 for v in val1) and all(v in val1 for v in val2)", "        return set(val1) == set(val2)", "same"),
    ("C05", "combine", PO, "            _metadata_policy[claim] = combine_claim_policy(_sup_policy[claim], _sub_policy[claim])", "            _metadata_policy[claim] = combine_claim_policy(_sub_policy[claim], _sup_policy[claim])", "bad"),
    ("C05", "combine", PO, "        for claim in super_set.difference(child_set):\n            _metadata_policy[claim] = _sup_policy[claim]\n\n", "", "bad"),
    ("C05", "combine", PO, "    verify_unchanged(superior.get('metadata', {}), subordinate.get('metadata_policy', {}))\n", "    verify_unchanged(subordinate.get('metadata', {}), subordinate.get('metadata_policy', {}))\n", "bad"),
    ("C06", "one claim", PP, "            metadata[claim] = metadata_policy[claim][self.name]\n\n\nclass SubsetOf", "            metadata[claim] = metadata_policy[claim][self.name]\n        elif not metadata[claim]:\n            metadata[claim] = metadata_policy[claim][self.name]\n\n\nclass SubsetOf", "bad"),
    ("C06", "one claim", PP, "            if set(metadata_policy[claim][self.name]).difference(union(metadata[claim], [])):", "            if not set(metadata_policy[claim][self.name]).issubset(union(metadata[claim], [])):", "same"),
    ("C06", "one claim", PP, "            if set(metadata_policy[claim][self.name]).difference(union(metadata[claim], [])):", "            if not set(metadata_policy[claim][self.name]).intersection(union(metadata[claim], [])):", "bad"),
    ("C06", "one claim", PP, "                if metadata[claim] in metadata_policy[claim][self.name]:\n                    pass\n                else:\n", "                if metadata[claim] not in metadata_policy[claim][self.name]:\n", "same"),
    ("C06", "one claim", PP, "            metadata[claim] = list(union(metadata[claim], metadata_policy[claim][self.name]))", "            metadata[claim] = metadata_policy[claim][self.name]", "bad"),
    ("C06", "one claim", PP, "POLICY_APPLICATION_ORDER = ['value', 'add', 'default', 'one_of', 'subset_of', 'superset_of', 'essential']", "POLICY_APPLICATION_ORDER = ['value', 'add', 'default', 'one_of', 'superset_of', 'subset_of', 'essential']", "bad"),
    ("C06", "one claim", PP, "            if _val:\n                metadata[claim] = list(_val)\n            else:\n                raise PolicyError(f\"{metadata[claim]} not subset", "            if _val:\n                metadata[claim] = list(_val)\n            elif metadata[claim]:\n                raise PolicyError(f\"{metadata[claim]} not subset", "same"),
    ("C06", "apply_metadata_policy (one claim)", PP, "            if metadata_policy[claim][self.name] == True:", "            if metadata_policy[claim][self.name] == True and 'subset_of' in metadata_policy[claim]:", "bad"),
    ("C06", "apply_policy", PO, "        metadata = metadata.copy()\n", "", "bad"),
    ("C06", "apply_policy", PO, "            metadata.update(_metadata)\n", "            for k, v in _metadata.items():\n                metadata.setdefault(k, v)\n", "bad"),
    ("C06", "apply_policy", PO, "            metadata.update(_metadata)\n", "            for k, v in _metadata.items():\n                metadata[k] = v\n", "same"),
    ("C07", "gather", PO, "        for es in chain[1:]:", "        for es in chain[2:]:", "bad"),
    ("C07", "gather", PO, "        for es in chain[1:]:", "        for n, es in enumerate(chain):\n            if n == 0:\n                continue", "same"),
    ("C07", "gather", PO, "            _rule = combine(_rule, _sub_policy)", "            _rule = combine(_sub_policy, _rule)", "bad"),
    ("C07", "gather", PO, "                continue\n\n            _overlap", "                break\n\n            _overlap", "bad"),
    ("C07", "gather", PO, "            if _overlap:  # Not allowed", "            if len(_overlap) > 1:  # Not allowed", "bad"),
    ("C07", "gather", PO, "                _rule[_item] = chain[0][_item][entity_type]", "                _rule[_item] = chain[-1][_item][entity_type]", "bad"),
    ("C07", "_policy", PO, "self.gather_policies(trust_chain.verified_chain[:-1], entity_type)", "self.gather_policies(trust_chain.verified_chain[:-2], entity_type)", "bad"),
    ("C07", "_policy", PO, "self.gather_policies(trust_chain.verified_chain[:-1], entity_type)", "self.gather_policies(trust_chain.verified_chain[0:len(trust_chain.verified_chain) - 1], entity_type)", "same"),
    ("C07", "_policy", PO, "            metadata = trust_chain.verified_chain[-1]['metadata'][entity_type]", "            metadata = trust_chain.verified_chain[-1]['metadata'].get(entity_type, {})", "bad"),
    ("C07", "__call__ (every", PO, "                    trust_chain.metadata[_type] = self._policy(trust_chain, _type)", "                    trust_chain.metadata.setdefault(_type, self._policy(trust_chain, _type))", "bad"),
    ("C07", "__call__ (every", PO, "                for _type in trust_chain.verified_chain[-1]['metadata'].keys():", "                for _type in list(trust_chain.verified_chain[-1]['metadata']):", "same"),
    ("C07", "__call__ (every", PO, "                for _type in trust_chain.verified_chain[-1]['metadata'].keys():", "                for _type in trust_chain.verified_chain[0]['metadata'].keys():", "bad"),
    ("C02", "more_specific", CO, "    if len(a_part) >= len(b_part):", "    if len(a_part) > len(b_part):", "bad"),
    ("C02", "more_specific", CO, "                if _y == \"\":\n                    return True\n                return False\n", "                return _y == \"\"\n", "same"),
    ("C02", "more_specific", CO, "        b_part.reverse()\n", "", "bad"),
    ("C02", "more_specific", CO, "                if _y == \"\":\n", "                if _x == \"\":\n", "bad"),
    ("C02", "more_specific", CO, "        a_part.reverse()\n        b_part.reverse()\n        for _x, _y in zip(a_part, b_part):", "        for _x, _y in zip(a_part[::-1], b_part[::-1]):", "same"),
    ("C02", "permitted", CO, "    for perm in permitted_id:\n        if more_specific(subject_id, perm):\n            return True\n    return False", "    return any(more_specific(subject_id, p) for p in permitted_id)", "same"),
    ("C02", "permitted", CO, "    for perm in permitted_id:\n        if more_specific(subject_id, perm):\n            return True\n    return False", "    return all(more_specific(subject_id, p) for p in permitted_id)", "bad"),
    ("C02", "update_specs", CO, "    for _old in old_constraints:\n        _replaced = False\n", "    for _old in old_constraints:\n", "bad"),
    ("C02", "update_specs", CO, "            if more_specific(_new, _old):\n                _updated.append(_new)\n                _replaced", "            if more_specific(_old, _new):\n                _updated.append(_new)\n                _replaced", "bad"),
    ("C02", "update_specs", CO, "            if more_specific(_new, _old):\n                _updated.append(_new)\n                _replaced = True\n\n        if not _replaced:\n            _updated.append(_old)", "            if more_specific(_new, _old):\n                _updated.append(_new)\n                _replaced = True\n        if _replaced:\n            continue\n        _updated.append(_old)", "same"),
    ("C02", "update_specs", CO, "                _updated.append(_new)\n                _replaced = True\n", "                _updated.append(_new)\n                _replaced = True\n                break\n", "bad"),
    ("C02", "add_constraints", CO, "    for key in ['permitted','excluded']:", "    for key in ['permitted']:", "bad"),
    ("C02", "add_constraints", CO, "            if not new_constraints.get(key):\n                continue\n", "            if not new_constraints.get(key):\n                break\n", "bad"),
    ("C02", "update_naming", CO, "naming_constraints[key] = new_constraints[key][:]", "naming_constraints[key] = list(new_constraints[key])", "same"),
    ("C02", "meets_restrictions", CO, "            if not permitted(statement['sub'], naming_constraints[\"permitted\"]):\n                return False\n\n    # Now", "            if not permitted(statement['sub'], naming_constraints[\"permitted\"]):\n                break\n\n    # Now", "bad"),
    ("C02", "meets_restrictions", CO, "    statement = trust_chain[-1]\n", "    statement = trust_chain[-1] if len(trust_chain) < 3 else trust_chain[-2]\n", "bad"),
    ("C02", "meets_restrictions", CO, "            _constraints = {}\n", "            continue\n", "bad"),
    ("C02", "meets_restrictions", CO, "        if 'excluded' in naming_constraints and naming_constraints['excluded']:\n            if excluded(statement['sub'], naming_constraints['excluded']):\n                return False\n\n        # If", "        _ex = naming_constraints.get('excluded')\n        if _ex and excluded(statement['sub'], _ex):\n            return False\n\n        # If", "same"),
    # C09
    ("C09", "ESCache", CA, "if _now < (statement[\"exp\"] - self.allowed_delta)", "if _now <= (statement[\"exp\"] - self.allowed_delta)", "bad"),
    ("C09", "ESCache", CA, "if _now < (statement[\"exp\"] - self.allowed_delta)", "if _now < statement[\"exp\"]", "bad"),
    ("C09", "ESCache", CA, "if _now < (statement[\"exp\"] - self.allowed_delta)", "if _now + self.allowed_delta < statement[\"exp\"]", "same"),
    ("C09", "ESCache", CA, "            if isinstance(statement, Mapping):", "            if isinstance(statement, list):", "bad"),
    ("C09", "ESCache", CA, "            if isinstance(statement, Mapping):", "            if isinstance(statement, dict):", "same"),
    ("C09", "ESCache", CA, "        return self[item] is not None", "        return item in self._db", "bad"),
    ("C09", "ESCache", CA, "                    del self._db[item]\n", "                    self._db.pop(item)\n", "same"),
    ("C09", "ESCache", CA, "                    del self._db[item]\n", "                    self._db = {}\n", "bad"),
    ("C09", "ESCache", CA, "                    del self._db[item]\n", "", "same"),
    ("C09", "ESCache", CA, "return default if statement is None else statement", "return self._db.get(key, default)", "same"),
    ("C09", "ESCache", CA, "        self._db[key] = value", "        self._db.setdefault(key, value)", "bad"),
    ("C09", "_get_entity_statement", TC, "if _now > (_exp - self.allowed_delta)", "if _now > (_exp + self.allowed_delta)", "bad"),
    ("C09", "_get_entity_statement", TC, "                del self.entity_statement_cache[_cache_key]\n", "", "bad"),
    ("C09", "_get_entity_statement", TC, "_time_key = time_key(authority, entity)", "_time_key = time_key(entity, authority)", "bad"),
    ("C09", "_get_entity_statement", TC, "self.entity_statement_cache[time_key(authority, entity)] = statement[\"exp\"]",
     "self.entity_statement_cache.__setitem__(time_key(authority, entity), statement[\"exp\"] + 3600)", "bad"),
    ("C09", "_get_entity_statement", TC, "                entity_statement = None\n\n        if", "                pass\n\n        if", "bad"),
    ("C09", "_get_entity_statement", TC, "            self.entity_statement_cache[_cache_key] = entity_statement\n", "            if fed_fetch_endpoint:\n                self.entity_statement_cache[_cache_key] = entity_statement\n", "same"),
    ("C09", "_get_entity_statement", TC, "_cache_key = cache_key(authority, entity)", "_cache_key = cache_key(entity, authority)", "bad"),
    ("C09", "too_old", TC, "if now >= statement[\"exp\"] - self.allowed_delta", "if now >= statement[\"exp\"]", "bad"),
    ("C09", "too_old", TC, "            return True\n        else:\n            return False", "            return True\n        return False", "same"),
    # C08
    ("C08", "collect_tree", TC, "                logger.warning(f\"Loop detected at {authority}\")\n                continue", "                break", "bad"),
    ("C08", "collect_tree", TC, "            if authority in seen:  # loop ?!", "            if authority in seen or len(superior) > 2:", "bad"),
    ("C08", "collect_tree", TC, "            if authority in seen:  # loop ?!", "            if authority == entity_id:", "bad"),
    ("C08", "collect_tree", TC, "            if authority in seen:  # loop ?!", "            if authority in seen or authority in superior:", "same"),
    ("C08", "collect_tree", TC, "            superior[authority] = self.collect_branch(entity_id, authority, seen,\n                                                      max_superiors, stop_at=stop_at)", "            superior[authority] = self.collect_branch(entity_id, authority, seen, max_superiors)", "bad"),
    ("C08", "collect_tree", TC, "            superior[authority] = self.collect_branch(entity_id, authority, seen,\n                                                      max_superiors, stop_at=stop_at)", "            branch = self.collect_branch(entity_id, authority, list(seen), stop_at=stop_at)\n            superior.update({authority: branch})", "same"),
    ("C08", "collect_tree", TC, "        for authority in entity_configuration['authority_hints']:", "        for authority in entity_configuration['authority_hints'][:max_superiors]:", "bad"),
    ("C08", "collect_tree", TC, "        elif entity_configuration['iss'] == stop_at:", "        elif entity_id == stop_at or entity_configuration['iss'] in self.trust_anchors:", "bad"),
    ("C08", "collect_tree", TC, "        for authority in entity_configuration['authority_hints']:", "        for authority in set(entity_configuration['authority_hints']):", "same"),
    ("C08", "collect_branch", TC, "        _seen.append(authority)", "        _seen.append(entity)", "bad"),
    ("C08", "collect_branch", TC, "            _seen = seen[:]\n", "            _seen = []\n", "bad"),
    ("C08", "collect_branch", TC, "            _seen = seen[:]\n", "            _seen = list(seen)\n", "same"),
    ("C08", "collect_branch", TC, "            _seen = seen[:]\n", "            _seen = seen\n", "bad"),
    ("C08", "collect_branch", TC, "if entity == authority and entity in self.trust_anchors:", "if entity in self.trust_anchors:", "bad"),
    ("C08", "collect_branch", TC, "self._get_entity_statement(entity, authority)", "self._get_entity_statement(authority, entity)", "bad"),
    ("C08", "collect_branch", TC, "                self.get_federation_fetch_endpoint(authority)\n                _entity_configuration = self.config_cache[authority]\n", "                pass\n", "bad"),
    ("C08", "collect_branch", TC, "                                                       stop_at=stop_at,\n", "", "bad"),
    ("C09", "__call__", TC, "if entity_config and not self.too_old(entity_config):", "if entity_config:", "same"),
    ("C09", "__call__", TC, "if entity_config and not self.too_old(entity_config):", "if entity_config and self.too_old(entity_config):", "bad"),
    ("C09", "__call__", TC, "            self.config_cache[entity_id] = entity_config\n", "", "bad"),
    ("C09", "__call__", TC, "            entity_config['_jws'] = signed_entity_config\n", "", "bad"),
    ("C09", "__call__", TC, "            self.config_cache[entity_id] = entity_config\n", "            self.config_cache[entity_config['iss']] = entity_config\n", "bad"),
    ("C09", "__call__", TC, "        entity_config = self.config_cache.get(entity_id, None)\n        if", "        entity_config = self.config_cache._db.get(entity_id)\n        if", "same"),
    ("C09", "__call__", TC, "        entity_config = self.config_cache.get(entity_id, None)\n        if entity_config and not self.too_old(entity_config):", "        entity_config = self.config_cache._db.get(entity_id)\n        if entity_config:", "bad"),
    ("C09", "__call__", TC, "return self.collect_tree(entity_id, entity_config, seen=seen, max_superiors=max_superiors,", "return self.collect_tree(entity_id, self.config_cache[entity_id], seen=seen, max_superiors=max_superiors,", "bad"),
    ("C09", "get_federation_fetch_endpoint", TC, "            self.config_cache[intermediate] = entity_config\n", "            if fed_fetch_endpoint:\n                self.config_cache[intermediate] = entity_config\n", "bad"),
    ("C09", "get_federation_fetch_endpoint", TC, "        _entity_config = self.config_cache[intermediate]\n", "        _entity_config = self.config_cache._db.get(intermediate)\n", "bad"),
    ("C09", "get_federation_fetch_endpoint", TC, "        _entity_config = self.config_cache[intermediate]\n", "        _entity_config = self.config_cache.get(intermediate, {})\n", "same"),
    ("C09", "get_federation_fetch_endpoint", TC, 'get_endpoint("fetch", _entity_config)', 'get_endpoint("resolve", _entity_config)', "bad"),
    # C11
    ("C11", "SimpleDB.add", TD, "            self._db[tm_info['id']][tm_info['sub']] = tm_info\n        else", "            self._db[tm_info['id']].setdefault(tm_info['sub'], tm_info)\n        else", "bad"),
    ("C11", "SimpleDB.add", TD, "            self._db[tm_info['id']][tm_info['sub']] = tm_info\n        else", "            self._db[tm_info['id']] = {tm_info['sub']: tm_info}\n        else", "bad"),
    ("C11", "SimpleDB.add", TD, "            self._db[tm_info['id']][tm_info['sub']] = tm_info\n        else", "            self._db[tm_info['id']].update({tm_info['sub']: tm_info})\n        else", "same"),
    ("C11", "SimpleDB.add", TD, "        if tm_info['id'] in self._db:\n            self._db[tm_info['id']][tm_info['sub']] = tm_info\n        else:\n            self._db[tm_info['id']] = {tm_info[\"sub\"]: tm_info}", "        self._db.setdefault(tm_info['id'], {})[tm_info['sub']] = tm_info", "same"),
    ("C11", "SimpleDB.find", TD, "if 'exp' in _tmi and utc_time_sans_frac() > _tmi['exp']:", "if 'exp' in _tmi and utc_time_sans_frac() < _tmi['exp']:", "bad"),
    ("C11", "SimpleDB.find", TD, "if 'exp' in _tmi and utc_time_sans_frac() > _tmi['exp']:", "if utc_time_sans_frac() > _tmi.get('exp', 0):", "bad"),
    ("C11", "SimpleDB.find", TD, "        _tmi = self._db.get(trust_mark_id, {}).get(sub, None)", "        _tmi = self._db[trust_mark_id].get(sub, None)", "bad"),
    ("C11", "SimpleDB.find", TD, "                if iat == _tmi[\"iat\"]:\n                    return True\n            else:", "                return iat >= _tmi['iat']\n            else:", "bad"),
    ("C11", "SimpleDB.list", TD, "            return [sub] if sub in _subs else []", "            return [sub]", "bad"),
    ("C11", "SimpleDB.list", TD, "        return list(_subs)", "        return list(_subs.keys())", "same"),
    ("C11", "SimpleDB.list", TD, "        if sub:\n            return [sub] if sub in _subs else []\n        return list(_subs)", "        return [s for s in _subs if not sub or s == sub]", "same"),
    ("C11", "FileDB.add", TD, "open(self.config[trust_mark_id], \"a\")", "open(self.config[trust_mark_id], \"w\")", "bad"),
    ("C11", "FileDB.add", TD, "            fp.write(json.dumps(tm_info) + '\\n')", "            fp.write(json.dumps(tm_info))", "bad"),
    ("C11", "FileDB.add", TD, "            fp.write(json.dumps(tm_info) + '\\n')", "            line = json.dumps(tm_info)\n            fp.write(f'{line}\\n')", "same"),
    ("C11", "FileDB.find", TD, "reversed(list(fp)):\n                _tmi = json.loads(line.rstrip())\n\n", "list(fp):\n                _tmi = json.loads(line.rstrip())\n\n", "bad"),
    ("C11", "FileDB.find", TD, "                        if now > _tmi[\"exp\"]:\n                            return False", "                        if now > _tmi[\"exp\"]:\n                            continue", "bad"),
    ("C11", "FileDB.find", TD, "                        if now > _tmi[\"exp\"]:\n                            return False", "                        return now <= _tmi[\"exp\"]", "same"),
    ("C11", "FileDB.find", TD, "        if trust_mark_id not in self.config:\n            return False\n", "", "bad"),
    ("C11", "FileDB.find", TD, "                if iat == tmi['iat']:\n                    return True\n            else:\n                return True", "                return iat == tmi['iat']\n            return True", "same"),
    ("C11", "FileDB.find", TD, "                if iat == tmi['iat']:", "                if iat != tmi['iat']:", "bad"),
    ("C11", "FileDB.find", TD, "                _tmi = json.loads(line.rstrip())\n\n                if self._match(sub, iat, _tmi):", "                _tmi = json.loads(line)\n                found = self._match(sub, iat, _tmi)\n                if found:", "same"),
    ("C11", "FileDB.list", TD, "                    if _tmi[\"sub\"] not in res:\n                        if sub:", "                    if True:\n                        if sub:", "bad"),
    ("C11", "FileDB.list", TD, "                for line in reversed(list(fp)):\n                    _tmi = json.loads(line.rstrip())\n                    if", "                for line in fp:\n                    _tmi = json.loads(line.rstrip())\n                    if", "same"),
    ("C11", "FileDB.list", TD, "                            if _tmi[\"sub\"] == sub:\n", "                            if _tmi[\"sub\"].startswith(sub):\n", "bad"),
    ("C11", "FileDB.__init__", TD, "            if not os.path.exists(file_name):", "            if file_name:", "bad"),
    ("C11", "FileDB.load", TD, "open(self.config[entity_id], \"a\") as fp:\n                for", "open(entity_id, \"a\") as fp:\n                for", "bad"),
    ("C11", "FileDB.load", TD, "                    fp.write(tm_info + '\\n')", "                    fp.write(tm_info)", "bad"),
    ("C11", "FileDB.dump", TD, "                for line in list(fp):\n                    res[entity_id].append(line.rstrip())", "                res[entity_id] = [line.rstrip() for line in fp]", "same"),
    ("C11", "FileDB.dump", TD, "                for line in list(fp):\n                    res[entity_id].append(line.rstrip())", "                for line in reversed(list(fp)):\n                    res[entity_id].append(line.rstrip())", "bad"),
    ("C11", "SimpleDB.load", TD, "        self._db = info\n", "        self._db.update({k: v for k, v in info.items() if v})\n", "bad"),
    # C03
    ("C03", "trusted_anchor", VF, "            if payload['iss'] not in _federation_entity.trust_anchors or \\\n                    payload['iss'] not in _federation_entity.keyjar:", "            if payload['iss'] not in _federation_entity.keyjar:", "bad"),
    ("C03", "trusted_anchor", VF, "not in _federation_entity.trust_anchors or \\", "not in _federation_entity.trust_anchors and \\", "bad"),
    ("C03", "trusted_anchor", VF, "            if payload['iss'] not in _federation_entity.trust_anchors", "            if payload['sub'] not in _federation_entity.trust_anchors", "bad"),
    ("C03", "trusted_anchor", VF, "        payload = _jwt.jwt.payload()\n        _federation_entity", "        payload = dict(_jwt.jwt.payload())\n        _federation_entity", "same"),
    ("C03", "is_linked", VF, "            if superior['sub'] == subordinate['iss']:\n                continue", "            if superior['sub'] == subordinate['iss'] or superior['sub'] == subordinate['sub']:\n                continue", "bad"),
    ("C03", "is_linked", VF, "        for superior, subordinate in zip(statements, statements[1:]):", "        for superior, subordinate in zip(statements, statements[2:]):", "bad"),
    ("C03", "is_linked", VF, "        for superior, subordinate in zip(statements, statements[1:]):", "        for superior, subordinate in zip(statements[:-1], statements[1:]):", "same"),
    ("C03", "is_linked", VF, "            return False\n        return True\n\n    def verify_trust_chain", "            break\n        return True\n\n    def verify_trust_chain", "bad"),
    ("C03", "verify_trust_chain", VF, "        if not self.trusted_anchor(entity_statement_list[0]):", "        if not self.trusted_anchor(entity_statement_list[-1]):", "bad"),
    ("C03", "verify_trust_chain", VF, "            logger.debug(\"Unknown trust anchor\")\n            return ves", "            logger.debug(\"Unknown trust anchor\")", "bad"),
    ("C03", "verify_trust_chain", VF, "if ves and self.is_linked(ves) and meets_restrictions(ves):", "if ves and meets_restrictions(ves):", "bad"),
    ("C03", "verify_trust_chain", VF, "if ves and self.is_linked(ves) and meets_restrictions(ves):", "if ves and self.is_linked(ves):", "bad"),
    ("C03", "verify_trust_chain", VF, "if ves and self.is_linked(ves) and meets_restrictions(ves):", "if meets_restrictions(ves) and self.is_linked(ves):", "same"),
    ("C03", "verify_trust_chain", VF, "        if len(ves) != len(entity_statement_list):\n            return []\n", "        pass\n", "bad"),
    ("C03", "verify_trust_chain", VF, "                res = _jwt.verify_compact(keys=keys)", "                res = _jwt.jwt.payload()", "bad"),
    ("C03", "verify_trust_chain", VF, "                res = _jwt.verify_compact(keys=keys)", "                try:\n                    res = _jwt.verify_compact(keys=keys)\n                except Exception:\n                    res = _jwt.jwt.payload()", "bad"),
    ("C03", "verify_trust_chain", VF, "                        _keyjar.add_kb(res['sub'], _kb)\n                    else:", "                        _keyjar.add_kb(res['iss'], _kb)\n                    else:", "bad"),
    ("C03", "verify_trust_chain", VF, "                            _kb.set(new)\n                            _keyjar.add_kb(res['sub'], _kb)", "                            _kb.set(new)\n                            _keyjar.add_kb(_jwt.jwt.payload()['iss'], _kb)", "bad"),
    ("C03", "verify_trust_chain", VF, "                            _kb.set(new)\n", "", "same"),
    ("C03", "verify_trust_chain", VF, "                        new = [k for k in _kb if k not in old]\n                        if new:", "                        new = []\n                        for k in _kb:\n                            if k not in old:\n                                new.append(k)\n                        if new:", "same"),
    ("C03", "verify_trust_chain", VF, "                ves.append(res)", "                ves.insert(0, res)", "bad"),
    ("C03", "verify_trust_chain", VF, "        for entity_statement in entity_statement_list:\n            _jwt = factory", "        for entity_statement in entity_statement_list[1:]:\n            _jwt = factory", "bad"),
    ("C03", "__call__", VF, "        if trust_chain.is_expired():\n            logger.warning(\"Trust chain has expired\")\n            return None\n", "", "bad"),
    ("C03", "__call__", VF, "                if entity_statement['exp'] < exp:", "                if entity_statement['exp'] > exp:", "bad"),
    ("C03", "__call__", VF, "                if entity_statement['exp'] < exp:\n                    exp = entity_statement['exp']", "                exp = min(exp, entity_statement['exp'])", "same"),
    ("C03", "__call__", VF, "        for entity_statement in trust_chain:\n            if exp", "        for entity_statement in trust_chain[1:]:\n            if exp", "bad"),
    ("C03", "__call__", VF, "        trust_chain.anchor = iss_path[0]\n        iss_path.reverse()", "        iss_path.reverse()\n        trust_chain.anchor = iss_path[0]", "bad"),
    ("C03", "__call__", VF, "        iss_path.reverse()\n", "", "bad"),
    ("C03", "__call__", VF, "        iss_path = [x['iss'] for x in verified_trust_chain]\n        trust_chain.anchor = iss_path[0]\n        iss_path.reverse()\n        trust_chain.iss_path = iss_path", "        iss_path = [x['iss'] for x in verified_trust_chain]\n        trust_chain.anchor = verified_trust_chain[0]['iss']\n        trust_chain.iss_path = iss_path[::-1]", "same"),
    ("C07", "apply_policies", FI, "        _policy_applier(trust_chain)\n        res.append(trust_chain)", "        res.append(trust_chain)\n        if len(res) > 1:\n            _policy_applier(trust_chain)", "bad"),
    ("C07", "apply_policies", FI, "        _policy_applier(trust_chain)\n        res.append(trust_chain)", "        try:\n            _policy_applier(trust_chain)\n        except Exception:\n            pass\n        res.append(trust_chain)", "bad"),
    ("C07", "apply_policies", FI, "        _policy_applier(trust_chain)\n        res.append(trust_chain)", "        res.append(trust_chain)\n    for trust_chain in res:\n        _policy_applier(trust_chain)", "same"),
    ("C07", "apply_policies", FI, "        _policy_applier(trust_chain)\n        res.append(trust_chain)\n    return res", "        _policy_applier(trust_chain)\n    return list(trust_chains)", "same"),
    ("C03", "verify_trust_chains", FI, "        if trust_chain:\n            res.append(trust_chain)", "        res.append(trust_chain)", "bad"),
    ("C03", "verify_trust_chains", FI, "        if trust_chain:\n            res.append(trust_chain)", "        if trust_chain is None:\n            continue\n        res.append(trust_chain)", "same"),
    ("C03", "verify_trust_chains", FI, "        if trust_chain:\n            res.append(trust_chain)", "        if trust_chain:\n            res.append(trust_chain)\n            break", "bad"),
    ("C03", "verify_trust_chains", FI, "        if entity_statements:\n            c.extend(entity_statements)", "        if entity_statements and not res:\n            c.extend(entity_statements)", "bad"),
    ("C03", "get_verified", FI, "    trust_chains = verify_trust_chains(unit, chains, leaf_ec)", "    trust_chains = verify_trust_chains(unit, chains)", "bad"),
    ("C03", "get_verified", FI, "    trust_chains = apply_policies(unit, trust_chains)\n    return", "    apply_policies(unit, trust_chains)\n    return", "same"),
    ("C03", "get_verified", FI, "    trust_chains = apply_policies(unit, trust_chains)\n    return", "    return", "bad"),
    ("C03", "verify_trust_chain (function)", FI, "    return _verifier(chain)", "    return _verifier(chain) or None", "same"),
    # C10
    ("C10", "TrustMarkVerifier.__call__", TV, "        _trust_mark.verify()\n", "", "bad"),
    ("C10", "TrustMarkVerifier.__call__", TV, "        if statement_is_expired(_trust_mark):\n            return None\n", "", "bad"),
    ("C10", "TrustMarkVerifier.__call__", TV, "            if not _delegation:\n                logger.warning(\"Could not verify the delegation\")\n                return None", "            if not _delegation:\n                logger.warning(\"Could not verify the delegation\")", "bad"),
    ("C10", "TrustMarkVerifier.__call__", TV, "        if 'delegation' in _trust_mark:", "        if 'delegation' in _trust_mark and check_status:", "bad"),
    ("C10", "TrustMarkVerifier.__call__", TV, "self.verify_delegation(_trust_mark, trust_anchor)", "self.verify_delegation(_trust_mark, _trust_mark['iss'])", "bad"),
    ("C10", "TrustMarkVerifier.__call__", TV, "        _trust_chains = get_verified_trust_chains(self, _trust_mark['iss'])", "        _trust_chains = get_verified_trust_chains(self, _trust_mark['sub'])", "bad"),
    ("C10", "TrustMarkVerifier.__call__", TV, "        if trust_anchor not in [_tc.anchor for _tc in _trust_chains]:", "        if trust_anchor not in [_tc.anchor for _tc in _trust_chains] and len(_trust_chains) == 1:", "bad"),
    ("C10", "TrustMarkVerifier.__call__", TV, "        if trust_anchor not in [_tc.anchor for _tc in _trust_chains]:", "        if not any(_tc.anchor == trust_anchor for _tc in _trust_chains):", "same"),
    ("C10", "TrustMarkVerifier.__call__", TV, "                                 _trust_chains[0].verified_chain[-1][\"jwks\"],", "                                 _trust_chains[0].verified_chain[0][\"jwks\"],", "bad"),
    ("C10", "TrustMarkVerifier.__call__", TV, "                                 _trust_chains[0].verified_chain[-1][\"jwks\"],", "                                 payload[\"jwks\"],", "bad"),
    ("C10", "TrustMarkVerifier.__call__", TV, "        except Exception as err:\n            return None\n        else:\n            return _mark", "        except Exception as err:\n            return payload\n        else:\n            return _mark", "bad"),
    ("C10", "TrustMarkVerifier.__call__", TV, "            return _mark\n", "            return payload\n", "same"),
    ("C10", "TrustMarkVerifier.__call__", TV, "_jwt.verify_compact(trust_mark, keys=keys)", "_jwt.verify_compact(keys=keys)", "same"),
    ("C10", "TrustMarkVerifier.__call__", TV, "        if statement_is_expired(_trust_mark):\n            return None\n", "        if statement_is_expired(payload):\n            logger.debug('expired')\n            return None\n", "same"),
    ("C10", "verify_delegation", TV, "JWT(key_jar=_federation_entity.get_attribute('keyjar')).unpack(_signed_ta_ec)", "get_payload(_signed_ta_ec)", "bad"),
    ("C10", "verify_delegation", TV, "        if trust_mark['id'] not in ta_fe_metadata['trust_mark_issuers']:\n            return None\n", "", "bad"),
    ("C10", "verify_delegation", TV, "        if trust_mark['id'] not in ta_fe_metadata['trust_mark_owners']:\n            return None\n", "", "same"),
    ("C10", "verify_delegation", TV, "_info.get('id') != trust_mark['id'] or _info", "_info.get('id') != trust_mark['id'] and _info", "bad"),
    ("C10", "verify_delegation", TV, " or _info.get('sub') != trust_mark['iss']", "", "bad"),
    ("C10", "verify_delegation", TV, "_info.get('sub') != trust_mark['iss']", "_info.get('sub') != trust_mark['sub']", "bad"),
    ("C10", "verify_delegation", TV, "import_jwks(_key_jar, tm_owner_info['jwks'], tm_owner_info['sub'])", "import_jwks(_key_jar, tm_owner_info['jwks'], _delegation.jwt.payload()['iss'])", "bad"),
    ("C10", "verify_delegation", TV, "        keys = _key_jar.get_jwt_verify_keys(_delegation.jwt)", "        keys = _key_jar.get_jwt_verify_keys(_delegation.jwt) or _federation_entity.get_attribute('keyjar').get_jwt_verify_keys(_delegation.jwt)", "bad"),
    ("C10", "verify_delegation", TV, "        if _info.get('id') != trust_mark['id'] or _info.get('sub') != trust_mark['iss']:\n            return None\n        return _info", "        if _info.get('id') == trust_mark['id'] and _info.get('sub') == trust_mark['iss']:\n            return _info\n        return None", "same"),
    ("C10", "verify_trust_mark", EN, "            if \"active\" in resp and resp[\"active\"] == True:\n                pass\n            else:\n                return None", "            if resp.get(\"active\") is False:\n                return None", "bad"),
    ("C10", "verify_trust_mark", EN, "            if \"active\" in resp and resp[\"active\"] == True:\n                pass\n            else:\n                return None", "            if not resp.get(\"active\", False):\n                return None", "same"),
    ("C10", "verify_trust_mark", EN, "            if \"active\" in resp and resp[\"active\"] == True:\n                pass\n            else:\n                return None", "            if \"active\" not in resp:\n                return None", "bad"),
    ("C10", "verify_trust_mark", EN, "'sub': verified_trust_mark['sub'],", "'sub': verified_trust_mark['iss'],", "bad"),
    ("C10", "verify_trust_mark", EN, "        if not verified_trust_mark:\n            return None\n\n        if check_with_issuer:", "        if not verified_trust_mark:\n            verified_trust_mark = _trust_mark_payload\n\n        if check_with_issuer:", "bad"),
    ("C10", "verify_trust_mark", EN, "        if check_with_issuer:\n", "        if check_with_issuer and 'exp' not in verified_trust_mark:\n", "bad"),
    ("C10", "verify_trust_mark", EN, "        return verified_trust_mark\n", "        return _trust_mark_payload\n", "same"),
    ("C10", "get_trust_chains", EN, "            if _trust_chains:\n                self.store_trust_chain(entity_id, _trust_chains)\n            else:\n                return []", "            self.store_trust_chain(entity_id, _trust_chains)", "same"),
    ("C10", "get_trust_chains", EN, "        _trust_chains = self.trust_chain.get(entity_id, None)", "        _trust_chains = self.trust_chain.get(entity_id.rstrip('/'), None)", "bad"),
    # C12
    ("C12", "TrustMarkEntity.create_trust_mark", TE, "        content = self.trust_mark_specification[id].copy()\n        content.update(_add)\n        if kwargs:\n            content.update(kwargs)\n        self.issued.add(content)", "        content = self.trust_mark_specification[id]\n        content.update(_add)\n        if kwargs:\n            content.update(kwargs)\n        self.issued.add(content)", "bad"),
    ("C12", "TrustMarkEntity.create_trust_mark", TE, "        lifetime = self.tm_lifetime.get(id)\n", "        lifetime = self.tm_lifetime.get(sub)\n", "bad"),
    ("C12", "TrustMarkEntity.create_trust_mark", TE, "        self.issued.add(content)", "        if lifetime:\n            self.issued.add(content)", "bad"),
    ("C12", "TrustMarkEntity.create_trust_mark", TE, "        self.issued.add(content)", "        self.issued.add({'id': id, 'sub': sub, **content})", "same"),
    ("C12", "TrustMarkEntity.create_trust_mark", TE, "        self.issued.add(content)", "        self.issued.add(_add)", "bad"),
    ("C12", "TrustMarkEntity.create_trust_mark", TE, "            raise ValueError('Unknown trust mark ID')\n\n        content = self.trust_mark_specification[id].copy()\n        content.update(_add)\n        if kwargs:\n            content.update(kwargs)\n        self.issued.add(content)", "            content = {}\n        else:\n            content = self.trust_mark_specification[id].copy()\n        content.update(_add)\n        if kwargs:\n            content.update(kwargs)\n        self.issued.add(content)", "bad"),
    ("C12", "TrustMarkEntity.create_trust_mark", TE, "        content = self.trust_mark_specification[id].copy()\n        content.update(_add)\n        if kwargs:\n            content.update(kwargs)\n        self.issued.add(content)", "        content = dict(_add)\n        content.update(self.trust_mark_specification[id])\n        if kwargs:\n            content.update(kwargs)\n        self.issued.add(content)", "bad"),
    ("C12", "TrustMarkEntity.create_trust_mark", TE, "        content = self.trust_mark_specification[id].copy()\n        content.update(_add)\n        if kwargs:\n            content.update(kwargs)\n        self.issued.add(content)", "        content = {**self.trust_mark_specification[id], **_add}\n        content.update(kwargs)\n        self.issued.add(content)", "same"),
    ("C12", "TrustMarkEntity.find", TE, "self.issued.find(trust_mark_id=trust_mark_id, sub=sub, iat=iat)", "self.issued.find(trust_mark_id=sub, sub=trust_mark_id, iat=iat)", "bad"),
    ("C12", "TrustMarkEntity.list", TE, "            if self.find(trust_mark_id, sub):\n                return [sub]", "            return [sub]", "bad"),
    ("C12", "TrustMarkEntity.list", TE, "            if self.find(trust_mark_id, sub):\n                return [sub]", "            return [sub] if self.find(trust_mark_id, sub) else None", "same"),
    ("C12", "unpack", TE, "            _tm.verify(entity_id=entity_id)", "            pass", "bad"),
    ("C12", "unpack", TE, "        else:\n            _tm.verify()\n\n        return _tm", "        return _tm", "bad"),
    ("C12", "Status", TSS, "            if _mark['iss'] == _trust_mark_issuer.entity_id and \\\n                    _trust_mark_issuer", "            if _trust_mark_issuer", "bad"),
    ("C12", "Status", TSS, "_trust_mark_issuer.find(_mark['id'], _mark['sub'])", "_trust_mark_issuer.find(_mark['id'], _mark['iss'])", "bad"),
    ("C12", "Status", TSS, "                if 'trust_mark_id' in request:\n                    _id = request['trust_mark_id']\n                elif 'id' in request:\n                    _id = request['id']", "                _id = request.get('trust_mark_id') or request.get('id')", "bad"),
    ("C12", "Status", TSS, "                if 'trust_mark_id' in request:\n                    _id = request['trust_mark_id']\n                elif 'id' in request:\n                    _id = request['id']", "                _id = request.get('trust_mark_id', request.get('id', ''))", "same"),
    ("C12", "Status", TSS, "                if _id:\n", "                if _id or 'iat' in request:\n", "bad"),
    ("C12", "TrustMarkList", TLS, "            if _trust_mark_entity.find(request['trust_mark_id'], request['sub']):\n                return", "            if request['sub'] in _trust_mark_entity.list(request['trust_mark_id']):\n                return", "bad"),
    ("C12", "TrustMarkList", TLS, "            if _lst:\n                return {\"response_msg\": json.dumps(_lst)", "            if _lst:\n                return {\"response_msg\": json.dumps(_lst[:1])", "bad"),
    ("C12", "TrustMark.process", TMS, "create_trust_mark(_id, _sub)", "create_trust_mark(_sub, _id)", "bad"),
    ("C12", "SelfSigned", TE, "        entity.context.trust_marks.append(_trust_mark)\n", "", "bad"),
    # C16
    ("C16", "verify_redirect_uris", RG, "            if p.fragment:", "            if p.fragment and client_type == \"web\":", "bad"),
    ("C16", "verify_redirect_uris", RG, "            if registration_request.get(\"response_types\") == [\"code\"]:", "            if \"code\" in registration_request.get(\"response_types\", []):", "bad"),
    ("C16", "verify_redirect_uris", RG, "            if registration_request.get(\"response_types\") == [\"code\"]:", "            if registration_request.get(\"response_types\", [\"code\"]) == [\"code\"]:", "bad"),
    ("C16", "verify_redirect_uris", RG, "in [\"localhost\", \"127.0.0.1\"]:", "in [\"localhost\", \"127.0.0.1\", None]:", "bad"),
    ("C16", "verify_redirect_uris", RG, "                elif p.scheme == \"http\" and p.hostname", "                elif p.hostname", "bad"),
    ("C16", "verify_redirect_uris", RG, "                verified_redirect_uris.append((uri, {}))", "                pass", "bad"),
    ("C16", "verify_redirect_uris", RG, "                verified_redirect_uris.append((uri, {}))", "                verified_redirect_uris.insert(0, (uri, {}))", "bad"),
    ("C16", "verify_redirect_uris", RG, "                    verified_redirect_uris.append((base, query))", "                    verified_redirect_uris.append((base, {}))", "bad"),
    ("C16", "verify_redirect_uris", RG, "                if query:\n                    verified_redirect_uris.append((base, query))\n                else:\n                    verified_redirect_uris.append((base, {}))", "                verified_redirect_uris.append((base, query or {}))", "same"),
    ("C16", "verify_redirect_uris", RG, "            elif must_https and p.scheme != \"https\":\n                msg = \"None https redirect_uri not allowed\"\n                raise InvalidRedirectURIError(msg)\n            elif p.scheme not in [\"http\", \"https\"]:", "            elif p.scheme != \"https\" and must_https:\n                raise InvalidRedirectURIError(\"None https redirect_uri not allowed\")\n            elif p.scheme not in (\"http\", \"https\"):", "same"),
    ("C16", "verify_redirect_uris", RG, "        must_https = False\n        if client_type == \"web\":\n            must_https = True\n            if registration_request.get(\"response_types\") == [\"code\"]:\n                must_https = False", "        must_https = client_type == \"web\" and registration_request.get(\"response_types\") != [\"code\"]", "same"),
    ("C16", "verify_redirect_uris", RG, "        for uri in registration_request[\"redirect_uris\"]:\n            _custom", "        for uri in set(registration_request[\"redirect_uris\"]):\n            _custom", "bad"),
    ("C16", "verify_redirect_uris", RG, "            _custom = False\n            p = urlparse(uri)", "            p = urlparse(uri)\n            _custom = p.scheme not in (\"http\", \"https\")", "same"),
    ("C16", "match_claim (one", RG, "                    if val in _val:\n                        return val\n                else:", "                    return val\n                else:", "bad"),
    ("C16", "match_claim (one", RG, "                elif val == _val:\n                    return val", "                else:\n                    return val", "bad"),
    ("C16", "match_claim (sev", RG, "list(set(_val).intersection(set(val)))", "list(set(_val).union(set(val)))", "bad"),
    ("C16", "match_claim (sev", RG, "list(set(_val).intersection(set(val)))", "[v for v in val if v in _val]", "same"),
    ("C16", "match_claim (sev", RG, "                    if len(_ret) > 0:\n                        return _ret\n", "                    if len(_ret) > 0:\n                        return val\n", "bad"),
    ("C16", "match_claim (sev", RG, "        except KeyError:\n            return val\n", "        except KeyError:\n            return None\n", "bad"),
    ("C16", "filter_client", RG, "            if _val:\n                _args[key] = _val\n            else:", "            if _val:\n                _args[key] = val\n            else:", "bad"),
    ("C16", "filter_client", RG, "            if _val:\n                _args[key] = _val\n            else:", "            _args[key] = _val or val\n            if not _val:", "bad"),
    ("C16", "filter_client", RG, "            if key not in _context.claims.register2preferred:\n                _args[key] = val\n                continue\n", "            if key not in _context.claims.register2preferred:\n                continue\n", "bad"),
    ("C16", "filter_client", RG, "            _val = self.match_claim(key, val)\n            if _val:\n                _args[key] = _val\n            else:", "            if self.match_claim(key, val):\n                _args[key] = self.match_claim(key, val)\n            else:", "same"),
    ("C16", "do_client_reg", RG, "                _cinfo[\"redirect_uris\"] = ruri\n", "                _cinfo[\"redirect_uris\"] = [(u, {}) for u in request[\"redirect_uris\"]]\n", "bad"),
    ("C16", "do_client_reg", RG, "                return self.error_cls(error=\"invalid_redirect_uri\", error_description=str(e))", "                logger.error(str(e))", "bad"),
    ("C16", "do_client_reg", RG, "            if key not in ignore:\n", "            if key not in ignore and key not in _cinfo:\n", "bad"),
    ("C16", "do_client_reg", RG, "            try:\n                ruri = self.verify_redirect_uris(request)\n                _cinfo[\"redirect_uris\"] = ruri\n            except", "            try:\n                _cinfo[\"redirect_uris\"] = self.verify_redirect_uris(request)\n            except", "same"),
    # C21
    ("C21", "Resolve", RS, "            if _trust_anchor == trust_chain.anchor:\n                _chain = trust_chain\n                break", "            _chain = trust_chain\n            if _trust_anchor == trust_chain.anchor:\n                break", "bad"),
    ("C21", "Resolve", RS, "        _chain = None\n", "        _chain = _trust_chains[0] if len(_trust_chains) == 1 else None\n", "bad"),
    ("C21", "Resolve", RS, "                _chain = trust_chain\n                break", "                _chain = trust_chain", "same"),
    ("C21", "Resolve", RS, "        _chain = None\n        for trust_chain in _trust_chains:\n            if _trust_anchor == trust_chain.anchor:\n                _chain = trust_chain\n                break\n", "        _chain = next((tc for tc in _trust_chains if tc.anchor == _trust_anchor), None)\n", "same"),
    ("C21", "Resolve", RS, "        _chain = None\n        for trust_chain in _trust_chains:\n            if _trust_anchor == trust_chain.anchor:\n                _chain = trust_chain\n                break\n", "        _chain = [tc for tc in _trust_chains if tc.anchor == _trust_anchor][0]\n", "same"),
    ("C21", "Resolve", RS, "        _trust_chains = apply_policies(_federation_entity, _trust_chains)\n\n", "\n", "bad"),
    ("C21", "Resolve", RS, "{request['type']: _chain.metadata[request['type']]}", "{request['type']: _chain.metadata.get(request['type'])}", "bad"),
    ("C21", "Resolve", RS, "            metadata = {request['type']: _chain.metadata[request['type']]}\n        else:\n            metadata = _chain.metadata", "            metadata = {k: v for k, v in _chain.metadata.items() if k == request['type']}\n        else:\n            metadata = _chain.metadata", "bad"),
    ("C21", "Resolve", RS, "                                       sub=request[\"sub\"],", "                                       sub=_chain.iss_path[-1],", "bad"),
    ("C21", "Resolve", RS, "            _chain.iss_path, _trust_anchor, kwargs", "            _trust_chains[0].iss_path, _trust_anchor, kwargs", "bad"),
    ("C21", "Resolve", RS, "stop_at=_trust_anchor)", "stop_at=request['sub'])", "bad"),
    ("C21", "get_chain", TC, "self.entity_statement_cache[cache_key(iss_path[i + 1], iss_path[i])]", "self.entity_statement_cache[cache_key(iss_path[i], iss_path[i + 1])]", "bad"),
    ("C21", "get_chain", TC, "        for i in range(len(iss_path) - 1):\n            res.append", "        for i in range(len(iss_path) - 2):\n            res.append", "bad"),
    ("C21", "get_chain", TC, "        for i in range(len(iss_path) - 1):\n            res.append(self.entity_statement_cache[cache_key(iss_path[i + 1], iss_path[i])])", "        for sub, iss in zip(iss_path, iss_path[1:]):\n            res.append(self.entity_statement_cache[cache_key(iss, sub)])", "same"),
    ("C21", "get_chain", TC, "            res.append(self.config_cache[trust_anchor]['_jws'])\n        return res", "            res.insert(0, self.config_cache[trust_anchor]['_jws'])\n        return res", "bad"),
    ("C14", "List.filter", LI, "if trust_marked and not trust_marks:", "if trust_marked and not conf.get('trust_marks', True):", "bad"),
    ("C14", "List.filter", LI, "if trust_marked and not trust_marks:", "if trust_marked is not None and not trust_marks:", "bad"),
    ("C14", "List.filter", LI, "            match.append(entity_id)\n", "            match.append(entity_id)\n            trust_mark_id = ''\n", "bad"),
    ("C14", "List.filter", LI, "if trust_mark_id and trust_mark_id not in [self.trust_mark_id(tm) for tm in\n                                                       trust_marks]:", "if trust_mark_id and not any(self.trust_mark_id(tm) == trust_mark_id for tm in trust_marks):", "same"),
    ("C14", "List.filter", LI, "if trust_mark_id and trust_mark_id not in [self.trust_mark_id(tm) for tm in\n                                                       trust_marks]:", "if trust_mark_id and trust_marks and trust_mark_id not in [self.trust_mark_id(tm) for tm in\n                                                       trust_marks]:", "bad"),
    ("C14", "List.filter", LI, "conf.get('trust_marks') or []", "conf['trust_marks']", "bad"),
    ("C14", "List.filter", LI, "        for entity_id, conf in subordinates.items():\n            # All filters that are given must match\n", "        for entity_id in subordinates:\n            conf = subordinates[entity_id]\n", "same"),
    ("C14", "List.trust_mark_id", LI, "_jws.jwt.payload() if _jws else {}", "_jws.jwt.payload()", "bad"),
    ("C14", "List.trust_mark_id", LI, "return trust_mark.get('id')", "return trust_mark.get('trust_mark_id', trust_mark.get('id'))", "bad"),
    ("C14", "collect_subordinates", LI, "            if not _entity_configuration:\n                continue", "            if not _entity_configuration:\n                break", "bad"),
    ("C14", "collect_subordinates", LI, "sub[entity_id] = _ec", "sub[_ec.get('sub', entity_id)] = _ec", "bad"),
    ("C14", "process_request (filters)", LI, 'if request.get("intermediate") and not item.get("intermediate"):', 'if "intermediate" in request and not item.get("intermediate"):', "bad"),
    ("C14", "process_request (filters)", LI, 'if request.get("trust_marked") or request.get("trust_mark_id"):', 'if "trust_marked" in request or "trust_mark_id" in request:', "bad"),
    ("C14", "process_request (filters)", LI, "matched_entity_ids.intersection_update(", "matched_entity_ids.update(", "bad"),
    ("C14", "process_request (filters)", LI, 'item.get("entity_types", item.get("entity_type", []))', 'item.get("entity_types", [])', "bad"),
    ("C14", "process_request (filters)", LI, "                    if isinstance(_types, str):\n                        _types = [_types]\n", "", "bad"),
    ("C14", "process_request (filters)", LI, 'issubset({"client_id", "authenticated"})', 'issubset({"client_id", "authenticated", "intermediate"})', "bad"),
    ("C14", "process_request (filters)", LI, 'trust_mark_id=request.get("trust_mark_id", "")', 'trust_mark_id=request.get("trust_mark_id", "") if not request.get("trust_marked") else ""', "bad"),
    ("C14", "process_request (extended", LI, "matched_entity_ids})}", "subordinate_conf})}", "bad"),
    ("C14", "process_request (filters)", LI, "json.dumps(list(matched_entity_ids))", "json.dumps([e for e in _db if e in matched_entity_ids])", "same"),
    ("C14", "process_request (filters)", LI, "matched_entity_ids = set()\n", "matched_entity_ids = set()\n            _now = None\n", "same"),
    ("C17", "(oidc authorization, a chain", OIA, "            trust_chains = [tc for tc in trust_chains if tc.iss_path[0] == client_entity_id]\n", "", "bad"),
    ("C17", "(oidc authorization, a chain", OIA, "if tc.iss_path[0] == client_entity_id]", "if client_entity_id in tc.iss_path]", "bad"),
    ("C17", "(oidc authorization, a chain", OIA, "            trust_chains = [tc for tc in trust_chains if tc.iss_path[0] == client_entity_id]\n", "            if trust_chains and trust_chains[-1].iss_path[0] != client_entity_id:\n                trust_chains = []\n", "bad"),
    ("C17", "(oidc authorization, a chain", OIA, "            trust_chains = [tc for tc in trust_chains if tc.iss_path[0] == client_entity_id]\n            trust_chains = apply_policies(self, trust_chains)\n", "            trust_chains = [tc for tc in trust_chains if tc.iss_path[0] == client_entity_id]\n", "bad"),
    ("C17", "(oidc authorization, a chain", OIA, "            trust_chains = [tc for tc in trust_chains if tc.iss_path[0] == client_entity_id]\n            trust_chains = apply_policies(self, trust_chains)\n", "            trust_chains = apply_policies(self, trust_chains)\n            trust_chains = [tc for tc in trust_chains if tc.iss_path[0] == client_entity_id]\n", "same"),
    ("C17", "(oidc authorization, a chain", OIA, "            trust_chains = [tc for tc in trust_chains if tc.iss_path[0] == client_entity_id]\n", "            _mine = []\n            for tc in trust_chains:\n                if tc.iss_path[0] != client_entity_id:\n                    continue\n                _mine.append(tc)\n            trust_chains = _mine\n", "same"),
    ("C17", "(oidc authorization, looked up", OIA, "        if not trust_chains:\n            raise NoTrustedChains()\n\n        # pick one of the possible\n        trust_chain = trust_chains[0]\n", "        # pick one of the possible\n        trust_chain = trust_chains[0] if trust_chains else None\n        if trust_chain is None:\n            raise NoTrustedChains()\n", "same"),
    ("C17", "(oidc authorization, looked up", OIA, "        req['client_id'] = client_entity_id\n", "        req.setdefault('client_id', client_entity_id)\n", "bad"),
    ("C17", "(oidc authorization, looked up", OIA, "        req['client_id'] = client_entity_id\n", "        req['client_id'] = client_entity_id\n        req['scope'] = 'openid'\n", "bad"),
    ("C17", "client_authentication (oidc", OIA, 'if client_info is None or "automatic_registered" in client_info:', 'if client_info is None or "automatic_registered" in client_info or request.get("trust_chain"):', "bad"),
    ("C17", "client_authentication (oidc", OIA, "            else:\n                return {\n                    'error': 'unauthorized_client',\n                    'error_description': 'Unknown client'\n                }\n\n        # then", "\n        # then", "bad"),
    ("C17", "client_authentication (oidc", OIA, "                if registered_client_id is None:\n", "                if registered_client_id is None and not client_info:\n", "bad"),
    ("C17", "client_authentication (oidc", OIA, "                    del _context.cdb[_cid]\n", "                    _context.cdb.pop(_cid)\n", "same"),
    ("C17", "client_authentication (oidc", OIA, '_context.cdb[registered_client_id]["automatic_registered"] = True', 'pass', "bad"),
    ("C17", "client_authentication (oidc", OIA, "_trust_chain = request.get('trust_chain', [])", "_trust_chain = []", "bad"),
    ("C17", "find_client_keys (oidc", OIA, 'if client_info is not None and "automatic_registered" not in client_info:', "if client_info and client_info.get('jwks'):", "bad"),
    ("C17", "(oauth2 authorization, a chain", OAA, "            trust_chains = [tc for tc in trust_chains if tc.iss_path[0] == entity_id]\n", "", "bad"),
    ("C17", "(oauth2 authorization, a chain", OAA, "        trust_chains = apply_policies(self, trust_chains)\n", "        if not provided_trust_chain:\n            trust_chains = apply_policies(self, trust_chains)\n", "bad"),
    ("C17", "(oauth2 authorization, looked up", OAA, "verify_trust_chains(self, chains, signed_entity_configuration)", "verify_trust_chains(self, chains)", "bad"),
    ("C17", "client_authentication (oauth2", OAA, "        if client_info is None:\n            if 'automatic'", "        if not client_info or 'redirect_uris' not in client_info:\n            if 'automatic'", "bad"),
    ("C17", "find_client_keys (oauth2", OAA, "if client_info is not None:", "if client_info is not None and 'jwks' in client_info:", "bad"),
    ("C17", "(pushed authorization, a chain", PAR, "if tc.iss_path[0] == entity_id]", "if tc.iss_path[0] == entity_id or len(tc.iss_path) > 1]", "bad"),
    ("C17", "(pushed authorization, a chain", PAR, "            trust_chains = apply_policies(self, trust_chains)\n", "", "bad"),
    ("C17", "(pushed authorization, looked up", PAR, "        req['client_id'] = entity_id\n", "        req['client_id'] = trust_chain.iss_path[-1]\n", "bad"),
    ("C17", "client_authentication (pushed", PAR, "                        _context.cdb[_cid] = client_info\n                        client_info['entity_id'] = _cid\n", "                        _context.cdb[_cid] = client_info\n                        _context.cdb['last'] = client_info\n                        client_info['entity_id'] = _cid\n", "bad"),
    ("C17", "client_authentication (pushed", PAR, "        client_info = _context.cdb.get(_cid)\n", "        client_info = _context.cdb.get(_cid)\n        _known = bool(client_info)\n", "same"),
    ("C18", "(oidc)", OIR, "        _trust_chains = [tc for tc in _trust_chains if tc.iss_path[0] == payload['sub']]\n", "", "bad"),
    ("C18", "(oidc)", OIR, "collect_trust_chains(self, entity_id=payload['sub'],", "collect_trust_chains(self, entity_id=payload['iss'],", "same"),
    ("C18", "(oidc)", OIR, "RegistrationRequest(**trust_chain.metadata[opponent_entity_type])", "RegistrationRequest(**payload['metadata'][opponent_entity_type])", "bad"),
    ("C18", "(oidc)", OIR, '        req["client_id"] = payload[\'sub\']\n', '        req.setdefault("client_id", payload[\'sub\'])\n', "bad"),
    ("C18", "(oidc)", OIR, "trust_anchor_id=trust_chain.anchor,", "trust_anchor_id=_trust_chains[0].anchor,", "bad"),
    ("C18", "(oidc)", OIR, "        _trust_chains = apply_policies(self, _trust_chains)\n", "", "bad"),
    ("C18", "(oidc)", OIR, "trust_chain = _federation_entity.pick_trust_chain(_trust_chains)", "trust_chain = _trust_chains[0]", "same"),
    ("C18", "(oidc)", OIR, "            del response_info[\"response_args\"]\n", "", "bad"),
    ("C18", "(oidc)", OIR, "            _policy_metadata = req.to_dict()\n            _policy_metadata.update(response_info['response_args'])\n", "            _policy_metadata = dict(response_info['response_args'])\n            _policy_metadata.update(req.to_dict())\n", "bad"),
    ("C18", "(oidc)", OIR, "verify_trust_chains(self, _chains, request)", "verify_trust_chains(self, _chains)", "bad"),
    ("C18", "(oidc)", OIR, "            for item in [\"jwks\", \"jwks_uri\", \"signed_jwks_uri\"]:\n                try:\n                    del req[item]\n                except KeyError:\n                    pass\n", "            for item in (\"jwks\", \"jwks_uri\", \"signed_jwks_uri\"):\n                if item in req:\n                    del req[item]\n", "same"),
    ("C18", "(oauth2)", OAR, "        _trust_chains = [tc for tc in _trust_chains if tc.iss_path[0] == payload['sub']]\n", "", "bad"),
    ("C18", "(oauth2)", OAR, "step2_process_request(req, **kwargs)", "step2_process_request(req, new_id=False, **kwargs)", "bad"),
    ("C18", "(oauth2)", OAR, "                aud=payload['iss'],\n", "", "bad"),
    ("C18", "(oauth2)", OAR, "_federation_entity.upstream_get('attribute', 'entity_id'),\n                payload['iss'],", "payload['iss'],\n                _federation_entity.upstream_get('attribute', 'entity_id'),", "bad"),
    ("C18", "(oauth2)", OAR, "        if not _trust_chains:\n            raise NoTrustedChains(f\"No trust chains for {payload['sub']}\")\n\n", "", "bad"),
    ("C18", "(oauth2)", OAR, "        _trust_chains = [tc for tc in _trust_chains if tc.iss_path[0] == payload['sub']]\n", "        _sub = payload['sub']\n        _trust_chains = list(filter(lambda tc: tc.iss_path[0] == _sub, _trust_chains))\n", "same"),
    ("C18", "client_registration_setup", OAR, '                del request["client_id"]\n', '                pass\n', "bad"),
    ("C18", "client_registration_setup", OAR, 'reserved_client_id = _context.cdb.keys()', 'reserved_client_id = []', "bad"),
    ("C18", "client_registration_setup", OAR, '            if not reserved_client_id:\n', '            if reserved_client_id:\n', "bad"),
    ("C18", "client_registration_setup", OAR, '        logger.debug("ClientInfo: {}".format(_cinfo))\n        _context.cdb[client_id] = _cinfo\n', '        logger.debug("ClientInfo: {}".format(_cinfo))\n        _context.cdb[_cinfo.get("client_name", client_id)] = _cinfo\n', "bad"),
    ("C18", "client_registration_setup", OAR, '        response = self.response_cls(**args)\n', '        response = self.response_cls(**request)\n', "bad"),
    ("C18", "client_registration_setup", OAR, '            request = self.filter_client_request(request)\n', '            self.filter_client_request(request)\n', "bad"),
    ("C18", "client_registration_setup", OAR, '        if isinstance(_cinfo, ResponseMessage):\n            return _cinfo\n\n        args', '        if isinstance(_cinfo, ResponseMessage):\n            _cinfo = {}\n\n        args', "bad"),
    ("C18", "client_registration_setup", OAR, '            if not client_id:\n                raise ValueError("Missing client_id")\n', '            if not client_id:\n                client_id = "anonymous"\n', "bad"),
    ("C18", "client_registration_setup", OAR, '        _context.cdb[client_id] = _cinfo\n        _cinfo = self', '        cdb = _context.cdb\n        cdb[client_id] = _cinfo\n        _cinfo = self', "same"),
    ("C18", "client_registration_setup", OAR, 'args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])', 'args = {k: v for k, v in _cinfo.items() if k in self.response_cls.c_param}', "same"),
    ("C19", "_signature_verifies (oidc)", CLO, "return any(tc.anchor == trust_anchor for tc in _trust_chains)", "return bool(_trust_chains)", "bad"),
    ("C19", "_signature_verifies (oauth2)", CL2, "return any(tc.anchor == trust_anchor for tc in _trust_chains)", "return bool(_chains)", "bad"),
    ("C19", "_signature_verifies (oidc)", CLO, "        if not _chains:\n            return False\n", "        if not _chains:\n            return True\n", "bad"),
    ("C19", "_signature_verifies (oidc)", CLO, "tc.anchor == trust_anchor for", "tc.anchor != trust_anchor for", "bad"),
    ("C19", "_signature_verifies (oidc)", CLO, "return any(tc.anchor == trust_anchor for tc in _trust_chains)", "anchors = [tc.anchor for tc in _trust_chains]\n        return trust_anchor in anchors", "same"),
    ("C19", "_signature_verifies (oauth2)", CL2, "return any(tc.anchor == trust_anchor for tc in _trust_chains)", "for tc in _trust_chains:\n            if tc.anchor == trust_anchor:\n                return True\n        return False", "same"),
    ("C19", "parse_federation_registration_response (oidc)", CLO, 'raise ValueError("Trust anchor I don\'t trust")', "logger.error('x')", "bad"),
    ("C19", "parse_federation_registration_response (oauth2)", CL2, 'raise ValueError("Trust anchor I don\'t trust")', "logger.error('x')", "bad"),
    ("C19", "parse_federation_registration_response (oidc)", CLO, 'raise SignatureFailure("Could not verify signature")', "logger.error('x')", "bad"),
    ("C19", "parse_federation_registration_response (oauth2)", CL2, 'raise SignatureFailure("Could not verify signature")', "logger.error('x')", "bad"),
    ("C19", "parse_federation_registration_response (oidc)", CLO, '_signature_verifies(payload["iss"], ', '_signature_verifies(payload["sub"], ', "bad"),
    ("C19", "parse_federation_registration_response (oauth2)", CL2, "            JWT(key_jar=_federation_entity.get_attribute(\"keyjar\")).unpack(resp)\n", "", "bad"),
    ("C19", "parse_federation_registration_response (oidc)", CLO, "verify_trust_chains(_federation_entity, _chains, resp)", "verify_trust_chains(_federation_entity, _chains)", "bad"),
    ("C19", "parse_federation_registration_response (oauth2)", CL2, "                _trust_chains = apply_policies(_federation_entity, _trust_chains)\n", "                _trust_chains[0].metadata = _metadata\n", "bad"),
    ("C19", "parse_federation_registration_response (oauth2)", CL2, "            _resp = _trust_chains[0].metadata\n", "            _resp = _metadata or _trust_chains[0].metadata\n", "bad"),
    ("C19", "parse_federation_registration_response (oidc)", CLO, "            _resp = _trust_chains[0].metadata['openid_relying_party']\n", "            _resp = payload['metadata']['openid_relying_party']\n", "bad"),
    ("C19", "parse_federation_registration_response (oidc)", CLO, "metadata['openid_relying_party']", "metadata['openid_provider']", "bad"),
    ("C19", "parse_federation_registration_response (oidc)", CLO, "            _context.registration_response = _resp\n", "            _context.registration_response = _metadata\n", "bad"),
    ("C19", "parse_federation_registration_response (oidc)", CLO, "entity_id=self.upstream_get('attribute', 'entity_id'),", "entity_id=payload['iss'],", "bad"),
    ("C19", "parse_federation_registration_response (oidc)", CLO, "        payload = verify_self_signed_signature(resp)\n", "        payload = verify_self_signed_signature(resp)\n        anchor = payload['trust_anchor_id']\n", "same"),
    ("C19", "parse_federation_registration_response (oidc)", CLO, "            if not self._signature_verifies(payload[\"iss\"], payload['trust_anchor_id'],\n                                            _federation_entity):\n", "            _iss, _ta = payload['iss'], payload['trust_anchor_id']\n            verified = self._signature_verifies(_iss, _ta, _federation_entity)\n            if not verified:\n", "same"),
    ("C19", "parse_federation_registration_response (oauth2)", CL2, "            if len(_trust_chains) != 1:", "            nr = len(_trust_chains)\n            if nr < 1 or nr > 1:", "same"),
    ("C19", "parse_federation_registration_response (oauth2)", CL2, "        if _verifier:\n            #  construct", "        if _verifier is not None:\n            #  construct", "same"),
    ("C19", "parse_response (oidc)", CLO, "        if not resp:\n", "        if resp is None:\n", "bad"),
    ("C19", "parse_response (oauth2)", CL2, "        if not resp:\n", "        if False:\n", "bad"),
    ("C19", "parse_response (oauth2)", CL2, "        return resp\n\n    def _get", "        result = resp\n        return result\n\n    def _get", "same"),
    ("C15", "Policy.verify", MSGP, '_musts = set(_critical).intersection(_extra_parameters)\n                _known = kwargs.get("known_policy_extensions")', '_musts = set(_critical).difference(_extra_parameters)\n                _known = kwargs.get("known_policy_extensions")', "bad"),
    ("C15", "Policy.verify", MSGP, '_known = kwargs.get("known_policy_extensions")', '_known = kwargs.get("known_extensions")', "bad"),
    ("C15", "Policy.verify", MSGP, 'raise ValueError("Empty list not allowed for \'policy_language_crit\'")', 'pass', "bad"),
    ("C15", "Policy.verify", MSGP, '            if _critical is None:\n                pass\n            elif not _critical:\n                raise ValueError("Empty list not allowed for \'policy_language_crit\'")', '            if not _critical:\n                pass', "bad"),
    ("C15", "Policy.verify", MSGP, '        "essential": SINGLE_OPTIONAL_BOOLEAN\n', '        "essential": SINGLE_OPTIONAL_BOOLEAN,\n        "regexp": SINGLE_OPTIONAL_STRING\n', "bad"),
    ("C15", "Policy.verify", MSGP, 'if set(_known).issuperset(set(_musts)) is False:\n                        raise UnknownCriticalExtension(_musts.difference(set(_known)))\n                elif _musts:\n                    raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))\n\n\ndef policy_deser', 'if set(_known).isdisjoint(set(_musts)):\n                        raise UnknownCriticalExtension(_musts.difference(set(_known)))\n                elif _musts:\n                    raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))\n\n\ndef policy_deser', "bad"),
    ("C15", "MetadataPolicy.verify", MSGP, '                _p.verify(**kwargs)', '                pass', "bad"),
    ("C15", "MetadataPolicy.verify", MSGP, '                _p.verify(**kwargs)', '                _p.verify(policy_language_crit=kwargs.get("policy_language_crit"))', "bad"),
    ("C15", "MetadataPolicy.verify", MSGP, 'if k not in ["value", "default"]})\n', 'if k in self.c_param})\n', "bad"),
    ("C15", "MetadataPolicy.verify", MSGP, '                _p.verify(**kwargs)', '                _p.verify(**kwargs)\n                break', "bad"),
    ("C15", "EntityStatement.verify", MSGP, '_known = kwargs.get("known_extensions")\n                if _known:', '_known = kwargs.get("known_extensions") or _critical\n                if _known:', "bad"),
    ("C15", "EntityStatement.verify", MSGP, 'raise ValueError("Empty list not allowed for \'crit\'")', 'pass', "bad"),
    ("C15", "EntityStatement.verify", MSGP, '_critical = self.get("crit")', '_critical = self.get("policy_language_crit")', "bad"),
    ("C15", "EntityStatement.verify", MSGP, '        super(EntityStatement, self).verify(**kwargs)\n', '', "bad"),
    ("C15", "EntityStatement.verify", MSGP, '                _metadata_policy.verify(policy_language_crit=_crit, **kwargs)\n', '                _metadata_policy.verify(policy_language_crit=_crit)\n', "bad"),
    ("C15", "EntityStatement.verify", MSGP, '                _metadata_policy.verify(policy_language_crit=_crit, **kwargs)\n', '                _metadata_policy.verify(**kwargs)\n', "bad"),
    ("C15", "EntityStatement.verify", MSGP, '            _crit = self.get("policy_language_crit")\n', '            _crit = self.get("crit")\n', "bad"),
    ("C15", "TrustMark.verify", MSGP, 'entity_id != self["sub"]:', 'entity_id != self["sub"] and not self["sub"].startswith(entity_id):', "bad"),
    ("C15", "TrustMark.verify", MSGP, 'entity_id is not None and entity_id != self["sub"]', 'entity_id and entity_id != self["sub"]', "bad"),
    ("C15", "TrustMarkStatusRequest.verify", MSGP, "'sub' not in self or 'trust_mark_id' not in self", "'sub' not in self and 'trust_mark_id' not in self", "bad"),
    ("C15", "TrustMarkStatusRequest.verify", MSGP, "if 'trust_mark' not in self:", "if 'iat' not in self:", "bad"),
    ("C15", "Policy.verify", MSGP, '_extra_parameters = list(self.extra().keys())\n        if _extra_parameters:\n            _critical = kwargs', '_extra_parameters = [k for k in self.extra()]\n        if _extra_parameters:\n            _critical = kwargs', "same"),
    ("C15", "MetadataPolicy.verify", MSGP, '        for typ, _policy in self.items():\n            for attr, item in _policy.items():\n', '        for _policy in self.values():\n            for item in _policy.values():\n', "same"),
    ("C15", "EntityStatement.verify", MSGP, '                if _known:\n                    if set(_known).issuperset(set(_musts)) is False:\n                        raise UnknownCriticalExtension(_musts.difference(set(_known)))\n                elif _musts:\n                    raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))\n\n        _metadata_policy', '                _unknown = [m for m in _musts if m not in (_known or [])]\n                if _unknown:\n                    raise UnknownCriticalExtension(_unknown)\n\n        _metadata_policy', "same"),
    ("C15", "TrustMarkStatusRequest.verify", MSGP, "        if 'trust_mark' not in self:\n            if 'sub' not in self or 'trust_mark_id' not in self:\n", "        if 'trust_mark' not in self and not ('sub' in self and 'trust_mark_id' in self):\n            if True:\n", "same"),
    ("C15", "TrustMark.verify", MSGP, 'entity_id is not None and entity_id != self["sub"]', 'entity_id is not None and not entity_id == self.get("sub")', "same"),
    ("C13", "Fetch.process_request", FET, "        _issuer = self.upstream_get('attribute','entity_id')\n", "        _issuer = request.get('iss') or self.upstream_get('attribute','entity_id')\n", "bad"),
    ("C13", "Fetch.process_request", FET, "                raise UnknownEntity(_sub)\n", "                _response = {}\n", "bad"),
    ("C13", "Fetch.process_request", FET, "                                          sub=_sub,\n", "                                          sub=_issuer,\n", "bad"),
    ("C13", "Fetch.process_request", FET, "        if not _sub or _sub == _issuer:", "        if not _sub:", "bad"),
    ("C13", "Fetch.process_request", FET, "_metadata = _entity.get_metadata()", "_metadata = None", "bad"),
    ("C13", "Fetch.process_request", FET, "            _policy = _server.policy.get(_sub)\n", "            _policy = _server.policy.get(_issuer)\n", "bad"),
    ("C13", "Fetch.process_request", FET, "            if not _policy:  # No entity specific policy\n", "            if True:\n", "bad"),
    ("C13", "Fetch.process_request", FET, "                        if not _et_policy:\n                            continue\n", "                        if not _et_policy:\n                            break\n", "bad"),
    ("C13", "Fetch.process_request", FET, "for _typ in ['metadata', 'metadata_policy']:", "for _typ in ['metadata_policy']:", "bad"),
    ("C13", "Fetch.process_request", FET, "update({entity_type: _et_policy[_typ]})", "update(_et_policy[_typ])", "bad"),
    ("C13", "Fetch.process_request", FET, "            if _policy:\n                _response.update(_policy)\n", "            if _policy:\n                _policy.update(_response)\n                _response = _policy\n", "bad"),
    ("C13", "Fetch.process_request", FET, "            if _policy:\n                _response.update(_policy)\n", "            if _policy and 'metadata' in _policy:\n                _response.update(_policy)\n", "bad"),
    ("C13", "Fetch.process_request", FET, "if k != 'entity_types'}", "if k not in ['entity_types', 'jwks']}", "bad"),
    ("C13", "Fetch.process_request", FET, "            _response = dict(_response)\n            if", "            _response = {k: v for k, v in _response.items()}\n            if", "same"),
    ("C13", "Fetch.process_request", FET, "                        if not _et_policy:\n                            continue\n                        for", "                        if _et_policy is None or len(_et_policy) == 0:\n                            continue\n                        for", "same"),
    ("C13", "Fetch.process_request", FET, "                                try:\n                                    _policy[_typ].update({entity_type: _et_policy[_typ]})\n                                except KeyError:\n                                    _policy[_typ] = {entity_type: _et_policy[_typ]}\n", "                                _policy[_typ][entity_type] = _et_policy[_typ]\n", "same"),
    ("C13", "Fetch.process_request", FET, "            if not 'authority_hints' in _response:\n                # If nothing specified add myself\n                _response[\"authority_hints\"] = [_issuer]\n", "            _response.setdefault('authority_hints', [_issuer])\n", "same"),
    ("C13", "Fetch.process_request", FET, "        if not _sub or _sub == _issuer:", "        about_me = not _sub or _sub == _issuer\n        if about_me:", "same"),
    ("C01", "meets", CO, "        new_current = current_max_path_length - 1\n        if _max_len < new_current:", "        new_current = current_max_path_length - 1\n        if _max_len > new_current:", "bad"),
    ("C01", "meets", CO, "        new_current = current_max_path_length - 1\n        if _max_len < new_current:", "        new_current = current_max_path_length\n        if _max_len < new_current:", "bad"),
    ("C01", "meets", CO, "        new_current = current_max_path_length - 1\n        if _max_len < new_current:", "        new_current = current_max_path_length - 1\n        if _max_len <= new_current:", "same"),
    ("C01", "soundness", CO, "            current_max_path_length -= 1\n            return current_max_path_length", "            return current_max_path_length", "bad"),
    ("C01", "soundness", CO, "            _constraints = {}\n", "            continue\n", "bad"),
    ("C01", "soundness", CO, "        if current_max_path_length < 0:", "        if current_max_path_length < 0 and not naming_constraints['permitted']:", "bad"),
    ("C01", "completeness", CO, "        if current_max_path_length < 0:", "        if current_max_path_length <= 0 and max_assigned:", "bad"),
    ("C01", "soundness", CO, "        if current_max_path_length < 0:", "        if current_max_path_length < -1:", "bad"),
    ("C01", "completeness", CO, "        return 0\n\n    if max_assigned", "        return -1\n\n    if max_assigned", "bad"),
    ("C01", "soundness", CO, "        if 'max_path_length' in _constraints:\n            max_assigned = True", "        max_assigned = 'max_path_length' in _constraints", "bad"),
    ("C01", "soundness", CO, "        if 'max_path_length' in _constraints:\n", "        if _constraints.get('max_path_length'):\n", "bad"),
    ("C01", "meets", CO, "        if 'max_path_length' in _constraints:\n            max_assigned = True", "        max_assigned = max_assigned or 'max_path_length' in _constraints", "same"),
    ("C01", "soundness", CO, "    for statement in trust_chain[:-1]:", "    for statement in trust_chain[1:-1]:", "bad"),
    ("C01", "completeness", CO, "    for statement in trust_chain[:-1]:", "    for statement in trust_chain:", "bad"),
    ("C04", "expires_at", VF, "                if entity_statement['exp'] < exp:", "                if entity_statement['exp'] > exp:", "bad"),
    ("C04", "expires_at", VF, "                if entity_statement['exp'] < exp:", "                if entity_statement['exp'] <= exp:", "same"),
    ("C04", "expires_at", VF, "            if exp >= 0:", "            if exp > 0:", "bad"),
    ("C04", "expires_at", VF, "        for entity_statement in trust_chain:\n            if exp >= 0", "        for entity_statement in trust_chain[1:]:\n            if exp >= 0", "bad"),
    ("C04", "expires_at", VF, "            else:\n                exp = entity_statement['exp']\n        return exp", "            else:\n                exp = entity_statement['exp']\n                break\n        return exp", "bad"),
    ("C04", "is_expired", ST, "        if self.exp < now:", "        if self.exp <= now:", "bad"),
    ("C04", "is_expired", ST, "        if self.exp < now:", "        if self.exp and self.exp < now:", "bad"),
    ("C04", "is_expired", ST, "        if self.exp < now:", "        if now > self.exp:", "same"),
    ("C04", "statement_is_expired", "utils.py", "        if item[\"exp\"] < now:", "        if item[\"exp\"] <= now:", "bad"),
    ("C04", "statement_is_expired", "utils.py", "    if \"exp\" in item:", "    if item.get(\"exp\"):", "bad"),
    ("C04", "statement_is_expired", "utils.py", "    if \"exp\" in item:", "    if \"iat\" in item:", "bad"),
    ("C04", "statement_is_expired", "utils.py", "        if item[\"exp\"] < now:", "        if item[\"exp\"] + 60 < now:", "bad"),
    ("C08", "get_entity_statement", TC, "get_request_parameters(subject=subject, fetch_endpoint=fetch_endpoint,\n                                            issuer=issuer)", "get_request_parameters(subject=issuer, fetch_endpoint=fetch_endpoint,\n                                            issuer=subject)", "bad"),
    ("C08", "get_entity_statement", TC, "get_request_parameters(subject=subject, fetch_endpoint=fetch_endpoint,\n                                            issuer=issuer)", "get_request_parameters(fetch_endpoint=fetch_endpoint,\n                                            issuer=issuer)", "bad"),
    ("C08", "get_entity_configuration", TC, "            if _tres[\"url\"] != _res[\"url\"]:", "            if _tres[\"url\"] == _res[\"url\"]:", "bad"),
    ("C08", "get_entity_configuration", TC, "                self_signed_config = self.get_document(_tres[\"url\"])", "                self_signed_config = self.get_document(_res[\"url\"])", "bad"),
    ("C08", "get_request_parameters", ESC, "                msg['sub'] = subject", "                msg['sub'] = issuer", "bad"),
    ("C08", "get_request_parameters", ESC, "                msg['sub'] = subject", "                msg['subject'] = subject", "bad"),
    ("C08", "get_request_parameters", ESC, "            if issuer in _collector.config_cache:\n                _ec = _collector.config_cache[issuer]", "            if issuer in _collector.config_cache:\n                _ec = _collector.config_cache[subject]", "bad"),
    ("C08", "get_request_parameters", ESC, "        if not fetch_endpoint:\n            _federation_entity", "        if not fetch_endpoint or issuer:\n            _federation_entity", "bad"),
    ("C08", "collect_trust_chains (looked", FI, "_collector(entity_id, stop_at=stop_at)", "_collector(entity_id)", "bad"),
    ("C08", "collect_trust_chains (configuration", FI, "collect_tree(entity_id, entity_configuration, stop_at=stop_at)", "collect_tree(entity_id, entity_configuration)", "bad"),
    ("C08", "collect_trust_chains (configuration and", FI, "        if authority_hints:\n            entity_configuration", "        if authority_hints and 'authority_hints' in entity_configuration:\n            entity_configuration", "bad"),
    ("C08", "collect_trust_chains (configuration and", FI, "        if authority_hints:\n            entity_configuration", "        if authority_hints and 'authority_hints' not in entity_configuration:\n            entity_configuration", "bad"),
    ("C08", "collect_trust_chains", FI, "        return [], signed_entity_configuration\n", "        return [], None\n", "bad"),
    ("C08", "collect_trust_chains (configuration given", FI, "        entity_configuration = verify_self_signed_signature(signed_entity_configuration)\n        if auth", "        entity_configuration = unverified_entity_statement(signed_entity_configuration)\n        if auth", "bad"),
    ("C13", "FetchEntityStatement.create", FES, "export_jwks(issuer_id=_sub_id)", "export_jwks(issuer_id=self.make_entity_id(sub))", "bad"),
    ("C13", "FetchEntityStatement.create", FES, "export_jwks(issuer_id=_sub_id)", "export_jwks(issuer_id=self.make_entity_id(self.iss))", "bad"),
    ("C13", "FetchEntityStatement.create", FES, "        _info.update(kwargs)\n", "        _info = {**kwargs, **_info}\n", "bad"),
    ("C13", "FetchEntityStatement.create", FES, "        _info.update(kwargs)\n", "        _info = {**_info, **kwargs}\n", "same"),
    ("C13", "FetchEntityStatement.create", FES, "return create_entity_statement(self.make_entity_id(self.iss), _sub_id,", "return create_entity_statement(_sub_id, _sub_id,", "bad"),
    ("C13", "FetchEntityStatement.create", FES, "        _info['jwks'] = ", "        if 'jwks' not in _info:\n            _info['jwks'] = ", "bad"),
    ("C13", "gather_info", FS2, "            self.load_jwks(self.iss, sub, sub_id)", "            self.load_jwks(sub, sub, sub_id)", "bad"),
    ("C13", "gather_info", FS2, "            self.load_jwks(self.iss, self.iss, iss_id)", "            self.load_jwks(self.iss, self.iss, self.make_entity_id(sub))", "bad"),
    ("C13", "gather_info", FS2, "os.path.join(self.base_path, self.iss, sub, file)", "os.path.join(self.base_path, sub, sub, file)", "bad"),
    ("C13", "gather_info", FS2, "(\"constraints\", \"constraints.json\"),\n", "", "bad"),
    ("C13", "gather_info", FS2, "(\"metadata_policy\", \"policy.json\")", "(\"metadata_policy\", \"metadata_policy.json\")", "bad"),
    ("C13", "gather_info", FS2, "        if sub_id not in self.keyjar:", "        if sub not in self.keyjar:", "bad"),
    ("C13", "gather_info", FS2, "        if sub_id not in self.keyjar:", "        if sub_id not in self.keyjar and sub_id != iss_id:", "same"),
    ("C13", "Publisher", FS2, "(pt.netloc, p.netloc)", "(p.netloc, pt.netloc)", "bad"),
    ("C13", "Publisher", FS2, "        if p.path == '/.well-known/openid-federation':", "        if p.path.startswith('/.well-known'):", "bad"),
    ("C13", "Publisher", FS2, "        return fetch_api.create_entity_statement(entity_id)\n\n    def get", "        return fetch_api.create_entity_statement(issuer_id)\n\n    def get", "bad"),
    ("C18", "self_signed_signature (coll", "entity/function/trust_chain_collector.py", "    _val = _jwt.unpack(statement)\n    return _val", "    _jwt.unpack(statement)\n    return payload", "same"),
    ("C18", "self_signed_signature (coll", "entity/function/trust_chain_collector.py", "    _val = _jwt.unpack(statement)\n    return _val", "    return payload", "bad"),
    ("C18", "self_signed_signature (coll", "entity/function/trust_chain_collector.py", "    _val = _jwt.unpack(statement)\n    return _val", "    try:\n        return _jwt.unpack(statement)\n    except Exception:\n        return payload", "bad"),
    ("C19", "self_signed_signature (func", "entity/function/__init__.py", "    _val = _jwt.unpack(token)\n", "    _val = payload\n", "bad"),
    ("C19", "self_signed_signature (func", "entity/function/__init__.py", "    _val[\"_jws\"] = token\n", "    _val[\"sub\"] = token\n", "bad"),
    ("C19", "self_signed_signature (func", "entity/function/__init__.py", "    _val[\"_jws\"] = token\n", "", "same"),
    ("C22", "FederationContext.get_", CX, "        if isinstance(_hints, list):\n            return _hints", "        if isinstance(_hints, list):\n            return _hints[:1]", "bad"),
    ("C22", "FederationContext.get_", CX, "            return _hints()", "            return _hints", "bad"),
    ("C22", "FederationContext.get_", CX, "            return json.loads(open(_hints, \"r\").read())", "            return json.loads(_hints)", "bad"),
    ("C22", "FederationContext.get_", CX, "            return json.loads(open(_hints, \"r\").read())", "            with open(_hints, encoding=\"utf-8\") as fp:\n                return json.load(fp)", "same"),
    ("C22", "FederationContext.get_", CX, "        if self.trust_marks == None:\n            return []\n        elif", "        if not self.trust_marks:\n            return []\n        elif", "same"),
    ("C22", "FederationContext.get_", CX, "            return self.trust_marks()", "            return [self.trust_marks()]", "bad"),
    ("C22", "FederationContext.get_", CX, "return json.loads(open(self.trust_marks).read())", "return json.loads(open(self.trust_marks + '.json').read())", "bad"),
    ("C08", "get_document", TC, "        elif response.status_code == 404:", "        elif 400 <= response.status_code < 500:", "bad"),
    ("C08", "get_document", TC, "        if response.status_code == 200:", "        if response.text:", "bad"),
    ("C08", "get_document", TC, "        if response.status_code == 200:", "        if 200 <= response.status_code < 300:", "bad"),
    ("C08", "get_document", TC, "(\"GET\", url, **_httpc_params)", "(\"GET\", url.rstrip('/'), **_httpc_params)", "bad"),
    ("C08", "get_document", TC, "        if response.status_code == 200:\n            if 'app", "        _ok = response.status_code == 200\n        if _ok:\n            if 'app", "same"),
    ("C12", "self_signed", TE, "        if 'sub' not in kwargs:\n            kwargs['sub'] = _entity_id\n        return packer", "        kwargs['sub'] = _entity_id\n        return packer", "bad"),
    ("C12", "self_signed", TE, "        if 'sub' not in kwargs:\n            kwargs['sub'] = _entity_id\n        return packer", "        kwargs.setdefault('sub', _entity_id)\n        return packer", "same"),
    ("C14", "List.process_request", LI, "            subordinate_conf = None\n", "", "bad"),
    ("C10", "TrustMark.verify", MSGP, "            if _now > exp:", "            if _now > exp and entity_id:", "bad"),
    ("C10", "TrustMark.verify", MSGP, "            if _now > exp:", "            if exp < _now:", "same"),
    ("C22", "EntityConfiguration.process_request (marks", ECF, "        _trust_marks = _fed_entity.context.get_trust_marks()\n", "        _trust_marks = _fed_entity.context.trust_marks\n", "bad"),
    ("C22", "oidc.registration", "appclient/oidc/registration.py", "_context.get_trust_marks()", "_context.trust_marks", "bad"),
    ("C22", "oidc.registration", "appclient/oidc/registration.py", "            sub=_entity_id,\n            metadata", "            sub=_root,\n            metadata", "bad"),
    ("C22", "oauth2.registration", "appclient/oauth2/registration.py", "            authority_hints=_authority_hints,\n", "", "bad"),
    ("C22", "oauth2.registration", "appclient/oauth2/registration.py", "            metadata=metadata,\n            key_jar", "            metadata_policy=metadata,\n            key_jar", "bad"),
]
