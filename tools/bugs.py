"""Planted bugs (refactor.py --bugs): (name, properties any check of which has to report it, file, [(old, new), ...])."""
MS, CT, EI, FE = "message.py", "entity/context.py", "entity/__init__.py", "entity/function/__init__.py"
TC, TV, VF, PO = (f"entity/function/{n}.py" for n in ("trust_chain_collector", "trust_mark_verifier", "verifier", "policy"))
ST, CR = "entity_statement/statement.py", "entity_statement/create.py"
RS, FT, LI, ECF = (f"entity/server/{n}.py" for n in ("resolve", "fetch", "list", "entity_configuration"))
TE, TMX = "trust_mark_entity/entity.py", "trust_mark_entity/__init__.py"
OIR, OAR = "appserver/oidc/registration.py", "appserver/oauth2/registration.py"
B = [
    ("resolve-first", "C21", RS, [("            if _trust_anchor == trust_chain.anchor:\n                _chain = trust_chain\n                break",
                                   "            if _chain is None or _trust_anchor == trust_chain.anchor:\n                _chain = trust_chain")]),
    ("resolve-keys", "C21", RS, [("metadata=metadata,\n", "metadata=_chain.verified_chain[-1]['metadata'],\n")]),
    ("resolve-no-stop-unverified", "C21", RS, [("        _trust_chains = apply_policies(_federation_entity, _trust_chains)\n", "        if len(_trust_chains) == 1:\n            _trust_chains = apply_policies(_federation_entity, _trust_chains)\n        else:\n            for _tc in _trust_chains:\n                _tc.metadata = _tc.verified_chain[-1]['metadata']\n")]),
    ("fetch-mutates", "C13", FT, [("            _response = dict(_response)\n", "")]),
    ("fetch-update-merge", "C13", FT, [("                _response.update(_policy)", "                _response.update({k: v for k, v in _policy.items() if k not in _response})")]),
    ("context-lifetime", "C22", CT, [("        if not lifetime:\n            lifetime = self.default_lifetime", "        lifetime = min(lifetime or self.default_lifetime, self.default_lifetime)")]),
    ("context-hints", "C22", CT, [("        if not authority_hints:\n            authority_hints = self.authority_hints", "        authority_hints = self.authority_hints or authority_hints")]),
    ("ec-marks", "C22", ECF, [("        if _fed_entity.context.trust_marks:\n            if isinstance", "        if _fed_entity.context.trust_marks and not _fed_entity.upstream_get:\n            if isinstance")]),
    ("message-mark-iat", "C10", MS, [("        'iat': SINGLE_REQUIRED_INT,\n        \"id\": SINGLE_REQUIRED_STRING,\n        \"logo_uri\"", "        'iat': SINGLE_OPTIONAL_INT,\n        \"id\": SINGLE_REQUIRED_STRING,\n        \"logo_uri\"")]),
    ("message-mark-sub", "C10", MS, [("        \"sub\": SINGLE_REQUIRED_STRING,\n        'iss': SINGLE_REQUIRED_STRING,\n        'iat': SINGLE_REQUIRED_INT,\n        \"id\": SINGLE_REQUIRED_STRING,\n        \"logo_uri\"", "        \"sub\": SINGLE_OPTIONAL_STRING,\n        'iss': SINGLE_REQUIRED_STRING,\n        'iat': SINGLE_REQUIRED_INT,\n        \"id\": SINGLE_REQUIRED_STRING,\n        \"logo_uri\"")]),
    ("policy-value-type", "C15", MS, [("if k not in [\"value\", \"default\"]})", "if k not in [\"value\", \"default\", *kwargs.get('policy_language_crit', [])]})")]),
    ("oir-own-metadata", "C18", OIR, [("RegistrationRequest(**trust_chain.metadata[opponent_entity_type])", "RegistrationRequest(**{**payload['metadata'][opponent_entity_type], **trust_chain.metadata[opponent_entity_type]})")]),
    ("verified-without-leaf", "C03 C17 C10", FE, [("    trust_chains = verify_trust_chains(unit, chains, leaf_ec)\n    trust_chains = apply", "    trust_chains = verify_trust_chains(unit, chains)\n    trust_chains = apply")]),
    ("delegation-unbound", "C10", TV, [("_info.get('id') != trust_mark['id'] or _info.get('sub') != trust_mark['iss']", "_info.get('id') != trust_mark['id'] and _info.get('sub') != trust_mark['iss']")]),
    ("delegation-payload", "C10", TV, [("        _info = _delegation.verify_compact(keys=keys)\n", "        _info = _delegation.verify_compact(keys=keys) if keys else _delegation.jwt.payload()\n")]),
    ("mark-keys", "C10", TV, [("_trust_chains[0].verified_chain[-1][\"jwks\"],", "_trust_chains[0].verified_chain[0][\"jwks\"],")]),
    ("status-inactive", "C10", EI, [("if \"active\" in resp and resp[\"active\"] == True:", "if \"active\" not in resp or resp[\"active\"] == True:")]),
    ("collector-stop", "C08", TC, [("        elif entity_configuration['iss'] == stop_at:", "        elif entity_id == stop_at or entity_id in self.trust_anchors:")]),
    ("collector-seen-shared", "C08", TC, [("            _seen = seen[:]\n", "            _seen = seen\n")]),
    ("cache-order", "C09", TC, [("            if _now > (_exp - self.allowed_delta):", "            if _now > (_exp + self.allowed_delta):")]),
    ("too-old", "C09", TC, [("        if now >= statement[\"exp\"] - self.allowed_delta:", "        if now >= statement[\"exp\"]:")]),
    ("getchain-order", "C21", TC, [("cache_key(iss_path[i + 1], iss_path[i])", "cache_key(iss_path[-1], iss_path[i])")]),
]
