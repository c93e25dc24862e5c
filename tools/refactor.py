#!/usr/bin/env python3
"""refactor.py [name-substr ..]: edits that keep the behaviour; every registered check of the listed properties has to stay quiet.  With --bugs: the planted bugs of
bugs.py, each of which the checks have to report.

Each entry: (name, properties, file, [(old, new), ...])."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CO, PO, TC, TV, EN = "entity_statement/constraints.py", "entity/function/policy.py", "entity/function/trust_chain_collector.py", "entity/function/verifier.py", "entity/function/__init__.py"
R = [
    ("constraints-helper", "C01 C02", CO, [
        ("        # if explicitly excluded return False\n        if 'excluded' in naming_constraints and naming_constraints['excluded']:\n            if excluded(statement['sub'], naming_constraints['excluded']):\n                return False\n\n        # If there is a list of permitted it must be in there\n        if 'permitted' in naming_constraints and naming_constraints['permitted']:\n            if not permitted(statement['sub'], naming_constraints[\"permitted\"]):\n                return False\n\n    # Now",
         "        if not name_allowed(statement['sub'], naming_constraints):\n            return False\n\n    # Now"),
        ("    # if explicitly excluded return False\n    if 'excluded' in naming_constraints and naming_constraints['excluded']:\n        if excluded(statement['sub'], naming_constraints['excluded']):\n            return False\n\n    # If there is a list of permitted it must be in there\n    if 'permitted' in naming_constraints and naming_constraints['permitted']:\n        if not permitted(statement['sub'], naming_constraints[\"permitted\"]):\n            return False\n\n    return True",
         "    return name_allowed(statement['sub'], naming_constraints)"),
        ("def meets_restrictions(", "def name_allowed(subject, naming_constraints):\n    _excluded = naming_constraints.get('excluded')\n    if _excluded and excluded(subject, _excluded):\n        return False\n    _permitted = naming_constraints.get('permitted')\n    if _permitted and not permitted(subject, _permitted):\n        return False\n    return True\n\n\ndef meets_restrictions(")]),
    ("constraints-any", "C01 C02", CO, [
        ("    for excl in excluded_ids:\n        if more_specific(subject_id, excl):\n            return True\n    return False", "    return any(more_specific(subject_id, excl) for excl in excluded_ids)"),
        ("    for perm in permitted_id:\n        if more_specific(subject_id, perm):\n            return True\n    return False", "    return any(more_specific(subject_id, perm) for perm in permitted_id)")]),
    ("constraints-length", "C01 C02", CO, [
        ("    try:\n        _max_len = constraints['max_path_length']\n    except KeyError:\n        if max_assigned:\n            current_max_path_length -= 1\n            return current_max_path_length\n\n        return 0\n\n    if max_assigned:\n        new_current = current_max_path_length - 1\n        if _max_len < new_current:\n            return _max_len\n        else:\n            return new_current\n\n    return _max_len",
         "    remaining = current_max_path_length - 1\n    if 'max_path_length' not in constraints:\n        return remaining if max_assigned else 0\n    _max_len = constraints['max_path_length']\n    return min(_max_len, remaining) if max_assigned else _max_len")]),
    ("constraints-get", "C01 C02", CO, [
        ("        try:\n            _constraints = statement['constraints']\n        except KeyError:\n            # What the superiors have set still applies\n            _constraints = {}\n", "        _constraints = statement.get('constraints', {})\n"),
        ("        if 'max_path_length' in _constraints:\n            max_assigned = True\n", "        max_assigned = max_assigned or 'max_path_length' in _constraints\n")]),
    ("constraints-updspecs", "C01 C02", CO, [
        ("    _updated = []\n    _replaced = False\n    for _old in old_constraints:\n        _replaced = False\n        for _new in new_constraints:\n            if more_specific(_new, _old):\n                _updated.append(_new)\n                _replaced = True\n\n        if not _replaced:\n            _updated.append(_old)\n    return _updated",
         "    _updated = []\n    for _old in old_constraints:\n        _narrower = [_new for _new in new_constraints if more_specific(_new, _old)]\n        _updated.extend(_narrower if _narrower else [_old])\n    return _updated")]),
    ("constraints-unc", "C01 C02", CO, [
        ("    try:\n        new_constraints = constraints['naming_constraints']\n    except KeyError:\n        pass\n    else:\n        naming_constraints = add_constraints(new_constraints, naming_constraints)\n\n    return naming_constraints",
         "    if 'naming_constraints' not in constraints:\n        return naming_constraints\n    return add_constraints(constraints['naming_constraints'], naming_constraints)")]),
    ("policy-dofun", "C05 C06 C07", PO, [
        ("    if policy in superior and policy in child:\n        comb = OP2FUNC[policy](superior[policy], child[policy])\n        if comb:\n            return comb\n        else:\n            raise PolicyError(\"Value sets doesn't overlap\")\n    elif policy in superior:\n        return superior[policy]\n    elif policy in child:\n        return child[policy]\n\n\ndef do_value",
         "    if policy not in child:\n        return superior.get(policy)\n    if policy not in superior:\n        return child[policy]\n    comb = OP2FUNC[policy](superior[policy], child[policy])\n    if not comb:\n        raise PolicyError(\"Value sets doesn't overlap\")\n    return comb\n\n\ndef do_value")]),
    ("policy-gather", "C05 C06 C07", PO, [
        ("        _rule = {'metadata_policy': {}, 'metadata': {}}\n        for _item in ['metadata_policy', 'metadata']:\n            try:\n                _rule[_item] = chain[0][_item][entity_type]\n            except KeyError:\n                pass\n", "        _rule = self._stated(chain[0], entity_type)\n"),
        ("            _sub_policy = {'metadata_policy': {}, 'metadata': {}}\n            for _item in ['metadata_policy', 'metadata']:\n                try:\n                    _sub_policy[_item] = es[_item][entity_type]\n                except KeyError:\n                    pass\n", "            _sub_policy = self._stated(es, entity_type)\n"),
        ("    def gather_policies(", "    @staticmethod\n    def _stated(statement, entity_type):\n        _rule = {'metadata_policy': {}, 'metadata': {}}\n        for _item in ['metadata_policy', 'metadata']:\n            try:\n                _rule[_item] = statement[_item][entity_type]\n            except KeyError:\n                pass\n        return _rule\n\n    def gather_policies(")]),
    ("policy-combine-loops", "C05 C06 C07", PO, [
        ("        for claim in set(super_set).intersection(child_set):\n            _metadata_policy[claim] = combine_claim_policy(_sup_policy[claim], _sub_policy[claim])\n\n        # only in super\n        for claim in super_set.difference(child_set):\n            _metadata_policy[claim] = _sup_policy[claim]\n\n        # only if child\n        for claim in child_set.difference(super_set):\n            _metadata_policy[claim] = _sub_policy[claim]\n",
         "        for claim in super_set.union(child_set):\n            if claim not in child_set:\n                _metadata_policy[claim] = _sup_policy[claim]\n            elif claim not in super_set:\n                _metadata_policy[claim] = _sub_policy[claim]\n            else:\n                _metadata_policy[claim] = combine_claim_policy(_sup_policy[claim], _sub_policy[claim])\n")]),
    ("policy-apply", "C05 C06 C07", PO, [
        ("        metadata = metadata.copy()\n        _metadata = policy.get(\"metadata\", None)\n        if _metadata:\n            # What a superior has set can not be changed by a subordinate\n            metadata.update(_metadata)\n",
         "        metadata = {**metadata, **(policy.get(\"metadata\") or {})}\n")]),
    ("policy-evalloop", "C05 C06 C07", PO, [
        ("        i = 0\n        while True:\n            _policy_op = policy_operators[i]\n            if _policy_op.name in metadata_policy.get(claim, {}):\n                _next = _policy_op(claim, metadata, metadata_policy)\n                if _next:\n                    i = op_place(_next, policy_operators, i)\n                    continue\n            i += 1\n            if i >= len(policy_operators):\n                break\n",
         "        i = 0\n        rules = metadata_policy[claim]\n        while i < len(policy_operators):\n            _policy_op = policy_operators[i]\n            _next = None\n            if _policy_op.name in rules:\n                _next = _policy_op(claim, metadata, metadata_policy)\n            if _next:\n                i = op_place(_next, policy_operators, i)\n            else:\n                i += 1\n")]),
    ("policy-call", "C05 C06 C07 C08", PO, [
        ("            if entity_type:\n                trust_chain.metadata[entity_type] = self._policy(trust_chain, entity_type)\n            else:\n                for _type in trust_chain.verified_chain[-1]['metadata'].keys():\n                    trust_chain.metadata[_type] = self._policy(trust_chain, _type)\n",
         "            _types = [entity_type] if entity_type else list(trust_chain.verified_chain[-1]['metadata'].keys())\n            for _type in _types:\n                trust_chain.metadata[_type] = self._policy(trust_chain, _type)\n")]),
    ("policy-value-check", "C05", PO, [
        ("            for policy in [\"one_of\", \"subset_of\"]:\n                if policy in rule and not _value.issubset(rule[policy]):\n                    raise PolicyError(f\"value not a subset of {policy}\")\n            for policy in [\"superset_of\", \"add\"]:\n                if policy in rule and not _value.issuperset(to_set(rule[policy])):\n                    raise PolicyError(f\"value not a superset of {policy}\")\n",
         "            check_value(_value, rule)\n"),
        ("def combine_claim_policy(", "def check_value(_value, rule):\n    for policy in [\"one_of\", \"subset_of\"]:\n        if policy in rule and not _value.issubset(rule[policy]):\n            raise PolicyError(f\"value not a subset of {policy}\")\n    for policy in [\"superset_of\", \"add\"]:\n        if policy in rule and not _value.issuperset(to_set(rule[policy])):\n            raise PolicyError(f\"value not a superset of {policy}\")\n\n\ndef combine_claim_policy(")]),
    ("collector-tree", "C08 C09 C03", TC, [
        ("        for authority in entity_configuration['authority_hints']:\n            if authority in seen:  # loop ?!\n                logger.warning(f\"Loop detected at {authority}\")\n                continue\n            superior[authority] = self.collect_branch(entity_id, authority, seen,\n                                                      max_superiors, stop_at=stop_at)\n\n        return superior",
         "        _hints = [a for a in entity_configuration['authority_hints'] if a not in seen]\n        for _hint in _hints:\n            superior[_hint] = self.collect_branch(entity_id, _hint, seen, max_superiors, stop_at=stop_at)\n\n        return superior")]),
    ("collector-branch", "C08 C09", TC, [
        ("        if seen is None:\n            _seen = []\n        else:\n            _seen = seen[:]\n\n        _seen.append(authority)\n", "        _seen = (seen or []) + [authority]\n"),
        ("        if entity_statement:\n            _entity_configuration = self.config_cache[authority]\n            if _entity_configuration is None:  # Too old, get a new one\n                self.get_federation_fetch_endpoint(authority)\n                _entity_configuration = self.config_cache[authority]\n            return entity_statement, self.collect_tree(authority,\n                                                       _entity_configuration,\n                                                       stop_at=stop_at,\n                                                       seen=_seen,\n                                                       max_superiors=max_superiors)\n        else:\n            return None",
         "        if not entity_statement:\n            return None\n\n        _ec = self._fresh_configuration(authority)\n        _branch = self.collect_tree(authority, _ec, seen=_seen, max_superiors=max_superiors, stop_at=stop_at)\n        return entity_statement, _branch\n\n    def _fresh_configuration(self, authority):\n        _ec = self.config_cache[authority]\n        if _ec is None:\n            self.get_federation_fetch_endpoint(authority)\n            _ec = self.config_cache[authority]\n        return _ec")]),
    ("collector-statement", "C08 C09", TC, [
        ("            _now = utc_time_sans_frac()\n            _time_key = time_key(authority, entity)\n            _exp = self.entity_statement_cache[_time_key]\n            if _now > (_exp - self.allowed_delta):\n",
         "            _time_key = time_key(authority, entity)\n            _limit = self.entity_statement_cache[_time_key] - self.allowed_delta\n            if utc_time_sans_frac() > _limit:\n"),
        ("        now = time.time()\n        if now >= statement[\"exp\"] - self.allowed_delta:\n            return True\n        else:\n            return False", "        return time.time() >= statement[\"exp\"] - self.allowed_delta")]),
    ("collector-chain", "C21 C08", TC, [
        ("        for i in range(len(iss_path) - 1):\n            res.append(self.entity_statement_cache[cache_key(iss_path[i + 1], iss_path[i])])\n",
         "        for subject, issuer in zip(iss_path, iss_path[1:]):\n            res.append(self.entity_statement_cache[cache_key(issuer, subject)])\n")]),
    ("verifier-linked", "C03 C04", TV, [
        ("        for superior, subordinate in zip(statements, statements[1:]):\n            if superior['sub'] == subordinate['iss']:\n                continue\n            if subordinate is statements[-1] and superior['sub'] == subordinate['sub']:\n                continue\n            logger.warning(f\"Broken trust chain between {superior['sub']} and {subordinate['iss']}\")\n            return False\n        return True",
         "        for i in range(len(statements) - 1):\n            superior, subordinate = statements[i], statements[i + 1]\n            _last = i == len(statements) - 2\n            if superior['sub'] != subordinate['iss'] and not (_last and superior['sub'] == subordinate['sub']):\n                logger.warning(\"Broken trust chain\")\n                return False\n        return True")]),
    ("verifier-keys", "C03", TV, [
        ("                    # A copy since KeyBundle modifies the key descriptions\n                    _kb = KeyBundle(keys=[k.copy() for k in _jwks['keys']])\n                    try:\n                        old = _keyjar.get_issuer_keys(res['sub'])\n                    except KeyError:\n                        _keyjar.add_kb(res['sub'], _kb)\n                    else:\n",
         "                    _kb = KeyBundle(keys=[dict(k) for k in _jwks['keys']])\n                    _sub = res['sub']\n                    try:\n                        old = _keyjar.get_issuer_keys(_sub)\n                    except KeyError:\n                        _keyjar.add_kb(_sub, _kb)\n                    else:\n")]),
    ("verifier-exp", "C04 C03", TV, [
        ("        exp = -1\n        for entity_statement in trust_chain:\n            if exp >= 0:\n                if entity_statement['exp'] < exp:\n                    exp = entity_statement['exp']\n            else:\n                exp = entity_statement['exp']\n        return exp", "        return min(es['exp'] for es in trust_chain)")]),
    ("verifier-call", "C04 C03 C08", TV, [
        ("        iss_path = [x['iss'] for x in verified_trust_chain]\n        trust_chain.anchor = iss_path[0]\n        iss_path.reverse()\n        trust_chain.iss_path = iss_path\n", "        trust_chain.iss_path = [x['iss'] for x in reversed(verified_trust_chain)]\n        trust_chain.anchor = trust_chain.iss_path[-1]\n")]),
    ("verifier-anchor", "C03", TV, [
        ("            if payload['iss'] not in _federation_entity.trust_anchors or \\\n                    payload['iss'] not in _federation_entity.keyjar:\n                logger.warning(\n                    f\"Trust chain ending in a trust anchor I do not know: {payload['iss']}\", )\n                return False\n        else:",
         "            _anchor = payload['iss']\n            _known = _anchor in _federation_entity.trust_anchors and _anchor in _federation_entity.keyjar\n            if not _known:\n                logger.warning(f\"Unknown trust anchor: {_anchor}\")\n                return False\n        else:")]),
    ("function-collect", "C08 C17 C19 C21", EN, [
        ("    res = []\n    for c in chains:\n        if entity_statements:\n            c.extend(entity_statements)\n        trust_chain = _verifier(c)\n        if trust_chain:\n            res.append(trust_chain)\n    return res",
         "    res = []\n    for c in chains:\n        c.extend(entity_statements)\n        trust_chain = _verifier(c)\n        if trust_chain is not None:\n            res.append(trust_chain)\n    return res"),
        ("    res = []\n    for trust_chain in trust_chains:\n        _policy_applier(trust_chain)\n        res.append(trust_chain)\n    return res", "    for trust_chain in trust_chains:\n        _policy_applier(trust_chain)\n    return list(trust_chains)"),
        ("    if len(chains) == 0:\n        return []\n\n    trust_chains = verify_trust_chains(unit, chains, leaf_ec)\n    trust_chains = apply_policies(unit, trust_chains)\n    return trust_chains", "    if not chains:\n        return []\n\n    return apply_policies(unit, verify_trust_chains(unit, chains, leaf_ec))")]),
]


def run(job):
    name, prop, file, subs = job
    d = tempfile.mkdtemp(prefix="rf")
    try:
        shutil.copytree(f"{REPO}/src", f"{d}/src")
        p = f"{d}/src/fedservice/{file}"
        s = open(p).read()
        for a, b in subs:
            if s.count(a) != 1:
                return name, prop, f"STALE {s.count(a)} {a[:60]!r}", ""
            s = s.replace(a, b)
        open(p, "w").write(s)
        w = f"{d}/verif"
        shutil.copytree(HERE, w, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        os.makedirs(w + "/evidence", exist_ok=True)
        r = subprocess.run([f"{w}/check.py", prop], env={**os.environ, "VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, capture_output=True, text=True, timeout=1500, cwd=w)
        und = [l for l in r.stdout.splitlines() if "undecided" in l.lower()]
        bad = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "refuted" in l or "unknown" in l]
        return name, prop, f"exit {r.returncode}", " | ".join((bad + und)[:6] + ([r.stderr[-300:]] if r.returncode not in (0, 1) else []))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sel = [a for a in sys.argv[1:] if a != "--bugs"]
    bugs = "--bugs" in sys.argv
    want = "exit 1" if bugs else "exit 0"
    if bugs:
        from bugs import B as R
    else:
        from refactor_more import M
        R += M
    jobs = [(n, p, f, s) for n, ps, f, s in R if not sel or any(x in n for x in sel) for p in ps.split()]
    n = 0
    with ThreadPoolExecutor(2) as ex:
        for name, prop, st, info in ex.map(run, jobs):
            n += st != want
            print("ok  " if st == want else "????", name, prop, st, info[:700], flush=True)
    print(f"{len(jobs)} runs, {n} not as expected")
