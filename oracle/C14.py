"""The subordinate listing.  Monitor: random registrations, entity configurations served from memory with all kinds of gaps, all combinations
of filters; the listing is compared with the set that satisfies every filter given."""
import json

BUDGET = 60
BOUND = "up to 6 subordinates, 3 entity types, 3 trust mark identifiers, all combinations of the 4 filters"
RULE = "registrations, entity configurations and filters"
ASSUMPTIONS = ["when the request filters on trust marks, every subordinate's entity configuration can be fetched and is signed with the registered keys"]

TYPES = ["openid_relying_party", "openid_provider", "federation_entity"]
TMS = [f"https://marks.example.org/{x}" for x in ("a", "b", "ab")]
ME = "https://authority.example.org"


def listing(case):
    from . import fed
    net = fed.Net()
    fe = fed.entity(ME, net, endpoints=["entity_configuration", "fetch", "list"])
    subs = {}
    for n, s in case["subs"].items():
        info = {"jwks": fed.jwks(n)}
        for k in ("entity_types", "entity_type", "intermediate", "authority_hints"):
            if k in s:
                info[k] = s[k]
        subs[fed.eid(n)] = info
        kw = {}
        if "marks" in s:
            kw["trust_marks"] = [fed.sign({"iss": fed.eid("tmi"), "sub": fed.eid(n), "id": m[1:], "iat": fed.now()}, "tmi", typ="trust-mark+jwt") if m[0] == "j"
                                 else {"id": m[1:], "trust_mark": "x"} for m in s["marks"]]
        if s.get("gone"):
            continue
        net.pages[fed.well_known(n)] = fed.ec(n, s.get("hints"), {t: {} if t == "federation_entity" else {"organization_name": n} for t in s.get("md", [])} or {"federation_entity": {}}, **kw)
    fe.server.subordinate.update(json.loads(json.dumps(subs)))
    for req in case["reqs"]:
        want = []
        asks = req.get("trust_marked") or req.get("trust_mark_id")
        if asks and any(s.get("gone") for s in case["subs"].values()):
            continue   # it cannot be known: an error is an answer too
        for n, s in case["subs"].items():
            types = s.get("entity_types", s.get("entity_type", []))
            types = [types] if isinstance(types, str) else types
            if "entity_type" in req and req["entity_type"] not in types:
                continue
            if req.get("intermediate") and not s.get("intermediate"):
                continue
            if req.get("trust_marked") and not s.get("marks"):
                continue
            if req.get("trust_mark_id") and req["trust_mark_id"] not in [m[1:] for m in s.get("marks", [])]:
                continue
            want.append(fed.eid(n))
        try:
            ep = fe.get_endpoint("list")
            ep.extended = case.get("extended", False)
            r = ep.process_request(None if req == {"none": 1} else dict(req))
        except Exception as e:
            return f"{case}: {req}: {type(e).__name__} {e}; expected {want}"
        if req == {"none": 1}:
            want = [fed.eid(n) for n in case["subs"]]
        got = json.loads(r["response_msg"]) if "response_msg" in r else r
        if case.get("extended") and isinstance(got, dict) and "response_msg" in r:
            got = list(got)   # the extended form: one member for each
        if not isinstance(got, list) or sorted(got) != sorted(want):
            return f"{case}: {req}: lists {got}, should list {want}"
        if json.loads(json.dumps(dict(fe.server.subordinate))) != json.loads(json.dumps(subs)):
            return f"{case}: {req}: changed what is registered"


def rand_sub(r):
    s = {}
    x = r.random()
    if x < .55:
        s["entity_types"] = r.sample(TYPES, r.randint(0, 3))
    elif x < .75:
        s["entity_type"] = r.choice([r.choice(TYPES), r.sample(TYPES, 2)])
    if r.random() < .5:
        s["intermediate"] = r.choice([True, True, False])
    if r.random() < .6:
        s["marks"] = [r.choice("jd") + r.choice(TMS) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if r.random() < .05:
        s["gone"] = True
    if r.random() < .7:
        s["md"] = r.sample(TYPES, r.randint(1, 2))
    return s


def run(ctx):
    r = ctx.rnd
    combos = [{"none": 1}, {}]
    for et in (None, *TYPES, "nothing"):
        for im in (None, True, False):
            for tm in (None, True, False):
                for ti in (None, *TMS, "https://marks.example.org/none"):
                    q = {k: v for k, v in (("entity_type", et), ("intermediate", im), ("trust_marked", tm), ("trust_mark_id", ti)) if v is not None}
                    if q and q not in combos:
                        combos.append(q)
    base = {"s0": {"entity_types": [TYPES[0]], "marks": ["j" + TMS[0]]}, "s1": {"entity_types": TYPES, "intermediate": True, "marks": ["j" + TMS[1], "j" + TMS[0]]}, "s2": {},
            "s3": {"entity_type": TYPES[0], "marks": []}, "s4": {"entity_types": [TYPES[2]], "intermediate": True, "marks": ["d" + TMS[2]]}, "s5": {"intermediate": False, "marks": ["d" + TMS[0], "j" + TMS[2]]}}
    for i in range(0, len(combos), 20):
        ctx.run(listing, {"subs": base, "reqs": combos[i:i + 20]})
        ctx.run(listing, {"subs": base, "reqs": combos[i:i + 20], "extended": True})
    n = 0
    while not ctx.stop() and n < (3000 if ctx.thorough else 200):
        n += 1
        ctx.run(listing, {"subs": {f"s{i}": rand_sub(r) for i in range(r.randint(0, 6))}, "reqs": r.sample(combos, r.randint(1, 6)), "extended": r.random() < .3})
