"""A federation in memory for the bounded monitors: keys, signed statements, an HTTP client that answers from a dict.
Nothing here touches the network or the file system."""
import copy
import json
import logging
import time

logging.disable(logging.CRITICAL)

from cryptojwt.jwk.ec import new_ec_key
from cryptojwt.jws.jws import JWS

EC_KEY_CONF = {"key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]}]}
_KEYS = {}


def key(name):
    """one EC key per name (the same for the whole run)"""
    if name not in _KEYS:
        k = new_ec_key(crv="P-256", use="sig")
        k.kid = "kid-" + str(name)
        _KEYS[name] = k
    return _KEYS[name]


def jwks(*names):
    return {"keys": [key(n).serialize(private=False) for n in names]}


def sign(payload, k, typ="entity-statement+jwt", alg="ES256"):
    """payload signed with the key named k (or a key object)"""
    k = k if not isinstance(k, (str, int)) else key(k)
    j = JWS(json.dumps(payload), alg=alg, kid=k.kid, typ=typ)
    return j.sign_compact(keys=[k])


def payload_of(token):
    from cryptojwt.jws.jws import factory
    return factory(token).jwt.payload()


def eid(n):
    return f"https://{n}.example.org"


def now():
    return int(time.time())


class Resp:
    def __init__(self, text, status=200, ctype="application/entity-statement+jwt"):
        self.text, self.status_code, self.headers = text, status, {"Content-Type": ctype, "content-type": ctype}
        self.content = text.encode() if isinstance(text, str) else text
        self.url, self.ok, self.reason = "", status == 200, ""

    def json(self):
        return json.loads(self.text)


class Net:
    """stands in for requests.request"""

    def __init__(self):
        self.pages, self.log = {}, []

    def __call__(self, method, url, **kw):
        self.log.append((method, url, kw.get("data")))
        if len(self.log) > 5000:
            raise RuntimeError("the collection does not end")
        p = self.pages.get(url)
        if callable(p):
            p = p(method, url, **kw)
        if p is None:
            return Resp("not here", 404, "text/html")
        if isinstance(p, Resp):
            return p
        if isinstance(p, tuple):
            return Resp(p[1], 200, p[0])
        return Resp(p)


def well_known(i):
    return f"{eid(i)}/.well-known/openid-federation"


def entity(entity_id, net=None, trust_anchors=None, **kw):
    """a FederationEntity with the default functions, its own dict of trust anchors and an EC key"""
    from fedservice.utils import make_federation_entity
    from fedservice.defaults import DEFAULT_FEDERATION_ENTITY_FUNCTIONS
    ta = dict(trust_anchors or {})
    kw.setdefault("key_config", EC_KEY_CONF)
    fe = make_federation_entity(entity_id, **kw)
    fe.function.trust_chain_collector.trust_anchors = {}
    for i, j in ta.items():
        fe.keyjar.import_jwks(j, i)
        fe.function.trust_chain_collector.trust_anchors[i] = j
    if net is not None:
        set_net(fe, net)
    return fe


CURRENT = [None]


def set_net(fe, net):
    """every HTTP request of this process goes to net from now on"""
    CURRENT[0] = net


def _request(self, method, url, **kw):
    if CURRENT[0] is None:
        raise ConnectionError("no network")
    return CURRENT[0](method, url, **kw)


import requests

requests.sessions.Session.request = _request


def ec(i, hints=None, metadata=None, keyname=None, lifetime=86400, **kw):
    """signed entity configuration of the entity named i"""
    t = now()
    p = {"iss": eid(i), "sub": eid(i), "iat": t, "exp": t + lifetime, "jwks": jwks(keyname or i),
         "metadata": metadata if metadata is not None else {"federation_entity": {"federation_fetch_endpoint": eid(i) + "/fetch"}}}
    if hints:
        p["authority_hints"] = [eid(h) for h in hints]
    p.update(kw)
    return sign(p, keyname or i)


def es(a, s, keyname=None, subkey=None, lifetime=86400, **kw):
    """signed statement by a about s"""
    t = now()
    p = {"iss": eid(a), "sub": eid(s), "iat": t, "exp": t + lifetime, "jwks": jwks(subkey or s)}
    p.update(kw)
    p = {k: v for k, v in p.items() if v is not None}
    return sign(p, keyname or a)


def fetch_url(a, s):
    from urllib.parse import urlencode
    return f"{eid(a)}/fetch?" + urlencode({"iss": eid(a), "sub": eid(s)})


class Federation:
    """names -> {hints, metadata, statements}; serves entity configurations and statements from memory"""

    def __init__(self, hints, metadata=None, statement=None, lifetime=None, net=None):
        self.net = net or Net()
        self.hints, self.metadata, self.statement = hints, metadata or {}, statement or {}
        lifetime = lifetime or {}
        for i in hints:
            md = {"federation_entity": {"federation_fetch_endpoint": eid(i) + "/fetch"}}
            md.update(copy.deepcopy(self.metadata.get(i, {})))
            self.net.pages[well_known(i)] = ec(i, hints[i], md, lifetime=lifetime.get(i, 86400))
            for a in hints[i] or []:
                self.net.pages[fetch_url(a, i)] = es(a, i, lifetime=lifetime.get((a, i), 86400),
                                                     **copy.deepcopy(self.statement.get((a, i), {})))


class Frozen:
    """the clock as fedservice sees it"""

    MODULES = ["fedservice.entity_statement.cache", "fedservice.entity_statement.statement", "fedservice.utils",
               "fedservice.entity.function.trust_chain_collector", "fedservice.trust_mark_entity", "fedservice.trust_mark_entity.entity",
               "fedservice.trust_mark_entity.server.trust_mark_status", "cryptojwt.jwt"]

    def __init__(self, t):
        self.t = t

    def __enter__(self):
        import sys
        import time as _time
        self.saved = []
        me = self

        class FakeTime:
            def __getattr__(self, n):
                return getattr(_time, n)

            def time(self):
                return float(me.t)

        for m in list(sys.modules.values()):
            n = getattr(m, "__name__", "")
            if n.startswith("fedservice") or n.startswith("idpyoidc") or n == "cryptojwt.jwt":
                for a, v in list(vars(m).items()):
                    if a == "utc_time_sans_frac" and callable(v):
                        self.saved.append((m, a, v))
                        setattr(m, a, lambda me=me: int(me.t))
                    elif v is _time:
                        self.saved.append((m, a, v))
                        setattr(m, a, FakeTime())
                    elif v is _time.time:
                        self.saved.append((m, a, v))
                        setattr(m, a, lambda me=me: float(me.t))
        return self

    def __exit__(self, *a):
        for m, k, v in self.saved:
            setattr(m, k, v)
