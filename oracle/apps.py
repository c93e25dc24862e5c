"""OpenID providers, OAuth2 servers and clients for the monitors; no files, no network."""
import copy

from . import fed

KEYS = {"key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]}, {"type": "RSA", "use": ["sig"]}]}
CRYPT = {"kwargs": {"keys": {"key_defs": [{"type": "OCT", "use": ["enc"], "kid": "password"}, {"type": "OCT", "use": ["enc"], "kid": "salt"}]}, "iterations": 1}}
SESSION = {"encrypter": CRYPT}
RT = ["code", "id_token", "code id_token"]


def token_args(idt=True):
    d = {"code": {"lifetime": 600, "kwargs": {"crypt_conf": CRYPT}},
         "token": {"class": "idpyoidc.server.token.jwt_token.JWTToken", "kwargs": {"lifetime": 3600}}}
    if idt:
        d["id_token"] = {"class": "idpyoidc.server.token.id_token.IDToken", "kwargs": {}}
    return copy.deepcopy(d)


def op(entity_id, net, trust_anchors, authority_hints=(), new_client_id=None, reg_kwargs=None, types=("automatic", "explicit"), **pref):
    from fedservice.utils import make_federation_combo
    from fedservice.defaults import federation_services
    akw = {"response_types_supported": RT, "response_modes_supported": ["query", "fragment", "form_post"], "client_registration_types_supported": list(types)}
    if new_client_id is not None:
        akw["new_client_id"] = new_client_id
    cfg = {"preference": {"subject_types_supported": ["public", "pairwise"], "grant_types_supported": ["authorization_code", "implicit", "refresh_token"],
                          "request_authentication_methods_supported": {"authorization_endpoint": ["request_object"]}, "client_registration_types_supported": list(types), **pref},
           "token_handler_args": token_args(), "key_conf": KEYS, "keys": KEYS,
           "endpoint": {"registration": {"path": "registration", "class": "fedservice.appserver.oidc.registration.Registration", "kwargs": dict(reg_kwargs or {})},
                        "authorization": {"path": "authorization", "class": "fedservice.appserver.oidc.authorization.Authorization", "kwargs": akw},
                        "token": {"path": "token", "class": "idpyoidc.server.oidc.token.Token", "kwargs": {"client_authn_method": ["client_secret_basic", "private_key_jwt"]}}},
           "template_dir": "template", "session_params": SESSION}
    e = make_federation_combo(entity_id, preference={"organization_name": "The OP"}, authority_hints=list(authority_hints), endpoints=["entity_configuration"],
                              key_config=copy.deepcopy(KEYS), trust_anchors=copy.deepcopy(trust_anchors), services=federation_services("entity_configuration", "entity_statement"),
                              entity_type={"openid_provider": {"class": "fedservice.appserver.ServerEntity", "kwargs": {"key_conf": KEYS, "config": cfg}}})
    fed.set_net(e, net)
    return e


def oas(entity_id, net, trust_anchors, authority_hints=(), new_client_id=None, par=True, types=("automatic", "explicit"), **pref):
    from fedservice.utils import make_federation_combo
    from fedservice.defaults import federation_services
    akw = {"response_types_supported": ["code"], "response_modes_supported": ["query", "form_post"], "client_registration_types_supported": list(types)}
    if new_client_id is not None:
        akw["new_client_id"] = new_client_id
    ep = {"registration": {"path": "registration", "class": "fedservice.appserver.oauth2.registration.Registration", "kwargs": {}},
          "authorization": {"path": "authorization", "class": "fedservice.appserver.oauth2.authorization.Authorization", "kwargs": akw},
          "token": {"path": "token", "class": "idpyoidc.server.oauth2.token.Token", "kwargs": {"client_authn_method": ["client_secret_basic", "private_key_jwt"]}}}
    if par:
        ep["pushed_authorization"] = {"path": "pushed_authorization", "class": "fedservice.appserver.oauth2.pushed_authorization.PushedAuthorization", "kwargs": {}}
    cfg = {"preference": {"grant_types_supported": ["authorization_code", "refresh_token"], "client_registration_types_supported": list(types), **pref},
           "server_type": "oauth2", "token_handler_args": token_args(False), "key_conf": KEYS, "keys": KEYS, "endpoint": ep, "template_dir": "template", "session_params": SESSION}
    e = make_federation_combo(entity_id, preference={"organization_name": "The AS"}, authority_hints=list(authority_hints), endpoints=["entity_configuration"],
                              key_config=copy.deepcopy(KEYS), trust_anchors=copy.deepcopy(trust_anchors), services=federation_services("entity_configuration", "entity_statement"),
                              entity_type={"oauth_authorization_server": {"class": "fedservice.appserver.ServerEntity", "kwargs": {"key_conf": KEYS, "config": cfg, "server_type": "oauth2"}}})
    fed.set_net(e, net)
    return e


def client(entity_id, net, trust_anchors, authority_hints, oidc=True, keyname="rp"):
    from cryptojwt.key_bundle import KeyBundle
    from fedservice import defaults
    from fedservice.utils import make_federation_combo
    services = defaults.federation_services("entity_configuration", "entity_statement")
    services.update(copy.deepcopy(defaults.DEFAULT_OIDC_FED_SERVICES if oidc else defaults.DEFAULT_OAUTH2_FED_SERVICES))
    cfg = {"redirect_uris": [f"{entity_id}/cb"], "keys": KEYS, "client_id": entity_id,
           "preference": {"grant_types": ["authorization_code", "refresh_token"], "token_endpoint_auth_method": "client_secret_basic", "client_registration_types": ["explicit"]}}
    if not oidc:
        cfg["client_type"] = "oauth2"
    kind = "openid_relying_party" if oidc else "oauth_client"
    kw = {"config": cfg, "services": services}
    if not oidc:
        kw["client_type"] = "oauth2"
    e = make_federation_combo(entity_id, preference={"organization_name": "The client"}, authority_hints=list(authority_hints), endpoints=["entity_configuration"],
                              key_config=copy.deepcopy(KEYS), trust_anchors=copy.deepcopy(trust_anchors),
                              entity_type={kind: {"class": "fedservice.appclient.ClientEntity", "kwargs": kw}})
    fed.set_net(e, net)
    return e
