import sys, types
m = types.ModuleType("idpyoidc.key_import")
def import_jwks(keyjar, jwks, issuer_id=""):
    keyjar.import_jwks(jwks, issuer_id)
    return keyjar
def import_jwks_as_json(keyjar, jwks, issuer_id=""):
    keyjar.import_jwks_as_json(jwks, issuer_id)
    return keyjar
def import_jwks_from_file(keyjar, filename, issuer_id=""):
    with open(filename) as f:
        keyjar.import_jwks_as_json(f.read(), issuer_id)
    return keyjar
def store_under_other_id(keyjar, fro="", to="", keep=False):
    keyjar.import_jwks(keyjar.export_jwks(True, fro), to)
    return keyjar
for f in (import_jwks, import_jwks_as_json, import_jwks_from_file, store_under_other_id): setattr(m, f.__name__, f)
sys.modules["idpyoidc.key_import"] = m
