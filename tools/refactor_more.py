"""More edits that keep the behaviour, used by refactor.py: (name, properties, file, [(old, new), ...])."""
RG = "appserver/oauth2/registration.py"
TE = "trust_mark_entity/entity.py"
M = []


def e(name, props, file, *subs):
    M.append((name, props, file, list(subs)))


# ---- explicit registration (C16, C18)
e("reg-prompt-helper", "C16 C18", RG,
  ("        opponent_entity_type = set(payload['metadata'].keys()).difference({'federation_entity',\n"
   "                                                                           'trust_mark_issuer'}).pop()\n",
   "        opponent_entity_type = self._opponent_type(payload)\n"),
  ("    def match_claim(self, claim, val):\n",
   "    @staticmethod\n    def _opponent_type(payload):\n        _types = set(payload['metadata'].keys())\n"
   "        return _types.difference({'federation_entity', 'trust_mark_issuer'}).pop()\n\n    def match_claim(self, claim, val):\n"))
e("reg-chain-loop", "C18", RG,
  ("        _trust_chains = [tc for tc in _trust_chains if tc.iss_path[0] == payload['sub']]\n        if not _trust_chains:\n",
   "        _own = []\n        for _tc in _trust_chains:\n            if _tc.iss_path[0] == payload['sub']:\n                _own.append(_tc)\n        _trust_chains = _own\n"
   "        if len(_trust_chains) == 0:\n"))
e("reg-response-reorder", "C18", RG,
  ("            _context = _federation_entity.context\n            _policy_metadata = req.to_dict()\n            _policy_metadata.update(response_info['response_args'])\n",
   "            _policy_metadata = {**req.to_dict(), **response_info['response_args']}\n            _context = _federation_entity.context\n"))
e("reg-response-filter", "C18", RG,
  ("            _policy_metadata = {k: v for k, v in _policy_metadata.items() if k not in [\n                'application_type',\n                'jwks',\n                'redirect_uris']}\n",
   "            for _attr in ['application_type', 'jwks', 'redirect_uris']:\n                _policy_metadata.pop(_attr, None)\n"))
e("reg-response-return", "C18", RG,
  ("        if \"response_args\" in response_info:\n            _context = _federation_entity.context\n",
   "        if \"response_args\" not in response_info:\n            return response_info\n        else:\n            _context = _federation_entity.context\n"))
e("reg-redirect-helper", "C16", RG,
  ("            if _custom:  # Can not verify a custom scheme\n                verified_redirect_uris.append((uri, {}))\n            else:\n"
   "                base, query = split_uri(uri)\n                if query:\n                    verified_redirect_uris.append((base, query))\n                else:\n"
   "                    verified_redirect_uris.append((base, {}))\n",
   "            if _custom:  # Can not verify a custom scheme\n                verified_redirect_uris.append((uri, {}))\n                continue\n\n"
   "            base, query = split_uri(uri)\n            verified_redirect_uris.append((base, query or {}))\n"))
e("reg-redirect-https", "C16", RG,
  ("        must_https = False\n        if client_type == \"web\":\n            must_https = True\n            if registration_request.get(\"response_types\") == [\"code\"]:\n"
   "                must_https = False\n",
   "        must_https = client_type == \"web\" and registration_request.get(\"response_types\") != [\"code\"]\n"))
e("reg-redirect-native", "C16", RG,
  ("                if p.scheme not in [\"http\", \"https\"]:  # Custom scheme\n                    _custom = True\n                elif p.scheme == \"http\" and p.hostname in [\"localhost\", \"127.0.0.1\"]:\n"
   "                    pass\n                else:\n",
   "                _custom = p.scheme not in (\"http\", \"https\")\n                _local = p.scheme == \"http\" and p.hostname in (\"localhost\", \"127.0.0.1\")\n                if not _custom and not _local:\n"))
e("reg-redirect-validate", "C16", RG,
  ("        for uri in registration_request[\"redirect_uris\"]:\n            _custom = False\n            p = urlparse(uri)\n            if p.fragment:\n"
   "                raise InvalidRedirectURIError(\"redirect_uri contains fragment\")\n",
   "        def _parsed(_uri):\n            _p = urlparse(_uri)\n            if _p.fragment:\n                raise InvalidRedirectURIError(\"redirect_uri contains fragment\")\n            return _p\n\n"
   "        for uri in registration_request[\"redirect_uris\"]:\n            _custom = False\n            p = _parsed(uri)\n"))
e("reg-docr-helper", "C16", RG,
  ("        if \"redirect_uris\" in request:\n            try:\n                ruri = self.verify_redirect_uris(request)\n                _cinfo[\"redirect_uris\"] = ruri\n"
   "            except InvalidRedirectURIError as e:\n                return self.error_cls(error=\"invalid_redirect_uri\", error_description=str(e))\n",
   "        if \"redirect_uris\" in request:\n            try:\n                _cinfo[\"redirect_uris\"] = self.verify_redirect_uris(request)\n"
   "            except InvalidRedirectURIError as err:\n                _description = str(err)\n                return self.error_cls(error=\"invalid_redirect_uri\", error_description=_description)\n"))
e("reg-docr-copy", "C16", RG,
  ("        for key, val in request.items():\n            if key not in ignore:\n                _cinfo[key] = val\n",
   "        _cinfo.update({key: val for key, val in request.items() if key not in ignore})\n"))
e("reg-docr-requris", "C16", RG,
  ("                if _up.fragment:\n                    # store base and fragment\n                    _uris.append(uri.split(\"#\"))\n                else:\n                    _uris.append([uri, \"\"])\n",
   "                # store base and fragment\n                _uris.append(uri.split(\"#\") if _up.fragment else [uri, \"\"])\n"))
e("reg-docr-links", "C16", RG,
  ("        for item in [\"policy_uri\", \"logo_uri\", \"tos_uri\"]:\n            if item in request:\n                if verify_url(request[item], _cinfo[\"redirect_uris\"]):\n"
   "                    _cinfo[item] = request[item]\n                else:\n                    return ResponseMessage(\n                        error=\"invalid_configuration_parameter\",\n"
   "                        error_description=\"%s pointed to illegal URL\" % item,\n                    )\n",
   "        for item in (\"policy_uri\", \"logo_uri\", \"tos_uri\"):\n            if item not in request:\n                continue\n"
   "            if not verify_url(request[item], _cinfo[\"redirect_uris\"]):\n                return ResponseMessage(\n                    error=\"invalid_configuration_parameter\",\n"
   "                    error_description=\"%s pointed to illegal URL\" % item,\n                )\n            _cinfo[item] = request[item]\n"))
e("reg-filter", "C16 C18", RG,
  ("            if key not in _context.claims.register2preferred:\n                _args[key] = val\n                continue\n\n            _val = self.match_claim(key, val)\n            if _val:\n"
   "                _args[key] = _val\n            else:\n                logger.error(f\"Capabilities mismatch: {key}={val} not supported\")\n",
   "            if key in _context.claims.register2preferred:\n                _val = self.match_claim(key, val)\n                if not _val:\n"
   "                    logger.error(f\"Capabilities mismatch: {key}={val} not supported\")\n                    continue\n                _args[key] = _val\n            else:\n                _args[key] = val\n"))
e("reg-setup-args", "C16 C18", RG,
  ("        args = dict([(k, v) for k, v in _cinfo.items() if k in self.response_cls.c_param])\n", "        args = {k: v for k, v in _cinfo.items() if k in self.response_cls.c_param}\n"),
  ("        if \"error\" in reg_resp:\n            return reg_resp\n        else:\n            _context = self.upstream_get(\"context\")\n            _cookie = _context.new_cookie(\n"
   "                name=_context.cookie_handler.name[\"register\"],\n                client_id=reg_resp[\"client_id\"],\n            )\n\n"
   "            return {\"response_args\": reg_resp, \"cookie\": _cookie, \"response_code\": 201}\n",
   "        if \"error\" in reg_resp:\n            return reg_resp\n\n        _context = self.upstream_get(\"context\")\n        _cookie = _context.new_cookie(\n"
   "            name=_context.cookie_handler.name[\"register\"],\n            client_id=reg_resp[\"client_id\"])\n        return dict(response_args=reg_resp, cookie=_cookie, response_code=201)\n"))
e("reg-setup-secret", "C16 C18", RG,
  ("        client_secret = \"\"\n        if set_secret:\n            client_secret = self.add_client_secret(_cinfo, client_id, _context)\n",
   "        client_secret = self.add_client_secret(_cinfo, client_id, _context) if set_secret else \"\"\n"))

# ---- trust mark issuer (C12)
e("tme-create-reorder", "C12", TE,
  ("        _now = utc_time_sans_frac()\n        _add = {'iat': _now, 'id': id, 'sub': sub}\n        lifetime = self.tm_lifetime.get(id)\n        if lifetime:\n            _add['exp'] = _now + lifetime\n\n"
   "        if id not in self.trust_mark_specification:\n            raise ValueError('Unknown trust mark ID')\n\n        content = self.trust_mark_specification[id].copy()\n",
   "        if id not in self.trust_mark_specification:\n            raise ValueError('Unknown trust mark ID')\n\n        _now = utc_time_sans_frac()\n        _add = {'iat': _now, 'id': id, 'sub': sub}\n"
   "        lifetime = self.tm_lifetime.get(id)\n        if lifetime:\n            _add['exp'] = _now + lifetime\n\n        content = dict(self.trust_mark_specification[id])\n"))
e("tme-create-kwargs", "C12", TE,
  ("        content = self.trust_mark_specification[id].copy()\n        content.update(_add)\n        if kwargs:\n            content.update(kwargs)\n        self.issued.add(content)\n",
   "        content = {**self.trust_mark_specification[id], **_add, **kwargs}\n        self.issued.add(content)\n"))
e("tme-create-helper", "C12", TE,
  ("        _federation_entity = get_federation_entity(self)\n        packer = JWT(key_jar=_federation_entity.keyjar, iss=_federation_entity.entity_id)\n        return packer.pack(payload=content)\n\n    def dump_trust",
   "        return self._signed(content)\n\n    def _signed(self, content):\n        _federation_entity = get_federation_entity(self)\n        packer = JWT(key_jar=_federation_entity.keyjar, iss=_federation_entity.entity_id)\n        return packer.pack(payload=content)\n\n    def dump_trust"))
e("tme-list", "C12", TE,
  ("        if sub:\n            if self.find(trust_mark_id, sub):\n                return [sub]\n        else:\n            return self.issued.list(trust_mark_id)\n",
   "        if not sub:\n            return self.issued.list(trust_mark_id)\n        if self.find(trust_mark_id, sub):\n            return [sub]\n        return None\n"))
e("tme-self-signed", "C12", TE,
  ("        if 'sub' not in kwargs:\n            kwargs['sub'] = _entity_id\n", "        kwargs.setdefault('sub', _entity_id)\n"))
e("tme-spec", "C12", TE,
  ("        for entity_id, tm in self.trust_mark_specification.items():\n            if \"lifetime\" in tm:\n                self.tm_lifetime[entity_id] = tm[\"lifetime\"]\n                del tm[\"lifetime\"]\n",
   "        for _tm_id, _spec in self.trust_mark_specification.items():\n            if \"lifetime\" in _spec:\n                self.tm_lifetime[_tm_id] = _spec.pop(\"lifetime\")\n"))
e("tm-endpoint", "C12", "trust_mark_entity/server/trust_mark.py",
  ("        _trust_mark_issuer = self.upstream_get(\"unit\")\n\n        _id = request.get(\"trust_mark_id\")\n        _sub = request.get(\"sub\")  # Required parameter\n\n        _jws = _trust_mark_issuer.create_trust_mark(_id, _sub)\n\n        return {\"http_response\": _jws}\n",
   "        _sub = request.get(\"sub\")  # Required parameter\n        _id = request.get(\"trust_mark_id\")\n        return dict(http_response=self.upstream_get(\"unit\").create_trust_mark(id=_id, sub=_sub))\n"))
e("tm-list", "C12", "trust_mark_entity/server/trust_mark_list.py",
  ("        if 'sub' in request and 'trust_mark_id' in request:\n            if _trust_mark_entity.find(request['trust_mark_id'], request['sub']):\n                return {\"response_msg\": json.dumps([request[\"sub\"]]), \"response_code\": 200}\n"
   "        elif 'trust_mark_id' in request:\n            _lst = _trust_mark_entity.list(request[\"trust_mark_id\"])\n            if _lst:\n                return {\"response_msg\": json.dumps(_lst), \"response_code\": 200}\n\n",
   "        _match = []\n        if 'trust_mark_id' in request:\n            if 'sub' in request:\n                if _trust_mark_entity.find(request['trust_mark_id'], request['sub']):\n                    _match = [request[\"sub\"]]\n"
   "            else:\n                _match = _trust_mark_entity.list(request[\"trust_mark_id\"])\n        if _match:\n            return {\"response_msg\": json.dumps(_match), \"response_code\": 200}\n\n"))
e("tm-status", "C12", "trust_mark_entity/server/trust_mark_status.py",
  ("            if _mark['iss'] == _trust_mark_issuer.entity_id and \\\n                    _trust_mark_issuer.find(_mark['id'], _mark['sub']):\n                return {'response_args': {'active': True}}\n        else:\n            if 'sub' in request:\n                _id = \"\"\n"
   "                if 'trust_mark_id' in request:\n                    _id = request['trust_mark_id']\n                elif 'id' in request:\n                    _id = request['id']\n\n                if _id:\n                    if _trust_mark_issuer.find(_id, request['sub']):\n                        return {'response_args': {'active': True}}\n",
   "            _active = _mark['iss'] == _trust_mark_issuer.entity_id and _trust_mark_issuer.find(_mark['id'], _mark['sub'])\n        else:\n            _active = self._active(_trust_mark_issuer, request)\n\n        if _active:\n            return {'response_args': {'active': True}}\n"),
  ("    def response_info(\n", "    @staticmethod\n    def _active(issuer, request):\n        if 'sub' not in request:\n            return False\n        _id = request['trust_mark_id'] if 'trust_mark_id' in request else request.get('id', '')\n        if not _id:\n            return False\n        return issuer.find(_id, request['sub'])\n\n    def response_info(\n"))

# ---- entity statements, cache, chains (C04, C09, C20, C22)
e("create-update", "C22 C13", "entity_statement/create.py",
  ("    msg = {'sub': sub}\n    if metadata:\n        msg['metadata'] = metadata\n\n    if metadata_policy:\n        msg['metadata_policy'] = metadata_policy\n\n",
   "    msg = {'sub': sub}\n    for _claim, _value in [('metadata', metadata), ('metadata_policy', metadata_policy)]:\n        if _value:\n            msg[_claim] = _value\n\n"))
e("create-jwks", "C22 C13", "entity_statement/create.py",
  ("        if \"jwks\" in kwargs:\n            msg['jwks'] = kwargs['jwks']\n        else:\n            # The public signing keys of the subject\n            msg['jwks'] = key_jar.export_jwks()\n",
   "        # The public signing keys of the subject\n        msg['jwks'] = kwargs['jwks'] if \"jwks\" in kwargs else key_jar.export_jwks()\n"))
e("create-hints", "C22 C13", "entity_statement/create.py",
  ("        if isinstance(authority_hints, Callable):\n            msg['authority_hints'] = authority_hints()\n        else:\n            msg['authority_hints'] = authority_hints\n",
   "        if callable(authority_hints):\n            authority_hints = authority_hints()\n        msg['authority_hints'] = authority_hints\n"))
e("create-kwargs", "C22 C13", "entity_statement/create.py",
  ("    if kwargs:\n        msg.update(kwargs)\n", "    msg.update(**kwargs)\n"),
  ("    packer = JWT(key_jar=key_jar, iss=iss, lifetime=lifetime)\n\n    return packer.pack(payload=msg)\n", "    return JWT(key_jar=key_jar, iss=iss, lifetime=lifetime).pack(payload=msg)\n"))
e("cache-getitem", "C09 C08", "entity_statement/cache.py",
  ("        try:\n            statement = self._db[item]\n        except KeyError:\n            return None\n        else:\n            if isinstance(statement, Mapping):  # dict or Message\n                # verify that the statement is recent enough\n                _now = utc_time_sans_frac()\n"
   "                if _now < (statement[\"exp\"] - self.allowed_delta):\n                    return statement\n                else:\n                    del self._db[item]\n                    return None\n            else:\n                return statement\n",
   "        if item not in self._db:\n            return None\n        statement = self._db[item]\n        if isinstance(statement, Mapping):  # dict or Message\n            if statement[\"exp\"] - self.allowed_delta <= utc_time_sans_frac():\n                del self._db[item]\n                return None\n        return statement\n"))
e("cache-get", "C09", "entity_statement/cache.py",
  ("        statement = self[key]\n        return default if statement is None else statement", "        if key in self:\n            return self._db[key]\n        return default"))
e("chain-expired", "C04", "entity_statement/statement.py",
  ("        now = utc_time_sans_frac()\n        if self.exp < now:\n            logger.debug(f'is_expired: {self.exp} < {now}')\n            return True\n        else:\n            return False\n",
   "        now = utc_time_sans_frac()\n        expired = now > self.exp\n        if expired:\n            logger.debug(f'is_expired: {self.exp} < {now}')\n        return expired\n"))
e("chain-export", "C21", "entity_statement/statement.py",
  ("        return list(reversed(self.verified_chain))\n", "        return self.verified_chain[::-1]\n"))
e("chain-2dict", "C20", "entity_statement/statement.py",
  ("        if trust_chain.anchor in res:\n            if len(trust_chain.verified_chain) < len(res[trust_chain.anchor].verified_chain):\n                res[trust_chain.anchor] = trust_chain\n        else:\n            res[trust_chain.anchor] = trust_chain\n",
   "        _current = res.get(trust_chain.anchor)\n        if _current is not None and len(_current.verified_chain) <= len(trust_chain.verified_chain):\n            continue\n        res[trust_chain.anchor] = trust_chain\n"))

# ---- federation endpoints (C13, C14, C21, C22)
e("list-filter", "C14", "entity/server/list.py",
  ("            if entity_type and entity_type not in conf.get('metadata', {}):\n                continue\n            trust_marks = conf.get('trust_marks') or []\n            if trust_marked and not trust_marks:\n                continue\n"
   "            if trust_mark_id and trust_mark_id not in [self.trust_mark_id(tm) for tm in\n                                                       trust_marks]:\n                continue\n\n            match.append(entity_id)\n",
   "            trust_marks = conf.get('trust_marks') or []\n            _type_ok = not entity_type or entity_type in conf.get('metadata', {})\n            _marked_ok = not trust_marked or trust_marks\n"
   "            _mark_ok = not trust_mark_id or any(self.trust_mark_id(tm) == trust_mark_id for tm in trust_marks)\n            if _type_ok and _marked_ok and _mark_ok:\n                match.append(entity_id)\n"))
e("list-registered", "C14", "entity/server/list.py",
  ("                if request.get(\"intermediate\") and not item.get(\"intermediate\"):\n                    continue\n                if \"entity_type\" in request:\n                    _types = item.get(\"entity_types\", item.get(\"entity_type\", []))\n                    if isinstance(_types, str):\n                        _types = [_types]\n                    if request[\"entity_type\"] not in _types:\n                        continue\n                matched_entity_ids.add(entity_id)\n",
   "                if self._registered_match(request, item):\n                    matched_entity_ids.add(entity_id)\n"),
  ("    def collect_subordinates(self)",
   "    @staticmethod\n    def _registered_match(request, item):\n        if request.get(\"intermediate\") and not item.get(\"intermediate\"):\n            return False\n        if \"entity_type\" not in request:\n            return True\n        _types = item.get(\"entity_types\", item.get(\"entity_type\", []))\n        if isinstance(_types, str):\n            return request[\"entity_type\"] == _types\n        return request[\"entity_type\"] in _types\n\n    def collect_subordinates(self)"))
e("list-early", "C14", "entity/server/list.py",
  ("        if not request or set(request.keys()).issubset({\"client_id\", \"authenticated\"}):\n            return {'response_msg': json.dumps(list(_db.keys()))}\n        else:\n",
   "        if not request or not set(request.keys()).difference({\"client_id\", \"authenticated\"}):\n            return {'response_msg': json.dumps(list(_db))}\n        else:\n"))
e("list-intersect", "C14", "entity/server/list.py",
  ("                matched_entity_ids.intersection_update(\n                    self.filter(subordinates=subordinate_conf,\n                                trust_marked=request.get(\"trust_marked\"),\n                                trust_mark_id=request.get(\"trust_mark_id\", \"\")))\n",
   "                _marked = self.filter(subordinates=subordinate_conf, trust_marked=request.get(\"trust_marked\"),\n                                      trust_mark_id=request.get(\"trust_mark_id\", \"\"))\n                matched_entity_ids = {_id for _id in matched_entity_ids if _id in _marked}\n"))
e("list-collect", "C14", "entity/server/list.py",
  ("            keyjar = import_jwks(keyjar, copy.deepcopy(conf['jwks']), entity_id)\n            _jwt = JWT(key_jar=keyjar)\n            _ec = _jwt.unpack(_entity_configuration)\n            sub[entity_id] = _ec\n",
   "            _jwks = copy.deepcopy(conf['jwks'])\n            keyjar = import_jwks(keyjar, _jwks, entity_id)\n            sub[entity_id] = JWT(key_jar=keyjar).unpack(_entity_configuration)\n"))
e("fetch-types", "C13", "entity/server/fetch.py",
  ("                        for _typ in ['metadata', 'metadata_policy']:\n                            if _typ in _et_policy:\n                                try:\n                                    _policy[_typ].update({entity_type: _et_policy[_typ]})\n                                except KeyError:\n                                    _policy[_typ] = {entity_type: _et_policy[_typ]}\n",
   "                        for _typ in ['metadata', 'metadata_policy']:\n                            if _typ in _et_policy:\n                                _policy[_typ][entity_type] = _et_policy[_typ]\n"))
e("fetch-hints", "C13", "entity/server/fetch.py",
  ("            _response = dict(_response)\n            if not 'authority_hints' in _response:\n                # If nothing specified add myself\n                _response[\"authority_hints\"] = [_issuer]\n",
   "            _response = {\"authority_hints\": [_issuer], **_response}\n"))
e("fetch-merge", "C13", "entity/server/fetch.py",
  ("            if _policy:\n                _response.update(_policy)\n\n            _es = create_entity_statement(iss=_issuer,\n                                          sub=_sub,\n                                          key_jar=_keyjar,\n                                          **_response\n                                          )\n",
   "            _args = {**_response, **(_policy or {})}\n            _es = create_entity_statement(_issuer, _sub, _keyjar, **_args)\n"))
e("fetch-self", "C13", "entity/server/fetch.py",
  ("        if not _sub or _sub == _issuer:\n            _server = self.upstream_get(\"server\")\n", "        _myself = not _sub or _sub == _issuer\n        if _myself:\n            _server = self.upstream_get(\"server\")\n"))
e("resolve-pick", "C21", "entity/server/resolve.py",
  ("        _chain = None\n        for trust_chain in _trust_chains:\n            if _trust_anchor == trust_chain.anchor:\n                _chain = trust_chain\n                break\n\n        if \"type\" in request:\n            metadata = {request['type']: _chain.metadata[request['type']]}\n        else:\n            metadata = _chain.metadata\n",
   "        _chain = next((tc for tc in _trust_chains if tc.anchor == _trust_anchor), None)\n\n        metadata = _chain.metadata\n        if \"type\" in request:\n            metadata = {request['type']: metadata[request['type']]}\n"))
e("resolve-pick2", "C21", "entity/server/resolve.py",
  ("        _chain = None\n        for trust_chain in _trust_chains:\n            if _trust_anchor == trust_chain.anchor:\n                _chain = trust_chain\n                break\n",
   "        _chain = [tc for tc in _trust_chains if tc.anchor == _trust_anchor][0]\n"))
e("ec-metadata", "C22", "entity/server/entity_configuration.py",
  ("        if _fed_entity.context.trust_marks:\n            if isinstance(_fed_entity.context.trust_marks, Callable):\n                args = {\"trust_marks\": _fed_entity.context.get_trust_marks()}\n            else:\n                args = {\"trust_marks\": _fed_entity.context.trust_marks}\n        else:\n            args = {}\n",
   "        args = {}\n        _trust_marks = _fed_entity.context.trust_marks\n        if _trust_marks:\n            if callable(_trust_marks):\n                _trust_marks = _fed_entity.context.get_trust_marks()\n            args[\"trust_marks\"] = _trust_marks\n"))
e("ec-order", "C22", "entity/server/entity_configuration.py",
  ("        if _fed_entity.upstream_get:\n            _metadata = _fed_entity.upstream_get(\"metadata\")\n        else:\n            _metadata = _fed_entity.get_metadata()\n",
   "        _metadata = _fed_entity.upstream_get(\"metadata\") if _fed_entity.upstream_get else _fed_entity.get_metadata()\n"))

# ---- trust mark databases (C11)
TM = "trust_mark_entity/__init__.py"
e("db-find-reorder", "C11", TM,
  ("                if self._match(sub, iat, _tmi):\n                    if 'exp' in _tmi:\n                        now = utc_time_sans_frac()\n                        if now > _tmi[\"exp\"]:\n                            return False\n                    return True\n        return False\n",
   "                if not self._match(sub, iat, _tmi):\n                    continue\n                return 'exp' not in _tmi or utc_time_sans_frac() <= _tmi[\"exp\"]\n        return False\n"))
e("db-find-lines", "C11", TM,
  ("            # Get the last issued\n            for line in reversed(list(fp)):\n                _tmi = json.loads(line.rstrip())\n\n                if self._match",
   "            _lines = fp.readlines()\n            # Get the last issued\n            for line in _lines[::-1]:\n                _tmi = json.loads(line)\n                if self._match"))
e("db-match", "C11", TM,
  ("        if sub == tmi[\"sub\"]:\n            if iat:\n                if iat == tmi['iat']:\n                    return True\n            else:\n                return True\n        return False\n",
   "        return sub == tmi[\"sub\"] and (not iat or iat == tmi['iat'])\n"))
e("db-simple-find", "C11", TM,
  ("        if _tmi:\n            if 'exp' in _tmi and utc_time_sans_frac() > _tmi['exp']:\n                return False\n            if iat:\n                if iat == _tmi[\"iat\"]:\n                    return True\n            else:\n                return True\n\n        return False\n",
   "        if not _tmi:\n            return False\n        if iat and iat != _tmi[\"iat\"]:\n            return False\n        return 'exp' not in _tmi or utc_time_sans_frac() <= _tmi['exp']\n"))
e("db-simple-add", "C11", TM,
  ("        if tm_info['id'] in self._db:\n            self._db[tm_info['id']][tm_info['sub']] = tm_info\n        else:\n            self._db[tm_info['id']] = {tm_info[\"sub\"]: tm_info}\n",
   "        self._db.setdefault(tm_info['id'], {})[tm_info['sub']] = tm_info\n"))
e("db-simple-list", "C11", TM,
  ("        if sub:\n            return [sub] if sub in _subs else []\n        return list(_subs)\n", "        return [_s for _s in _subs if not sub or _s == sub]\n"))
e("db-file-list", "C11", TM,
  ("        res = []\n        try:\n            with open(self.config[trust_mark_id], \"r\") as fp:\n                # Get the last issued\n                for line in reversed(list(fp)):\n                    _tmi = json.loads(line.rstrip())\n                    if _tmi[\"sub\"] not in res:\n                        if sub:\n"
   "                            if _tmi[\"sub\"] == sub:\n                                res.append(_tmi[\"sub\"])\n                        else:\n                            res.append(_tmi[\"sub\"])\n        except KeyError as err:\n            pass\n\n        return res\n",
   "        if trust_mark_id not in self.config:\n            return []\n\n        res = []\n        with open(self.config[trust_mark_id], \"r\") as fp:\n            for line in reversed(list(fp)):\n                _sub = json.loads(line.rstrip())[\"sub\"]\n                if sub and _sub != sub:\n                    continue\n                if _sub not in res:\n                    res.append(_sub)\n        return res\n"))
e("db-dump", "C11", TM,
  ("        res = {}\n        for entity_id in self.config.keys():\n            res[entity_id] = []\n            with open(self.config[entity_id], \"r\") as fp:\n                for line in list(fp):\n                    res[entity_id].append(line.rstrip())\n        return res\n",
   "        res = {}\n        for entity_id, file_name in self.config.items():\n            with open(file_name, \"r\") as fp:\n                res[entity_id] = [line.rstrip() for line in fp]\n        return res\n"))
e("db-load", "C11", TM,
  ("        for entity_id in self.config.keys():\n            with open(self.config[entity_id], \"a\") as fp:\n                for tm_info in info[entity_id]:\n                    fp.write(tm_info + '\\n')\n",
   "        for entity_id, file_name in self.config.items():\n            with open(file_name, \"a\") as fp:\n                fp.writelines(tm_info + '\\n' for tm_info in info[entity_id])\n"))
e("db-init", "C11", TM,
  ("                fp = open(file_name, \"w\")\n                fp.close()\n", "                with open(file_name, \"w\"):\n                    pass\n"))
e("db-add-helper", "C11", TM,
  ("        trust_mark_id = tm_info['id']\n        # adds a line with info about a trust mark info to the end of a file\n        with open(self.config[trust_mark_id], \"a\") as fp:\n            fp.write(json.dumps(tm_info) + '\\n')\n",
   "        _line = json.dumps(tm_info)\n        # adds a line with info about a trust mark info to the end of a file\n        with open(self.config[tm_info['id']], \"a\") as fp:\n            fp.write(f\"{_line}\\n\")\n"))

# ---- the federation entity (C10, C20)
FE = "entity/__init__.py"
e("fe-pick", "C20", FE,
  ("        if len(trust_chains) == 1:\n            # If there is only one, then use it\n            return trust_chains[0]\n        elif self.context.tr_priority:\n            # Go by priority\n            for fid in self.context.tr_priority:\n                for trust_chain in trust_chains:\n                    if trust_chain.anchor == fid:\n                        return trust_chain\n",
   "        for fid in self.context.tr_priority or []:\n            for trust_chain in trust_chains:\n                if trust_chain.anchor == fid:\n                    return trust_chain\n"))
e("fe-pick-helper", "C20", FE,
  ("            for fid in self.context.tr_priority:\n                for trust_chain in trust_chains:\n                    if trust_chain.anchor == fid:\n                        return trust_chain\n",
   "            for fid in self.context.tr_priority:\n                _ending_there = [tc for tc in trust_chains if tc.anchor == fid]\n                if _ending_there:\n                    return _ending_there[0]\n"))
e("fe-stored", "C20", FE,
  ("        _tas = list(_trust_chains.keys())\n        if len(_tas) == 1:\n            return _trust_chains[_tas[0]]\n        elif self.context.tr_priority:\n            # Go by priority\n            for ta_id in self.context.tr_priority:\n                if ta_id in _trust_chains:\n                    return _trust_chains[ta_id]\n        return _trust_chains[_tas[0]]\n",
   "        if len(_trust_chains) > 1 and self.context.tr_priority:\n            # Go by priority\n            for ta_id in self.context.tr_priority:\n                if ta_id in _trust_chains:\n                    return _trust_chains[ta_id]\n        return _trust_chains[list(_trust_chains)[0]]\n"))
e("fe-mark-active", "C10", FE,
  ("            if \"active\" in resp and resp[\"active\"] == True:\n                pass\n            else:\n                return None\n", "            if \"active\" not in resp or resp[\"active\"] != True:\n                return None\n"))
e("fe-mark-helper", "C10", FE,
  ("            resp = self.do_request(\"trust_mark_status\",\n                                   request_args={\n                                       'sub': verified_trust_mark['sub'],\n                                       'id': verified_trust_mark['id'],\n                                       'trust_mark_id': verified_trust_mark['id']\n                                   },\n",
   "            _mark_id = verified_trust_mark['id']\n            _args = {'sub': verified_trust_mark['sub'], 'trust_mark_id': _mark_id, 'id': _mark_id}\n            resp = self.do_request(\"trust_mark_status\",\n                                   request_args=_args,\n"))
e("fe-mark-early", "C10", FE,
  ("        if check_with_issuer:\n", "        if not check_with_issuer:\n            return verified_trust_mark\n        else:\n"))
e("fe-trust-chains", "C10 C20", FE,
  ("        _trust_chains = self.trust_chain.get(entity_id, None)\n        if _trust_chains is None:\n            _trust_chains = get_verified_trust_chains(self, entity_id)\n            if _trust_chains:\n                self.store_trust_chain(entity_id, _trust_chains)\n            else:\n                return []\n\n        return _trust_chains\n",
   "        if self.trust_chain.get(entity_id) is not None:\n            return self.trust_chain[entity_id]\n        _trust_chains = get_verified_trust_chains(self, entity_id)\n        if not _trust_chains:\n            return []\n        self.store_trust_chain(entity_id, _trust_chains)\n        return _trust_chains\n"))
e("fe-anchor", "C03", FE,
  ("        _keyjar = import_jwks(_keyjar, jwks, entity_id)\n        self.trust_anchors[entity_id] = jwks\n", "        import_jwks(_keyjar, jwks, entity_id)\n        self.trust_anchors.update({entity_id: jwks})\n"))
TMV = "entity/function/trust_mark_verifier.py"
e("tmv-anchor", "C10", TMV,
  ("        if trust_anchor not in [_tc.anchor for _tc in _trust_chains]:\n", "        if not any(_tc.anchor == trust_anchor for _tc in _trust_chains):\n"))
e("tmv-order", "C10", TMV,
  ("        # deal with delegation\n        if 'delegation' in _trust_mark:\n            _delegation = self.verify_delegation(_trust_mark, trust_anchor)\n            if not _delegation:\n                logger.warning(\"Could not verify the delegation\")\n                return None\n",
   "        # deal with delegation\n        if 'delegation' in _trust_mark and not self.verify_delegation(_trust_mark, trust_anchor):\n            logger.warning(\"Could not verify the delegation\")\n            return None\n"))
e("tmv-return", "C10", TMV,
  ("        try:\n            _mark = _jwt.verify_compact(trust_mark, keys=keys)\n        except Exception as err:\n            return None\n        else:\n            return _mark\n",
   "        try:\n            return _jwt.verify_compact(trust_mark, keys=keys)\n        except Exception as err:\n            logger.debug(f\"{err}\")\n            return None\n"))
e("tmv-delegation", "C10", TMV,
  ("        if trust_mark['id'] not in ta_fe_metadata['trust_mark_issuers']:\n            return None\n        if trust_mark['id'] not in ta_fe_metadata['trust_mark_owners']:\n            return None\n",
   "        _tm_id = trust_mark['id']\n        for _claim in ['trust_mark_issuers', 'trust_mark_owners']:\n            if _tm_id not in ta_fe_metadata[_claim]:\n                return None\n"),
  ("        if _info.get('id') != trust_mark['id'] or _info.get('sub') != trust_mark['iss']:\n            return None\n        return _info",
   "        if _info.get('id') == _tm_id and _info.get('sub') == trust_mark['iss']:\n            return _info\n        return None"))
e("tmv-keys", "C10", TMV,
  ("        keys = keyjar.get_jwt_verify_keys(_jwt.jwt)\n        if not keys:\n            _trust_chains = apply_policies(_federation_entity, _trust_chains)\n            keyjar = import_jwks(keyjar,\n                                 _trust_chains[0].verified_chain[-1][\"jwks\"],\n                                 _trust_chains[0].iss_path[0])\n",
   "        keys = keyjar.get_jwt_verify_keys(_jwt.jwt)\n        if not keys:\n            _chain = apply_policies(_federation_entity, _trust_chains)[0]\n            keyjar = import_jwks(keyjar, _chain.verified_chain[-1][\"jwks\"], _chain.iss_path[0])\n"))

# ---- automatic registration (C17)
AZ = "appserver/oauth2/authorization.py"
e("authz-guard", "C17", AZ,
  ("        if client_info is not None:\n            return None\n        if 'automatic' not in _context.provider_info.get('client_registration_types_supported', []):\n            return None\n        return self.do_automatic_registration(iss, [])\n",
   "        if client_info is None and 'automatic' in _context.provider_info.get('client_registration_types_supported', []):\n            return self.do_automatic_registration(iss, [])\n        return None\n"))
e("authz-provided", "C17", AZ,
  ("            trust_chains = [tc for tc in trust_chains if tc.iss_path[0] == entity_id]\n        else:\n", "            trust_chains = list(filter(lambda tc: tc.iss_path[0] == entity_id, trust_chains))\n        else:\n"))
e("authz-provided2", "C17", AZ,
  ("            provided_trust_chain.reverse()\n            trust_chains = verify_trust_chains(self, [provided_trust_chain])\n", "            _chain = list(reversed(provided_trust_chain))\n            trust_chains = verify_trust_chains(self, [_chain])\n"))
e("authz-request", "C17", AZ,
  ("        req = OauthClientMetadata(**trust_chain.metadata['oauth_client'])\n        req['client_id'] = entity_id\n        kwargs = {}\n        kwargs['new_id'] = self.new_client_id\n",
   "        _metadata = trust_chain.metadata['oauth_client']\n        req = OauthClientMetadata(**_metadata)\n        req['client_id'] = entity_id\n        kwargs = {'new_id': self.new_client_id}\n"))
e("authz-response", "C17", AZ,
  ("        try:\n            return response_info[\"response_args\"][\"client_id\"]\n        except KeyError:\n            return None\n", "        if 'response_args' not in response_info:\n            return None\n        return response_info['response_args'].get('client_id')\n"))
e("authz-auth", "C17", AZ,
  ("                if registered_client_id is None:\n                    return {\n                        'error': 'unauthorized_client',\n                        'error_description': 'Unknown client'\n                    }\n                else:\n                    logger.debug('Automatic registration done')\n                    if registered_client_id != _cid:\n",
   "                if registered_client_id is None:\n                    return self._unknown_client()\n                else:\n                    logger.debug('Automatic registration done')\n                    if registered_client_id != _cid:\n"),
  ("    def extra_response_args(", "    @staticmethod\n    def _unknown_client():\n        return {'error': 'unauthorized_client', 'error_description': 'Unknown client'}\n\n    def extra_response_args("))
e("authz-auth2", "C17", AZ,
  ("                        client_info = _context.cdb[registered_client_id]\n                        _context.cdb[_cid] = client_info\n                        client_info['entity_id'] = _cid\n",
   "                        client_info = _context.cdb[registered_client_id]\n                        client_info['entity_id'] = _cid\n                        _context.cdb[_cid] = client_info\n"))

# ---- explicit registration at the OP (C18) and the answer at the client (C19)
OR = "appserver/oidc/registration.py"
e("oidcreg-types", "C18", OR,
  ("        if len(_entity_types) == 1:\n            opponent_entity_type = _entity_types.pop()\n        else:\n            opponent_entity_type = _entity_types.difference({'federation_entity'}).pop()\n",
   "        opponent_entity_type = self._client_type(_entity_types)\n"),
  ("    def non_fed_process_request(", "    @staticmethod\n    def _client_type(entity_types):\n        if len(entity_types) == 1:\n            return entity_types.pop()\n        return entity_types.difference({'federation_entity'}).pop()\n\n    def non_fed_process_request("))
e("oidcreg-keys", "C18", OR,
  ("            for item in [\"jwks\", \"jwks_uri\", \"signed_jwks_uri\"]:\n                try:\n                    del req[item]\n                except KeyError:\n                    pass\n", "            for item in [\"jwks\", \"jwks_uri\", \"signed_jwks_uri\"]:\n                if item in req:\n                    del req[item]\n"))
e("oidcreg-chains", "C18", OR,
  ("        _trust_chains = [tc for tc in _trust_chains if tc.iss_path[0] == payload['sub']]\n        _trust_chains = apply_policies(self, _trust_chains)\n", "        _client_chains = [tc for tc in _trust_chains if payload['sub'] == tc.iss_path[0]]\n        _trust_chains = apply_policies(self, _client_chains)\n"))
e("oidcreg-newid", "C18", OR, ("        if \"new_id\" not in kwargs:\n            kwargs[\"new_id\"] = False\n", "        kwargs.setdefault(\"new_id\", False)\n"))
OC = "appclient/oidc/registration.py"
e("client-anchor", "C19", OC,
  ("        if payload[\n            'trust_anchor_id'] not in _federation_entity.function.trust_chain_collector.trust_anchors:\n            raise ValueError(\"Trust anchor I don't trust\")\n",
   "        _ta = payload['trust_anchor_id']\n        _trusted = _federation_entity.function.trust_chain_collector.trust_anchors\n        if _ta not in _trusted:\n            raise ValueError(\"Trust anchor I don't trust\")\n"))
e("client-signature", "C19", OC,
  ("        return any(tc.anchor == trust_anchor for tc in _trust_chains)\n", "        for tc in _trust_chains:\n            if tc.anchor == trust_anchor:\n                return True\n        return False\n"))
e("client-result", "C19", OC,
  ("            _metadata = payload.get(\"metadata\")\n            if _metadata:\n                _trust_chains[0].verified_chain[-1]['metadata'] = _metadata\n",
   "            _own_chain = _trust_chains[0]\n            if payload.get(\"metadata\"):\n                _own_chain.verified_chain[-1]['metadata'] = payload[\"metadata\"]\n"))
e("client-statement", "C19 C22", OC,
  ("        kwargs = {}\n        if _context.trust_marks:\n            kwargs[\"trust_marks\"] = _context.trust_marks\n", "        kwargs = {\"trust_marks\": _context.trust_marks} if _context.trust_marks else {}\n"))
OO = "appclient/oauth2/registration.py"
e("client2-update", "C19", OO,
  ("                for item in [] ", "") if False else ("            if isinstance(item, RPHandler):\n                pass\n            else:\n                res.append(item)\n", "            if not isinstance(item, RPHandler):\n                res.append(item)\n"))
e("client2-client-id", "C19", OO,
  ("                _client_id = _context.claims.get_usage(\"client_id\")\n                if _client_id:\n                    _context.client_id = _client_id", "                if _context.claims.get_usage(\"client_id\"):\n                    _context.client_id = _context.claims.get_usage(\"client_id\")"))

# ---- the file based service (C13)
e("files-id", "C13", "fetch_entity_statement/__init__.py",
  ("        if sub.startswith(\"https%3A%2F%2F\"):\n            _sub_id = unquote_plus(sub)\n        else:\n            _sub_id = self.make_entity_id(sub)\n", "        _sub_id = unquote_plus(sub) if sub.startswith(\"https%3A%2F%2F\") else self.make_entity_id(sub)\n"))
e("files-info", "C13", "fetch_entity_statement/__init__.py",
  ("        _info = self.gather_info(sub)\n        _info.update(kwargs)\n", "        _info = {**self.gather_info(sub), **kwargs}\n"))
e("files-data", "C13", "fetch_entity_statement/fs2.py",
  ("        data = {}\n        for name, file in [(\"metadata\", \"metadata.json\"),\n                           (\"metadata_policy\", \"policy.json\"),\n                           (\"constraints\", \"constraints.json\"),\n                           (\"authority_hints\", \"authority.json\")]:\n            metadata_file = os.path.join(self.base_path, self.iss, sub, file)\n",
   "        data = {}\n        _files = {\"metadata\": \"metadata.json\", \"metadata_policy\": \"policy.json\", \"constraints\": \"constraints.json\", \"authority_hints\": \"authority.json\"}\n        for name, file in _files.items():\n            metadata_file = os.path.join(self.base_path, self.iss, sub, file)\n"))
e("files-get", "C13", "fetch_entity_statement/fs2.py",
  ("            _qs = parse_qs(p.query)\n            pt = urlparse(_qs['sub'][0])\n            _jws = self._create_entity_statement(pt.netloc, p.netloc)\n", "            _sub = parse_qs(p.query)['sub'][0]\n            _jws = self._create_entity_statement(get_netloc(_sub), issuer_id=p.netloc)\n"))

# ---- messages (C15), the client services (C08)
MS = "message.py"
e("msg-policy-crit", "C15", MS,
  ("            _critical = kwargs.get(\"policy_language_crit\")\n            if _critical is None:\n                pass\n            elif not _critical:\n                raise ValueError(\"Empty list not allowed for 'policy_language_crit'\")\n            else:\n"
   "                _musts = set(_critical).intersection(_extra_parameters)\n                _known = kwargs.get(\"known_policy_extensions\")\n                if _known:\n                    if set(_known).issuperset(set(_musts)) is False:\n                        raise UnknownCriticalExtension(_musts.difference(set(_known)))\n"
   "                elif _musts:\n                    raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))\n",
   "            _critical = kwargs.get(\"policy_language_crit\")\n            if _critical is None:\n                return\n            if not _critical:\n                raise ValueError(\"Empty list not allowed for 'policy_language_crit'\")\n"
   "            _known = set(kwargs.get(\"known_policy_extensions\") or [])\n            _unknown = set(_critical).intersection(_extra_parameters).difference(_known)\n            if _unknown:\n                raise UnknownCriticalExtension(_unknown)\n"))
e("msg-policy-loop", "C15", MS,
  ("        for typ, _policy in self.items():\n            for attr, item in _policy.items():\n                # These two can be of any type, there is nothing to verify\n                _p = Policy(**{k: v for k, v in item.items() if k not in [\"value\", \"default\"]})\n                _p.verify(**kwargs)\n",
   "        for _policy in self.values():\n            for item in _policy.values():\n                # These two can be of any type, there is nothing to verify\n                _typed = {}\n                for k, v in item.items():\n                    if k not in (\"value\", \"default\"):\n                        _typed[k] = v\n                Policy(**_typed).verify(**kwargs)\n"))
e("msg-es-crit", "C15", MS,
  ("            _critical = self.get(\"crit\")\n            if _critical is None:\n                pass\n            elif not _critical:\n                raise ValueError(\"Empty list not allowed for 'crit'\")\n            else:\n                _musts = set(_critical).intersection(_extra_parameters)\n                _known = kwargs.get(\"known_extensions\")\n                if _known:\n"
   "                    if set(_known).issuperset(set(_musts)) is False:\n                        raise UnknownCriticalExtension(_musts.difference(set(_known)))\n                elif _musts:\n                    raise UnknownCriticalExtension(_musts.intersection(_extra_parameters))\n",
   "            self._verify_critical(_extra_parameters, kwargs.get(\"known_extensions\"))\n"),
  ("class TrustMark(JsonWebToken):\n", "    def _verify_critical(self, extra_parameters, known):\n        _critical = self.get(\"crit\")\n        if _critical is None:\n            return\n        if not _critical:\n            raise ValueError(\"Empty list not allowed for 'crit'\")\n"
   "        for _param in _critical:\n            if _param in extra_parameters and _param not in (known or []):\n                raise UnknownCriticalExtension({_param})\n\n\nclass TrustMark(JsonWebToken):\n"))
e("msg-es-policy", "C15", MS,
  ("        _metadata_policy = self.get('metadata_policy')\n        if _metadata_policy:\n            _crit = self.get(\"policy_language_crit\")\n            if _crit:\n                _metadata_policy.verify(policy_language_crit=_crit, **kwargs)\n",
   "        _metadata_policy = self.get('metadata_policy')\n        _crit = self.get(\"policy_language_crit\")\n        if _metadata_policy and _crit:\n            _metadata_policy.verify(policy_language_crit=_crit, **kwargs)\n"))
e("msg-tm", "C15 C10", MS,
  ("        entity_id = kwargs.get(\"entity_id\")\n\n        if entity_id is not None and entity_id != self[\"sub\"]:\n            raise WrongSubject(\"Mismatch between subject in trust mark and entity_id of entity\")\n\n        exp = kwargs.get(\"exp\", 0)\n        if exp:\n            _now = utc_time_sans_frac()\n            if _now > exp:  # have passed the time of expiration\n                raise Expired()\n",
   "        exp = kwargs.get(\"exp\", 0)\n        entity_id = kwargs.get(\"entity_id\")\n        if entity_id is not None:\n            if self[\"sub\"] != entity_id:\n                raise WrongSubject(\"Mismatch between subject in trust mark and entity_id of entity\")\n\n        if exp and utc_time_sans_frac() > exp:  # have passed the time of expiration\n            raise Expired()\n"))
e("msg-client-info", "C15", MS,
  ("        if \"client_secret\" in self:\n            if \"client_secret_expires_at\" not in self:\n                raise MissingRequiredAttribute(", "        if \"client_secret\" in self and \"client_secret_expires_at\" not in self:\n            if True:\n                raise MissingRequiredAttribute("))
e("msg-status", "C15", MS,
  ("        if 'trust_mark' not in self:\n            if 'sub' not in self or 'trust_mark_id' not in self:\n                raise", "        if 'trust_mark' not in self:\n            if not ('sub' in self and 'trust_mark_id' in self):\n                raise"))
e("client-fetch", "C08", "entity/client/entity_statement.py",
  ("            if issuer in _collector.config_cache:\n                _ec = _collector.config_cache[issuer]\n            else:\n", "            _ec = _collector.config_cache.get(issuer)\n            if _ec is None:\n"),
  ("        msg = Message()\n        if issuer:\n            msg['iss'] = issuer\n            if subject:\n                msg['sub'] = subject\n", "        msg = Message()\n        if issuer:\n            msg['iss'] = issuer\n        if issuer and subject:\n            msg['sub'] = subject\n"))
e("client-wellknown", "C08", "entity/client/entity_configuration.py",
  ("        if tenant:\n            _url = construct_tenant_well_known_url(_issuer, \"openid-federation\")\n        else:\n            _url = construct_well_known_url(_issuer, \"openid-federation\")\n\n        _info = {\n            \"method\": method,\n            \"url\": _url\n        }\n\n        return _info\n",
   "        _construct = construct_tenant_well_known_url if tenant else construct_well_known_url\n        return {\"method\": method, \"url\": _construct(_issuer, \"openid-federation\")}\n"))
e("utils-expired", "C10 C11", "utils.py",
  ("    now = utc_time_sans_frac()\n    if \"exp\" in item:\n        if item[\"exp\"] < now:\n            logger.debug(f'is_expired: {item[\"exp\"]} < {now}')\n            return True\n\n    return False\n",
   "    if \"exp\" not in item:\n        return False\n    return utc_time_sans_frac() > item[\"exp\"]\n"))
