G = 'NRWAL/handlers/groups.py'
E = 'NRWAL/handlers/equations.py'
C = 'NRWAL/handlers/config.py'
D = 'NRWAL/handlers/directories.py'
SUB = "                obj = cls(path, interp_extrap_power=interp_extrap_power,\n                          use_nearest_power=use_nearest_power,\n                          interp_extrap_year=interp_extrap_year,\n                          use_nearest_year=use_nearest_year)\n"
NEST = "                group[k] = cls(\n                    v, name=k, interp_extrap_power=self._interp_extrap_power,\n                    use_nearest_power=self._use_nearest_power,\n                    interp_extrap_year=self._interp_extrap_year,\n                    use_nearest_year=self._use_nearest_year)\n"
LOOP = "        for key in kwargs:\n            if key in config:\n                kwargs[key] = bool(config.pop(key))\n"
EG = "                    eqns[key] = EquationGroup(\n                        path, interp_extrap_power=interp_extrap_power,\n                        use_nearest_power=use_nearest_power,\n                        interp_extrap_year=interp_extrap_year,\n                        use_nearest_year=use_nearest_year)\n"
ADDG = "            other = cls(other, interp_extrap_power=self._interp_extrap_power,"
FAST = "        self._interp_extrap_power = interp_extrap_power\n        self._use_nearest_power = use_nearest_power\n"
ITEMS = [
    ('C09', 'subdir drops one', 1, [(D, SUB, SUB.replace("interp_extrap_year=interp_extrap_year,\n                          use_nearest_year=use_nearest_year", "interp_extrap_year=interp_extrap_year"))]),
    ('C09', 'subdir swaps', 1, [(D, SUB, SUB.replace("use_nearest_power=use_nearest_power", "use_nearest_power=use_nearest_year").replace("use_nearest_year=use_nearest_year", "use_nearest_year=use_nearest_power", 1))]),
    ('C09', 'subdir positional in order', 0, [(D, SUB, "                obj = cls(path, interp_extrap_power, use_nearest_power,\n                          interp_extrap_year, use_nearest_year)\n")]),
    ('C09', 'subdir positional wrong order', 1, [(D, SUB, "                obj = cls(path, interp_extrap_power, interp_extrap_year,\n                          use_nearest_power, use_nearest_year)\n")]),
    ('C09', 'nested or', 1, [(G, NEST, NEST.replace("use_nearest_year=self._use_nearest_year", "use_nearest_year=self._use_nearest_year or self._use_nearest_power"))]),
    ('C09', 'nested bool', 0, [(G, NEST, NEST.replace("use_nearest_year=self._use_nearest_year", "use_nearest_year=bool(self._use_nearest_year)"))]),
    ('C09', 'nested deep only', 1, [(G, NEST, NEST.replace("interp_extrap_year=self._interp_extrap_year", "interp_extrap_year=self._interp_extrap_year and self._dir_name is not None"))]),
    ('C09', 'nested by dict', 0, [(G, NEST, "                flags = dict(interp_extrap_power=self._interp_extrap_power,\n                             use_nearest_power=self._use_nearest_power,\n                             interp_extrap_year=self._interp_extrap_year,\n                             use_nearest_year=self._use_nearest_year)\n                group[k] = cls(v, name=k, **flags)\n")]),
    ('C09', 'nested by loop', 0, [(G, NEST, "                flags = {}\n                for f in ('interp_extrap_power', 'use_nearest_power',\n                          'interp_extrap_year', 'use_nearest_year'):\n                    flags[f] = getattr(self, '_' + f)\n                group[k] = cls(v, name=k, **flags)\n")]),
    ('C09', 'nested by loop, one forgotten', 1, [(G, NEST, "                flags = {}\n                for f in ('interp_extrap_power', 'use_nearest_power',\n                          'interp_extrap_year'):\n                    flags[f] = getattr(self, '_' + f)\n                group[k] = cls(v, name=k, **flags)\n")]),
    ('C09', 'nested set after', 1, [(G, NEST, "                group[k] = cls(v, name=k)\n                group[k]._interp_extrap_power = self._interp_extrap_power\n                group[k]._use_nearest_power = self._use_nearest_power\n                group[k]._interp_extrap_year = self._interp_extrap_year\n                group[k]._use_nearest_year = self._use_nearest_year\n")]),
    ('C09', 'json files without flags', 1, [(D, EG, "                    if name.endswith('.json'):\n                        eqns[key] = EquationGroup(path)\n                    else:\n    " + EG.replace("\n                        ", "\n                            "))]),
    ('C09', 'add drops flags', 1, [(G, ADDG, "            other = cls(other, interp_extrap_power=False,")]),
    ('C09', 'config wins only if true', 1, [(C, LOOP, "        for key in kwargs:\n            if key in config:\n                kwargs[key] = bool(config.pop(key)) or kwargs[key]\n")]),
    ('C09', 'config truthy only', 1, [(C, LOOP, "        for key in kwargs:\n            if config.get(key):\n                kwargs[key] = bool(config.pop(key))\n")]),
    ('C09', 'config pop default', 0, [(C, LOOP, "        for key, value in kwargs.items():\n            kwargs[key] = bool(config.pop(key, value))\n")]),
    ('C09', 'config comprehension', 0, [(C, LOOP, "        kwargs = {k: bool(config.pop(k)) if k in config else v\n                  for k, v in kwargs.items()}\n")]),
    ('C09', 'config string bool', 1, [(C, LOOP, "        for key in kwargs:\n            if key in config:\n                kwargs[key] = str(config.pop(key)) == 'True'\n")]),
    ('C09', 'mutually exclusive', 1, [(G, FAST, "        self._interp_extrap_power = interp_extrap_power\n        self._use_nearest_power = use_nearest_power and not interp_extrap_power\n")]),
    ('C09', 'nearest implied by interp', 1, [(D, FAST, "        self._interp_extrap_power = interp_extrap_power\n        self._use_nearest_power = use_nearest_power or interp_extrap_power\n")]),
    ('C09', 'flag changed in retrieval', 1, [(G, "        if workspace is None:\n            workspace = {}\n\n        operators", "        if workspace is None:\n            workspace = {}\n        if '::' in str(key):\n            self._use_nearest_power = True\n\n        operators")]),
]
