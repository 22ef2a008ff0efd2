D = 'NRWAL/handlers/directories.py'
G = 'NRWAL/handlers/groups.py'
E = 'NRWAL/handlers/equations.py'
INIT = "        var_group = {} if var_group is None else copy.deepcopy(var_group)\n"
COND = "        if 'variables' in self.keys() and not force_update:\n"
ASS = "            assert isinstance(self['variables'], VariableGroup)\n"
UPD = "            var_group.update(self['variables'].var_dict)\n"
OWN = "        self._default_variables.update(copy.deepcopy(var_group))\n"
LOOP = '''        for v in self.values():
            if isinstance(v, EquationDirectory):
                v.set_default_variables(var_group, force_update=force_update)
            elif isinstance(v, (EquationGroup, Equation)):
                v.set_default_variables(var_group)
'''
GRP = '''            self._default_variables.update(copy.deepcopy(var_dict))
            for v in self.values():
                v.set_default_variables(var_dict)
'''
ITEMS = [
 ('C15', 'no copy', 1, [(D, INIT, "        var_group = {} if var_group is None else var_group\n")]),
 ('C15', 'or empty', 1, [(D, INIT, "        var_group = var_group or {}\n")]),
 ('C15', 'inherited wins', 1, [(D, UPD, "            for k, v in self['variables'].var_dict.items():\n                var_group.setdefault(k, v)\n")]),
 ('C15', 'inherited wins 2', 1, [(D, UPD, "            var_group = dict(self['variables'].var_dict, **var_group)\n")]),
 ('C15', 'force ignored', 1, [(D, COND, "        if 'variables' in self.keys():\n")]),
 ('C15', 'force inverted below', 1, [(D, "force_update=force_update)\n            elif", "force_update=not force_update)\n            elif")]),
 ('C15', 'force not passed', 1, [(D, "v.set_default_variables(var_group, force_update=force_update)", "v.set_default_variables(var_group)")]),
 ('C15', 'force always', 1, [(D, "v.set_default_variables(var_group, force_update=force_update)", "v.set_default_variables(var_group, force_update=True)")]),
 ('C15', 'hand own defaults', 1, [(D, "v.set_default_variables(var_group, force_update=force_update)", "v.set_default_variables(self._default_variables, force_update=force_update)")]),
 ('C15', 'skip dirs', 1, [(D, "            if isinstance(v, EquationDirectory):\n                v.set_default_variables(var_group, force_update=force_update)\n            elif", "            if")]),
 ('C15', 'skip dirs with variables', 1, [(D, "            if isinstance(v, EquationDirectory):\n                v.set", "            if isinstance(v, EquationDirectory):\n                if 'variables' in v.keys() and not force_update:\n                    continue\n                v.set")]),
 ('C15', 'skip equations', 1, [(D, "elif isinstance(v, (EquationGroup, Equation)):", "elif isinstance(v, Equation):")]),
 ('C15', 'setdefault own', 1, [(D, OWN, "        for k, v in var_group.items():\n            self._default_variables.setdefault(k, v)\n")]),
 ('C15', 'keep arg', 1, [(D, OWN, "        self._default_variables = var_group\n")]),
 ('C15', 'group keeps arg', 1, [(G, "            self._default_variables.update(copy.deepcopy(var_dict))\n", "            self._default_variables = var_dict\n")]),
 ('C15', 'equation keeps arg', 1, [(E, "            self._default_variables.update(copy.deepcopy(var_dict))\n\n    @staticmethod", "            self._default_variables = var_dict\n\n    @staticmethod")]),
 ('C15', 'group only equations', 1, [(G, "            for v in self.values():\n                v.set_default_variables(var_dict)\n", "            for v in self.values():\n                if isinstance(v, Equation):\n                    v.set_default_variables(var_dict)\n")]),
 ('C15', 'group first', 1, [(G, "            for v in self.values():\n                v.set_default_variables(var_dict)\n", "            for v in self.values():\n                v.set_default_variables(var_dict)\n                if isinstance(v, EquationGroup):\n                    break\n")]),
 ('C15', 'group missing only', 1, [(G, "                v.set_default_variables(var_dict)\n", "                v.set_default_variables({k: x for k, x in var_dict.items()\n                                         if k not in v.default_variables})\n")]),
 ('C15', 'equation only own variables', 1, [(E, "            self._default_variables.update(copy.deepcopy(var_dict))\n\n    @staticmethod", "            self._default_variables.update(\n                {k: v for k, v in copy.deepcopy(var_dict).items()\n                 if k not in self._default_variables})\n\n    @staticmethod")]),
 ('C15', 'apply before load', 1, [(D, "        self._default_variables = {}\n        self._base_name", "        self._eqns = {}\n        self.set_default_variables()\n        self._default_variables = {}\n        self._base_name"), (D, "            use_nearest_year=use_nearest_year)\n        self.set_default_variables()\n\n    def __add__", "            use_nearest_year=use_nearest_year)\n\n    def __add__")]),
 ('C15', 'constructor forced', 1, [(D, "        self.set_default_variables()\n\n    def __add__", "        self.set_default_variables(force_update=True)\n\n    def __add__")]),
 ('C15', 'all equations', 1, [(G, "            for v in self.values():\n                v.set_default_variables(var_dict)\n", "            for v in self.all_equations:\n                v.set_default_variables(var_dict)\n")]),
 # kept behaviour
 ('C15', 'if none', 0, [(D, INIT, "        if var_group is None:\n            var_group = {}\n        else:\n            var_group = copy.deepcopy(var_group)\n")]),
 ('C15', 'fresh dict', 0, [(D, INIT, "        inherited = {} if var_group is None else var_group\n        var_group = dict()\n        var_group.update(copy.deepcopy(inherited))\n")]),
 ('C15', 'local var', 0, [(D, COND + "            # pylint: disable=E1101\n", "        local = self._eqns.get('variables')\n" + "        if local is not None and not force_update:\n            # pylint: disable=E1101\n"), (D, ASS + UPD, "            assert isinstance(local, VariableGroup)\n            var_group.update(local.var_dict)\n")]),
 ('C15', 'merge display', 0, [(D, UPD, "            var_group = {**var_group, **self['variables'].var_dict}\n")]),
 ('C15', 'loop update', 0, [(D, UPD, "            for name, value in self['variables'].var_dict.items():\n                var_group[name] = value\n")]),
 ('C15', 'two loops', 0, [(D, LOOP, '''        dirs = [v for v in self.values() if isinstance(v, EquationDirectory)]
        others = [v for v in self.values()
                  if isinstance(v, (EquationGroup, Equation))]
        for v in dirs:
            v.set_default_variables(var_group, force_update=force_update)
        for v in others:
            v.set_default_variables(var_group)
''')]),
 ('C15', 'items loop', 0, [(D, LOOP, '''        for _, child in self.items():
            if isinstance(child, VariableGroup):
                continue
            if isinstance(child, EquationDirectory):
                child.set_default_variables(var_group, force_update)
            else:
                child.set_default_variables(var_group)
''')]),
 ('C15', 'helper', 0, [(D, LOOP, '''        for v in self.values():
            self._update_child(v, var_group, force_update)

    @staticmethod
    def _update_child(child, var_group, force_update):
        """Pass default variables on to one child object"""
        if isinstance(child, EquationDirectory):
            child.set_default_variables(var_group, force_update=force_update)
        elif isinstance(child, (EquationGroup, Equation)):
            child.set_default_variables(var_group)
''')]),
 ('C15', 'early return', 0, [(G, "        if var_dict is not None:\n" + GRP, '''        if var_dict is None:
            return
        for value in self.values():
            value.set_default_variables(var_dict)
        self._default_variables.update(copy.deepcopy(var_dict))
''')]),
 ('C15', 'new dict', 0, [(G, "            self._default_variables.update(copy.deepcopy(var_dict))\n", "            new = copy.deepcopy(self._default_variables)\n            new.update(copy.deepcopy(var_dict))\n            self._default_variables = new\n")]),
 ('C15', 'flags var', 0, [(D, COND, "        use_local = 'variables' in self and not force_update\n        if use_local:\n")]),
 ('C15', 'nested if', 0, [(D, COND + "            # pylint: disable=E1101\n", "        if not force_update and 'variables' in self:\n            # pylint: disable=E1101\n")]),
 ('C15', 'helper local', 0, [(D, COND + "            # pylint: disable=E1101\n            # this makes it so that VariableGroup on lower directory levels\n            # will not be overwritten by the higher VariableGroup objects\n" + ASS + UPD, "        if not force_update:\n            var_group.update(self._local_variables())\n"), (D, "    @property\n    def default_variables", '''    def _local_variables(self):
        """Values of the variables file of this directory"""
        if 'variables' not in self.keys():
            return {}
        assert isinstance(self['variables'], VariableGroup)
        return self['variables'].var_dict

    @property
    def default_variables''')]),
 ('C15', 'loop own', 0, [(D, OWN, "        for name, value in copy.deepcopy(var_group).items():\n            self._default_variables[name] = value\n")]),
 ('C15', 'own later', 0, [(D, OWN, ""), (D, LOOP, LOOP + "\n        self._default_variables.update(copy.deepcopy(var_group))\n")]),
]
