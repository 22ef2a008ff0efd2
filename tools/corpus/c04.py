G = 'NRWAL/handlers/groups.py'
E = 'NRWAL/handlers/equations.py'
C = 'NRWAL/handlers/config.py'
D = 'NRWAL/handlers/directories.py'
INIT = "        self._default_variables = copy.deepcopy(default_variables)\n"
SETD = "            self._default_variables.update(copy.deepcopy(var_dict))\n"
DV = "        def_vars = copy.deepcopy(self._default_variables)\n        def_vars.update(other._default_variables)\n"
OUT = "        out = cls(new_eqn, default_variables=def_vars)\n        out._str = new_str\n"
GADD = "        out = copy.deepcopy(self)\n        out._group.update(copy.deepcopy(other._group))\n"
GSET = "        out.set_default_variables(other._default_variables)\n"
DADD = "        out = copy.deepcopy(self)\n        out._eqns.update(copy.deepcopy(other._eqns))\n"
REPL = "        return self.__class__(\n            new_eqn, name=self._base_name,\n            default_variables=self.default_variables\n        )\n"
MATH = "                return op_fun(out1, out2)\n"
ITEMS = [
    ('C04', 'group add: shallow copy of self', 1, [(G, GADD, GADD.replace("copy.deepcopy(self)", "copy.copy(self)"))]),
    ('C04', 'group add: store of other shared', 1, [(G, GADD, GADD.replace("copy.deepcopy(other._group)", "other._group"))]),
    ('C04', 'group add: store of other shallow', 1, [(G, GADD, GADD.replace("copy.deepcopy(other._group)", "dict(other._group)"))]),
    ('C04', 'group add: copied one by one', 0, [(G, GADD, "        out = copy.deepcopy(self)\n        for k, v in other._group.items():\n            out._group[k] = copy.deepcopy(v)\n")]),
    ('C04', 'group add: copied in comprehension', 0, [(G, GADD, "        out = copy.deepcopy(self)\n        out._group.update({k: copy.deepcopy(v) for k, v in other.items()})\n")]),
    ('C04', 'group add: only dicts copied', 1, [(G, GADD, "        out = copy.deepcopy(self)\n        for k, v in other._group.items():\n            out._group[k] = v if isinstance(v, Equation) else copy.deepcopy(v)\n")]),
    ('C04', 'group add: in place', 1, [(G, GADD, GADD.replace("out = copy.deepcopy(self)", "out = self"))]),
    ('C04', 'group add: other when empty', 1, [(G, GADD, "        if not any(self.keys()):\n            return other\n" + GADD)]),
    ('C04', 'group add: defaults set on other', 1, [(G, GSET, "        other.set_default_variables(self._default_variables)\n" + GSET, )]),
    ('C04', 'group add: default dict shared', 1, [(G, GSET, "        out._default_variables = other._default_variables\n")]),
    ('C04', 'group add: helper', 0, [(G, GADD, "        out = self._clone()\n        out._group.update(other._clone()._group)\n"), (G, "    def __repr__(self):\n", "    def _clone(self):\n        return copy.deepcopy(self)\n\n    def __repr__(self):\n")]),
    ('C04', 'group add: helper copies shallowly', 1, [(G, GADD, "        out = self._clone()\n        out._group.update(other._clone()._group)\n"), (G, "    def __repr__(self):\n", "    def _clone(self):\n        out = copy.copy(self)\n        out._group = dict(self._group)\n        return out\n\n    def __repr__(self):\n")]),
    ('C04', 'dir add: store of other shared', 1, [(D, DADD, DADD.replace("copy.deepcopy(other._eqns)", "other._eqns"))]),
    ('C04', 'dir add: shallow', 1, [(D, DADD, DADD.replace("copy.deepcopy(self)", "copy.copy(self)"))]),
    ('C04', 'dir add: shallow with own dict', 1, [(D, DADD, "        out = copy.copy(self)\n        out._eqns = dict(self._eqns)\n        out._eqns.update(copy.deepcopy(other._eqns))\n        out._default_variables = copy.deepcopy(self._default_variables)\n")]),
    ('C04', 'custom deepcopy', 1, [(E, "    def __add__(self, other):\n", "    def __deepcopy__(self, memo):\n        return self.replace_equation(self._eqn) if self._str is None else self\n\n    def __add__(self, other):\n")]),
    ('C04', 'custom deepcopy shares defaults', 1, [(E, "    def __add__(self, other):\n", "    def __deepcopy__(self, memo):\n        out = self.__class__.__new__(self.__class__)\n        out.__dict__.update(self.__dict__)\n        return out\n\n    def __add__(self, other):\n")]),
    ('C04', 'custom deepcopy right', 0, [(E, "    def __add__(self, other):\n", "    def __deepcopy__(self, memo):\n        out = self.__class__(self._eqn, name=self._base_name, default_variables=self._default_variables)\n        out._str = self._str\n        return out\n\n    def __add__(self, other):\n")]),
    ('C04', 'ctor keeps reference', 1, [(E, INIT, "        self._default_variables = default_variables\n")]),
    ('C04', 'ctor shallow copy', 1, [(E, INIT, "        self._default_variables = dict(default_variables) if default_variables is not None else None\n")]),
    ('C04', 'ctor copies values', 0, [(E, INIT, "        self._default_variables = {}\n        for k, v in (default_variables or {}).items():\n            self._default_variables[k] = copy.deepcopy(v)\n")]),
    ('C04', 'set defaults shallow', 1, [(E, SETD, "            self._default_variables.update(var_dict)\n")]),
    ('C04', 'set defaults loop', 0, [(E, SETD, "            for k, v in var_dict.items():\n                self._default_variables[k] = copy.deepcopy(v)\n")]),
    ('C04', 'set defaults rebuilds', 0, [(E, SETD, "            self._default_variables = {**self._default_variables, **copy.deepcopy(var_dict)}\n")]),
    ('C04', 'eqn math mutates self', 1, [(E, DV, "        def_vars = self._default_variables\n        def_vars.update(other._default_variables)\n")]),
    ('C04', 'eqn math merged', 0, [(E, DV, "        def_vars = {**self._default_variables, **other._default_variables}\n")]),
    ('C04', 'eqn math sets the dict afterwards', 1, [(E, DV + "\n" + OUT, "        out = cls(new_eqn)\n        out._default_variables = dict(self._default_variables)\n        out._default_variables.update(other._default_variables)\n        out._str = new_str\n"), ] if False else [(E, OUT, "        out = cls(new_eqn)\n        out._default_variables = self._default_variables\n        out.set_default_variables(other._default_variables)\n        out._str = new_str\n")]),
    ('C04', 'eqn math set_default on new', 0, [(E, OUT, "        out = cls(new_eqn)\n        out.set_default_variables(self._default_variables)\n        out.set_default_variables(other._default_variables)\n        out._str = new_str\n")]),
    ('C04', 'eqn math copies self', 1, [(E, OUT, "        out = copy.copy(self)\n        out._eqn = new_eqn\n        out.set_default_variables(other._default_variables)\n        out._str = new_str\n")]),
    ('C04', 'eqn add zero returns self', 1, [(E, "        return self.__eqn_math(other, '+')\n", "        if other == 0:\n            return self\n        return self.__eqn_math(other, '+')\n")]),
    ('C04', 'eqn pow one returns self', 1, [(E, "        return self.__eqn_math(other, '**')\n", "        if isinstance(other, Equation) and other.full == '1':\n            return self\n        return self.__eqn_math(other, '**')\n")]),
    ('C04', 'iadd in place', 1, [(E, "    def __sub__(self, other):\n", "    def __iadd__(self, other):\n        out = self + other\n        self._eqn = out._eqn\n        self._default_variables = out._default_variables\n        return self\n\n    def __sub__(self, other):\n")]),
    ('C04', 'replace_equation copies self', 1, [(E, REPL, "        out = copy.copy(self)\n        out._eqn = str(new_eqn)\n        out._str = None\n        out._preflight()\n        return out\n")]),
    ('C04', 'replace_equation in place', 1, [(E, REPL, "        self._eqn = str(new_eqn)\n        self._str = None\n        return self\n")]),
    ('C04', 'replace_equation deep copy', 0, [(E, REPL, "        out = copy.deepcopy(self)\n        out._eqn = str(new_eqn)\n        out._str = None\n        out._preflight()\n        return out\n")]),
    ('C04', 'replace_equation shares after ctor', 1, [(E, REPL, "        out = self.__class__(new_eqn, name=self._base_name)\n        out._default_variables = self._default_variables\n        return out\n")]),
    ('C04', 'retrieval math sets defaults on operands', 1, [(G, MATH, "                out1.set_default_variables(out2.default_variables)\n" + MATH)]),
    ('C04', 'retrieval math named', 0, [(G, MATH, "                result = op_fun(out1, out2)\n                return result\n")]),
    ('C04', 'retrieval stores the result', 1, [(G, "        return self._getitem(key, None)\n", "        out = self._getitem(key, None)\n        self._group.setdefault(key, out)\n        return out\n")]),
    ('C04', 'interpolation updates the neighbour', 1, [(G, "                x1, x3 = nn_values[0:2]\n                y1, y3 = nn_eqns[0:2]\n", "                x1, x3 = nn_values[0:2]\n                y1, y3 = nn_eqns[0:2]\n                y1._default_variables.update(y3._default_variables)\n")]),
    ('C04', 'nearest renamed', 1, [(G, "                out = nn_eqns[0]\n", "                out = nn_eqns[0]\n                out._base_name = eqn_key\n")]),
    ('C04', 'nearest renamed copy', 0, [(G, "                out = nn_eqns[0]\n", "                out = copy.deepcopy(nn_eqns[0])\n")]),
]
