G = 'NRWAL/handlers/groups.py'
E = 'NRWAL/handlers/equations.py'
C = 'NRWAL/handlers/config.py'
D = 'NRWAL/handlers/directories.py'
U = 'NRWAL/utilities/utilities.py'
INIT = "        self._default_variables = copy.deepcopy(default_variables)\n"
SETD = "            self._default_variables.update(copy.deepcopy(var_dict))\n"
MERGE = "            out = copy.deepcopy(var_group)\n        out.update(kwargs)\n"
LOAD = "        config = copy.deepcopy(config)\n"
PG = "        group = {str(k): v for k, v in group.items()}\n"
DSET = "        var_group = {} if var_group is None else copy.deepcopy(var_group)\n"
INP = "                self._inputs[k] = v\n"
ASTY = "                        v = v.astype(np.float32)\n"
CIA = "                if np.issubdtype(v.dtype, np.integer):\n                    kwargs[k] = v.astype(np.float32)\n"
EV = "        kwargs = self._check_input_args(kwargs)\n"
ITEMS = [
    ('C03', 'config not copied', 1, [(C, LOAD, "")]),
    ('C03', 'config shallow copied', 0, [(C, LOAD, "        config = dict(config)\n")]),
    ('C03', 'config popped before copy', 1, [(C, LOAD, "        config.pop('description', None)\n" + LOAD)]),
    ('C03', 'config copied in comprehension', 0, [(C, LOAD, "        config = {k: copy.deepcopy(v) for k, v in config.items()}\n")]),
    ('C03', 'group dict used directly', 1, [(G, PG, "")]),
    ('C03', 'group keys converted in place', 1, [(G, PG, "        for k in list(group):\n            group[str(k)] = group.pop(k)\n")]),
    ('C03', 'group copied by loop', 0, [(G, PG, "        out = {}\n        for k, v in group.items():\n            out[str(k)] = v\n        group = out\n")]),
    ('C03', 'group copied by helper', 0, [(G, PG, "        group = AbstractGroup._text_keys(group)\n"),
        (G, "    def set_default_variables(self, var_dict):\n", "    @staticmethod\n    def _text_keys(group):\n        return dict((str(k), v) for k, v in group.items())\n\n    def set_default_variables(self, var_dict):\n")]),
    ('C03', 'default variables kept by reference', 1, [(E, INIT, "        self._default_variables = default_variables\n")]),
    ('C03', 'default variables shallow copy', 0, [(E, INIT, "        self._default_variables = (None if default_variables is None else copy.copy(default_variables))\n")]),
    ('C03', 'set_default_variables keeps the dict when empty', 1, [(E, SETD, "            if not self._default_variables:\n                self._default_variables = var_dict\n            else:\n                self._default_variables.update(var_dict)\n")]),
    ('C03', 'merge updates the given dict', 1, [(E, SETD, "            for k, v in self._default_variables.items():\n                var_dict.setdefault(k, v)\n            self._default_variables = copy.deepcopy(var_dict)\n")]),
    ('C03', 'directory: var_group not copied', 1, [(D, DSET, "        var_group = {} if var_group is None else var_group\n")]),
    ('C03', 'directory: var_group or {}', 1, [(D, DSET, "        var_group = var_group or {}\n")]),
    ('C03', 'directory: copy with if', 0, [(D, DSET, "        if var_group is None:\n            var_group = {}\n        else:\n            var_group = copy.deepcopy(var_group)\n")]),
    ('C03', 'directory: dict()', 0, [(D, DSET, "        var_group = dict(var_group or {})\n")]),
    ('C03', 'inputs kept by reference', 1, [(C, "            if isinstance(arg, dict):\n                keys = arg.keys()\n", "            if isinstance(arg, dict):\n                self._inputs = arg\n                keys = list(arg.keys())\n")]),
    ('C03', 'inputs converted in the given dict', 1, [(C, INP, "                arg[k] = v\n                self._inputs[k] = v\n")]),
    ('C03', 'inputs: local dict first', 0, [(C, "                self._inputs[k] = v\n", "                converted = self._inputs\n                converted[k] = v\n")]),
    ('C03', 'astype in place', 0, [(C, ASTY, "                        v = np.asarray(v, dtype=np.float32)\n")]),
    ('C03', 'nan replaced in place', 1, [(C, "                if isinstance(v, np.ndarray):\n                    if Equation", "                if isinstance(v, np.ndarray):\n                    v[np.isinf(v)] = np.nan\n                    if Equation")]),
    ('C03', 'nan replaced in a copy', 0, [(C, "                if isinstance(v, np.ndarray):\n                    if Equation", "                if isinstance(v, np.ndarray):\n                    v = v.copy()\n                    v[np.isinf(v)] = np.nan\n                    if Equation")]),
    ('C03', 'nan_to_num copy False', 1, [(E, EV, EV + "        for v in kwargs.values():\n            if isinstance(v, np.ndarray):\n                np.nan_to_num(v, copy=False)\n")]),
    ('C03', 'array inputs scaled in place', 1, [(E, "                if np.issubdtype(v.dtype, np.integer):\n", "                v *= 1\n                if np.issubdtype(v.dtype, np.integer):\n")]),
    ('C03', 'array made read-only', 1, [(E, "                if np.issubdtype(v.dtype, np.integer):\n", "                v.setflags(write=False)\n                if np.issubdtype(v.dtype, np.integer):\n")]),
    ('C03', 'out= into the input', 1, [(E, "            if isinstance(v, np.ndarray):\n                if np", "            if isinstance(v, np.ndarray):\n                np.round(v, 6, out=v)\n                if np")]),
    ('C03', 'list inputs sorted', 1, [(E, "            elif isinstance(v, int):\n                kwargs[k] = float(v)\n", "            elif isinstance(v, int):\n                kwargs[k] = float(v)\n            elif isinstance(v, list):\n                v.reverse()\n                v.reverse()\n")]),
    ('C03', 'data frame columns renamed in place', 1, [(C, "                keys = arg.columns.values\n", "                arg.rename(columns=str, inplace=True)\n                keys = arg.columns.values\n")]),
    ('C03', 'data frame columns assigned', 1, [(C, "                keys = arg.columns.values\n", "                arg.columns = [str(c) for c in arg.columns]\n                keys = arg.columns.values\n")]),
    ('C03', 'data frame column added', 1, [(C, "                    v = arg[k].values.flatten()\n", "                    arg[k] = arg[k].astype(float)\n                    v = arg[k].values.flatten()\n")]),
    ('C03', 'data frame renamed copy', 0, [(C, "                keys = arg.columns.values\n", "                arg = arg.rename(columns=str)\n                keys = arg.columns.values\n")]),
    ('C03', 'group default: other mutated', 1, [(G, "        out._group.update(copy.deepcopy(other._group))\n", "        for k, v in self._group.items():\n            other._group.setdefault(k, v)\n        out._group.update(copy.deepcopy(other._group))\n")]),
    ('C03', 'eqn math updates operand', 1, [(E, "        def_vars = copy.deepcopy(self._default_variables)\n        def_vars.update(other._default_variables)\n", "        def_vars = other._default_variables\n        for k, v in self._default_variables.items():\n            def_vars.setdefault(k, v)\n")]),
    ('C03', 'eqn math with merged dict', 0, [(E, "        def_vars = copy.deepcopy(self._default_variables)\n        def_vars.update(other._default_variables)\n", "        def_vars = {**self._default_variables, **other._default_variables}\n")]),
    ('C03', 'evaluate: kwargs extended', 0, [(E, EV, "        kwargs.setdefault('unused_', 1)\n        kwargs.pop('unused_')\n" + EV)]),
    ('C03', 'merge inlined', 0, [(E, "        kwargs = self._merge_vars(self._default_variables, kwargs)\n", "        merged = copy.deepcopy(self._default_variables)\n        merged.update(kwargs)\n        kwargs = merged\n")]),
    ('C03', 'nearest: candidates removed from given group', 1, [(G, "        if req_mw is not None:\n", "        group.pop(request, None)\n        if req_mw is not None:\n")]),
    ('C03', 'config evaluate: inputs updated with outputs', 1, [(C, "        if inputs is not None:\n            self.inputs = inputs\n", "        if inputs is not None:\n            self.inputs = inputs\n            inputs.update({k: v for k, v in self.inputs.items() if k not in inputs})\n")]),
    ('C03', 'config keeps inputs then writes', 1, [(C, "        self.inputs = inputs\n", "        self.inputs = inputs\n        self._given = inputs\n"), (C, "        self.reset_output()\n", "        self.reset_output()\n        if self._given is not None:\n            self._given.clear()\n")]),
    ('C03', 'config keeps inputs untouched', 0, [(C, "        self.inputs = inputs\n", "        self.inputs = inputs\n        self._given = inputs\n")]),
]
