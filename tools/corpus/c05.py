E = 'NRWAL/handlers/equations.py'
G = 'NRWAL/handlers/groups.py'
D = 'NRWAL/handlers/directories.py'
C = 'NRWAL/handlers/config.py'
LAY = '''                    kwargs = copy.deepcopy(self.global_variables)
                    kwargs.update(self.inputs)
                    kwargs.update(self._outputs)
'''
ITEMS = [
 ('C05', 'inputs over outputs', 1, [(C, LAY, '''                    kwargs = copy.deepcopy(self.global_variables)
                    kwargs.update(self._outputs)
                    kwargs.update(self.inputs)
''')]),
 ('C05', 'globals over inputs', 1, [(C, LAY, '''                    kwargs = dict(self.inputs)
                    kwargs.update(self.global_variables)
                    kwargs.update(self._outputs)
''')]),
 ('C05', 'globals dropped', 1, [(C, LAY, '''                    kwargs = copy.deepcopy(self.inputs)
                    kwargs.update(self._outputs)
''')]),
 ('C05', 'double star merge', 0, [(C, LAY, '''                    kwargs = {**self.global_variables, **self.inputs,
                              **self._outputs}
''')]),
 ('C05', 'loop merge', 0, [(C, LAY, '''                    kwargs = {}
                    for layer in (self.global_variables, self.inputs, self._outputs):
                        kwargs.update(layer)
''')]),
 ('C05', 'helper merge', 0, [(C, LAY, '''                    kwargs = self._namespace()
'''), (C, '''    def eval(self, inputs=None):
''', '''    def _namespace(self):
        out = copy.deepcopy(self._global_variables)
        for k, v in self._inputs.items():
            out[k] = v
        out.update(self.outputs)
        return out

    def eval(self, inputs=None):
''')]),
 ('C05', 'only needed kwargs', 0, [(C, LAY, LAY + '''                    kwargs = {a: b for a, b in kwargs.items() if a in v.variables}
''')]),
 ('C05', 'zero inputs dropped', 1, [(C, '                    kwargs.update(self.inputs)\n', '                    kwargs.update({a: b for a, b in self.inputs.items() if np.any(b)})\n')]),
 ('C05', 'merge reversed', 1, [(E, '''            out = copy.deepcopy(var_group)

        out.update(kwargs)
''', '''            out = copy.deepcopy(kwargs)
            out.update(var_group)
            return out

        out.update(kwargs)
''')]),
 ('C05', 'setdefault merge ok', 0, [(E, '''            out = copy.deepcopy(var_group)

        out.update(kwargs)
''', '''            out = copy.deepcopy(var_group)

        for k, v in kwargs.items():
            out[k] = v
''')]),
 ('C05', 'merge dict literal ok', 0, [(E, '''            out = copy.deepcopy(var_group)

        out.update(kwargs)
''', '''            out = copy.deepcopy(var_group)

        out = {**out, **kwargs}
''')]),
 ('C05', 'float arrays cut', 1, [(E, '''                if np.issubdtype(v.dtype, np.integer):
                    kwargs[k] = v.astype(np.float32)
''', '''                kwargs[k] = v.astype(np.float32)
''')]),
 ('C05', 'ints kept as int', 0, [(E, '''            elif isinstance(v, int):
                kwargs[k] = float(v)
''', '''            elif isinstance(v, int):
                num = float(v)
                kwargs[k] = num
''')]),
 ('C05', 'constant wins over arg in eqn', 1, [(E, '        kwargs = self._merge_vars(self._default_variables, kwargs)\n', '        kwargs = self._merge_vars(kwargs, self._default_variables)\n')]),
 ('C05', 'inputs only new keys', 1, [(C, '                self._inputs[k] = v\n', '                self._inputs.setdefault(k, v)\n')]),
 ('C05', 'gvars not set on groups', 1, [(C, '''        if isinstance(out, (Equation, EquationGroup)):
            out.set_default_variables(gvars)
''', '''        if isinstance(out, Equation):
            out.set_default_variables(gvars)
''')]),
 ('C05', 'not forced', 1, [(C, 'out.set_default_variables(gvars, force_update=True)', 'out.set_default_variables(gvars)')]),
 ('C05', 'forced positional', 0, [(C, 'out.set_default_variables(gvars, force_update=True)', 'out.set_default_variables(gvars, True)')]),
 ('C05', 'defaults not overridden', 1, [(E, '''        if var_dict is not None:
            self._default_variables.update(copy.deepcopy(var_dict))
''', '''        if var_dict is not None:
            for k, v in var_dict.items():
                self._default_variables.setdefault(k, copy.deepcopy(v))
''')]),
 ('C05', 'defaults loop', 0, [(E, '''        if var_dict is not None:
            self._default_variables.update(copy.deepcopy(var_dict))
''', '''        if var_dict is None:
            return

        for k, v in var_dict.items():
            self._default_variables[k] = copy.deepcopy(v)
''')]),
 ('C05', 'nan inputs dropped', 1, [(E, '        kwargs = self._merge_vars(self._default_variables, kwargs)\n', '        kwargs = self._merge_vars(self._default_variables, {k: v for k, v in kwargs.items() if v})\n')]),
 ('C05', 'df col', 0, [(C, 'v = arg[k].values.flatten()', 'v = arg[k].to_numpy().ravel()')]),
 ('C05', 'inputs dict helper', 0, [(C, '''                if isinstance(v, np.ndarray):
                    if Equation.is_num(v[0]):
                        v = v.astype(np.float32)
                elif isinstance(v, int):
                    v = float(v)

                self._inputs[k] = v
''', '''                self._inputs[k] = self._as_float(v)
'''), (C, '''    def eval(self, inputs=None):
''', '''    @staticmethod
    def _as_float(v):
        if isinstance(v, np.ndarray):
            if Equation.is_num(v[0]):
                return v.astype(np.float32)
            return v
        return float(v) if isinstance(v, int) else v

    def eval(self, inputs=None):
''')]),
]
