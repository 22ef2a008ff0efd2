C = 'NRWAL/handlers/config.py'
RESET = '''        # outputs from previous inputs are no longer valid
        self.reset_output()
'''
LOOP = '''        while not self.solved:
            for k, v in self.items():
                if (isinstance(v, (EquationGroup, EquationDirectory))
                        or Equation.is_num(v)):
                    pass
                elif isinstance(v, Equation):
'''
TBS = '''        return [k for k, v in self._config.items()
                if k not in self._outputs
                and k not in self.global_variables
                and isinstance(v, Equation)]
'''
KW = '''                    kwargs = copy.deepcopy(self.global_variables)
                    kwargs.update(self.inputs)
                    kwargs.update(self._outputs)
'''
ITEMS = [
 ('C13', 'no reset', 1, [(C, RESET, '')]),
 ('C13', 'reset only with inputs', 1, [(C, RESET, '        if inputs is not None:\n            self.reset_output()\n')]),
 ('C13', 'reset only if not solved', 1, [(C, RESET, '        if self.solved:\n            return self._outputs\n        self.reset_output()\n')]),
 ('C13', 'reset by assignment', 0, [(C, RESET, '        self._outputs = {}\n')]),
 ('C13', 'reset by clear', 0, [(C, RESET, '        self._outputs = dict()\n')]),
 ('C13', 'skip computed', 1, [(C, LOOP, LOOP.replace("or Equation.is_num(v)):", "or Equation.is_num(v) or k in self._inputs):"))]),
 ('C13', 'skip if input open', 1, [(C, TBS, TBS.replace("k not in self._outputs", "k not in self._outputs and k not in self.inputs"))]),
 ('C13', 'open ignores equation without inputs', 1, [(C, TBS, TBS.replace("isinstance(v, Equation)]", "isinstance(v, Equation)\n                and any(x in self.inputs for x in v.variables)]"))]),
 ('C13', 'tbs loop', 0, [(C, TBS, '''        names = []
        for k, v in self._config.items():
            if not isinstance(v, Equation):
                continue
            if k in self._outputs or k in self.global_variables:
                continue
            names.append(k)
        return names
''')]),
 ('C13', 'copy returned', 0, [(C, '        return self._outputs\n\n', '        return self._outputs\n')]) if False else
 ('C13', 'local outputs', 0, [(C, RESET, '        self._outputs = {}\n        outputs = self._outputs\n'), (C, "                        self._outputs[k] = v.evaluate(**kwargs)", "                        outputs[k] = v.evaluate(**kwargs)")]),
 ('C13', 'loop helper', 0, [(C, KW + '''
                    try:
                        self._outputs[k] = v.evaluate(**kwargs)
''', '''                    kwargs = self._namespace()

                    try:
                        self._outputs[k] = v.evaluate(**kwargs)
'''), (C, '''    def eval(self, inputs=None):
''', '''    def _namespace(self):
        """all values available"""
        kwargs = copy.deepcopy(self.global_variables)
        kwargs.update(self.inputs)
        kwargs.update(self._outputs)
        return kwargs

    def eval(self, inputs=None):
''')]),
 ('C13', 'inputs only first time', 1, [(C, '''        if inputs is not None:
            self.inputs = inputs
''', '''        if inputs is not None and not self.inputs:
            self.inputs = inputs
''')]),
 ('C13', 'inputs only with missing', 1, [(C, '''        if inputs is not None:
            self.inputs = inputs
''', '''        if inputs is not None and self.missing_inputs:
            self.inputs = inputs
''')]),
 ('C13', 'eval drops inputs', 1, [(C, "        return self.evaluate(inputs=inputs)", "        return self.evaluate()")]),
 ('C13', 'eval positional', 0, [(C, "        return self.evaluate(inputs=inputs)", "        return self.evaluate(inputs)")]),
 ('C13', 'stale value kept', 1, [(C, RESET, '        previous = self._outputs\n        self._outputs = {}\n'), (C, "                        self._outputs[k] = v.evaluate(**kwargs)",
   "                        self._outputs[k] = (previous[k] if k in previous and inputs is None\n                                            else v.evaluate(**kwargs))")]),
 ('C13', 'return other', 1, [(C, '''                raise RuntimeError(msg)

        return self._outputs
''', '''                raise RuntimeError(msg)

        return {k: v for k, v in self._outputs.items() if k not in self.inputs}
''')]),
 ('C13', 'only last used', 1, [(C, LOOP, LOOP.replace("elif isinstance(v, Equation):", "elif isinstance(v, Equation) and v.default_variables:"))]),
 ('C13', 'isinstance order', 0, [(C, '''                if (isinstance(v, (EquationGroup, EquationDirectory))
                        or Equation.is_num(v)):
                    pass
                elif isinstance(v, Equation):
''', '''                if isinstance(v, (EquationGroup, EquationDirectory)):
                    continue
                if Equation.is_num(v):
                    continue
                if isinstance(v, Equation):
''')]),
 ('C13', 'while true', 0, [(C, '        while not self.solved:\n', '        while any(self.to_be_solved):\n')]),
 ('C13', 'for to_be_solved', 0, [(C, '            for k, v in self.items():\n                if (isinst', '            for k in list(self._config):\n                v = self._config[k]\n                if (isinst')]),
 ('C13', 'stale when failing', 1, [(C, '        # outputs from previous inputs are no longer valid\n        self.reset_output()\n', ''), (C, "                    kwargs.update(self._outputs)\n", "                    kwargs.update(self._outputs)\n")]),
 ('C13', 'reset single keys', 0, [(C, RESET, '        for key in list(self._outputs):\n            self.reset_output(key)\n')]),
]
