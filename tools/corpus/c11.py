E = 'NRWAL/handlers/equations.py'
C = 'NRWAL/handlers/config.py'
MISS = '''        missing = [v for v in self.variables
                   if v not in globals()
                   and v not in kwargs]
        if any(missing):
'''
REQ = '''        names = []
        for eqn in self.values():
            if isinstance(eqn, Equation):
                names += [v for v in eqn.variables
                          if v not in self.global_variables
                          and v not in self._config
                          and v not in eqn.default_variables]

        return sorted(list(set(names)))
'''
MIS = '''        names = [x for x in self.required_inputs
                 if x not in self.global_variables
                 and x not in self.inputs]
        return sorted(list(set(names)))
'''
ITEMS = [
 ('C11', 'no missing test', 1, [(E, '        if any(missing):\n            msg', '        if any(missing) and not kwargs:\n            msg')]),
 ('C11', 'np names exempt', 1, [(E, MISS, '''        missing = [v for v in self.variables
                   if v not in globals()
                   and v not in dir(np)
                   and v not in kwargs]
        if any(missing):
''')]),
 ('C11', 'len missing', 0, [(E, '        if any(missing):\n', '        if len(missing) > 0:\n')]),
 ('C11', 'missing loop', 0, [(E, MISS, '''        missing = []
        for v in self.variables:
            if v in globals() or v in kwargs:
                continue
            missing.append(v)
        if missing:
''')]),
 ('C11', 'missing helper', 0, [(E, MISS, '''        missing = self._missing(kwargs)
        if missing:
'''), (E, '''    def eval(self, **kwargs):
''', '''    def _missing(self, available):
        return [v for v in self.variables
                if not (v in globals() or v in available)]

    def eval(self, **kwargs):
''')]),
 ('C11', 'more than one missing', 1, [(E, '        if any(missing):\n', '        if len(missing) > 1:\n')]),
 ('C11', 'missing raises KeyError', 1, [(E, '''            logger.error(msg)
            raise RuntimeError(msg)

        try:
''', '''            logger.error(msg)
            raise KeyError(msg)

        try:
''')]),
 ('C11', 'missing only first variable', 1, [(E, 'missing = [v for v in self.variables\n', 'missing = [v for v in self.variables[:-1]\n')]),
 ('C11', 'required ignores defaults', 1, [(C, '                          and v not in self._config\n                          and v not in eqn.default_variables]', '                          and v not in self._config]')]),
 ('C11', 'required uses directory defaults', 1, [(C, 'and v not in eqn.default_variables]', 'and v not in self._eqn_dir.default_variables]')]),
 ('C11', 'required not over outputs', 1, [(C, REQ, REQ.replace('self.values()', 'self.values()').replace("if isinstance(eqn, Equation):", "if isinstance(eqn, Equation) and eqn not in self._outputs:"))]),
 ('C11', 'required set comp', 0, [(C, REQ, '''        known = self.global_variables
        names = {v for eqn in self._config.values()
                 if isinstance(eqn, Equation)
                 for v in eqn.variables
                 if v not in known and v not in self._config
                 and v not in eqn.default_variables}
        return sorted(names)
''')]),
 ('C11', 'required helper', 0, [(C, REQ, '''        names = set()
        for eqn in self.values():
            if not isinstance(eqn, Equation):
                continue
            names.update(self._needs(eqn))
        return sorted(names)

    def _needs(self, eqn):
        """variables of one equation without a value"""
        skip = set(self.global_variables) | set(self._config) | set(eqn.default_variables)
        return [v for v in eqn.variables if v not in skip]
''')]),
 ('C11', 'missing set diff', 0, [(C, MIS, '''        return sorted(set(self.required_inputs) - set(self.inputs))
''')]),
 ('C11', 'missing in outputs', 1, [(C, '                 and x not in self.inputs]', '                 and x not in self.inputs and x not in self._outputs]')]),
 ('C11', 'missing falsy', 1, [(C, '                 and x not in self.inputs]', '                 and not self.inputs.get(x)]')]),
 ('C11', 'solvable len', 0, [(C, 'return not any(self.missing_inputs)', 'return len(self.missing_inputs) == 0')]),
 ('C11', 'solvable required', 1, [(C, 'return not any(self.missing_inputs)', 'return not any(self.required_inputs) or bool(self.inputs)')]),
 ('C11', 'evaluate no check', 1, [(C, '        if not self.solvable:\n', '        if inputs is not None and not self.solvable:\n')]),
 ('C11', 'evaluate check missing_inputs', 0, [(C, '        if not self.solvable:\n', '        missing = self.missing_inputs\n        if missing:\n')]),
 ('C11', 'evaluate after loop start', 1, [(C, '        if not self.solvable:\n', '        if not self.solvable and not self.outputs:\n')]),
 ('C11', 'parse: comma not stripped', 1, [(E, "variables = [sub.strip(',')\n", "variables = [sub\n")]),
 ('C11', 'parse: sci', 1, [(E, "[eE][-+]?[0-9]+(?!\\w)')", "[e][-+]?[0-9]+(?!\\w)')")]),
 ('C11', 'parse: brackets', 1, [(E, "delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')", "delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '<')")]),
 ('C11', 'parse: delim reorder', 0, [(E, "delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')", "delimiters = ('<', '>', ']', '[', '(', ')', '*', '/', '+', '-', ' ')")]),
 ('C11', 'parse: regex class', 0, [(E, "regex_pattern = '|'.join(map(re.escape, delimiters))", "regex_pattern = '[' + ''.join(re.escape(d) for d in delimiters) + ']'")]),
]
