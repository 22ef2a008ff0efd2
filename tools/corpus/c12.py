E = 'NRWAL/handlers/equations.py'
C = 'NRWAL/handlers/config.py'
CALL = '''        for name, expression in config.items():
            self._check_circ_ref(name, expression, config)

'''
REC = '''        for var in all_vars:
            if var in config:
                cls._check_circ_ref(orig_name, config[var], config,
                                    current_name=var, msg=msg)
'''
PARSE = '''        self._config = self._parse_config(config, self._eqn_dir,
                                          self._global_variables)
'''
VER = '''        if self._base_name in self.variables:
'''
ITEMS = [
 ('C12', 'only first ref', 1, [(C, REC, '''        for var in all_vars[:1]:
            if var in config:
                cls._check_circ_ref(orig_name, config[var], config,
                                    current_name=var, msg=msg)
''')]),
 ('C12', 'depth two', 1, [(C, REC, '''        for var in all_vars:
            if var in config and orig_name not in Equation.parse_variables(config[var]):
                continue
            if var in config:
                cls._check_circ_ref(orig_name, config[var], config,
                                    current_name=var, msg=msg)
''')]),
 ('C12', 'break after first', 1, [(C, REC, REC + '                break\n')]),
 ('C12', 'check after parse', 1, [(C, CALL + PARSE, PARSE.replace('config, self', 'copy.deepcopy(config), self') + '\n' + CALL)]),
 ('C12', 'check only strings with op', 1, [(C, '            self._check_circ_ref(name, expression, config)\n', '            if Equation.is_equation(expression):\n                self._check_circ_ref(name, expression, config)\n')]),
 ('C12', 'skip gvars ok', 0, [(C, '            self._check_circ_ref(name, expression, config)\n', '            if name not in self._global_variables:\n                self._check_circ_ref(name, expression, config)\n')]),
 ('C12', 'visited wrong', 1, [(C, CALL, '''        seen = set()
        for name, expression in config.items():
            if name in seen:
                continue
            self._check_circ_ref(name, expression, config)
            seen.update(Equation.parse_variables(expression))

''')]),
 ('C12', 'checker loop moved', 0, [(C, CALL, '        self._check_all_refs(config)\n\n'), (C, '    @classmethod\n    def _check_circ_ref(', '''    @classmethod
    def _check_all_refs(cls, config):
        """check all entries"""
        for name in config:
            cls._check_circ_ref(name, config[name], config)

    @classmethod
    def _check_circ_ref(''')]),
 ('C12', 'iterative', 0, [(C, REC, '''        todo = [v for v in all_vars if v in config]
        done = set()
        while todo:
            var = todo.pop()
            if var in done:
                continue
            done.add(var)
            refs = Equation.parse_variables(config[var])
            if orig_name in refs:
                msg += ' -> {}'.format(var)
                logger.error(msg)
                raise RuntimeError(msg)
            todo += [v for v in refs if v in config]
''')]),
 ('C12', 'filter comp', 0, [(C, REC, '''        for var in [v for v in all_vars if v in config]:
            cls._check_circ_ref(orig_name, config[var], config,
                                current_name=var, msg=msg)
''')]),
 ('C12', 'orig replaced', 1, [(C, "cls._check_circ_ref(orig_name, config[var], config,", "cls._check_circ_ref(var, config[var], config,")]),
 ('C12', 'expression not current', 1, [(C, "cls._check_circ_ref(orig_name, config[var], config,", "cls._check_circ_ref(orig_name, config.get(orig_name), config,") ]) if False else
 ('C12', 'not last entry', 1, [(C, '        for name, expression in config.items():\n            self._check_circ_ref', '        for name, expression in list(config.items())[:-1]:\n            self._check_circ_ref')]),
 ('C12', 'only entry names of raw', 0, [(C, '        for name, expression in config.items():\n            self._check_circ_ref(name, expression, config)', '        for name, expression in self._raw_config.items():\n            self._check_circ_ref(name, expression, self._raw_config)')]),
 ('C12', 'check skips library names', 1, [(C, '            if var in config:\n                cls._check_circ', "            if var in config and '_' not in var:\n                cls._check_circ")]),
 ('C12', 'depth limit', 1, [(C, "            if var in config:\n                cls._check", "            if var in config and msg.count('->') < 6:\n                cls._check")]),
 ('C12', 'verify only with spaces', 1, [(E, VER, '        if self._base_name in self._eqn.split():\n')]),
 ('C12', 'verify dropped in ctor', 1, [(E, '''        self.verify_no_self_reference()

    def verify''', '''        if self.is_equation(self._eqn):
            self.verify_no_self_reference()

    def verify''')]),
 ('C12', 'verify helper', 0, [(E, VER, '        own = self._base_name\n        if own is not None and own in self.variables:\n')]),
 ('C12', 'verify any', 0, [(E, VER, '        if any(v == self._base_name for v in self.variables):\n')]),
 ('C12', 'verify type', 1, [(E, '''            logger.error(msg)
            raise ValueError(msg)

    @staticmethod
    def _check_input_args''', '''            logger.error(msg)
            raise KeyError(msg)

    @staticmethod
    def _check_input_args''')]),
 ('C12', 'verify with defaults exempt', 1, [(E, VER, '        if (self._base_name in self.variables\n                and self._base_name not in self._default_variables):\n')]),
 ('C12', 'preflight moved before name', 1, [(E, '''        self._base_name = name
        self._eqn = str(eqn)
        self._preflight()
''', '''        self._base_name = None
        self._eqn = str(eqn)
        self._preflight()
        self._base_name = name
''')]),
]
