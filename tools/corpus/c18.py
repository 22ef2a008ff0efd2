G = 'NRWAL/handlers/groups.py'
E = 'NRWAL/handlers/equations.py'
PAT = r"""                    pattern = r'(?<![\w.]){}(?!\w)'.format(re.escape(var))
"""
SUB = r"""                    new_eqn = re.sub(pattern, lambda _: repl_str, eqn.full)
"""
VARS = """                for var in [v for v in eqn.variables if v in group]:
"""
FOR = """            for group_key, eqn in group.items():
                if not isinstance(eqn, Equation):
                    continue
"""
LOOP = """        working = True
        while working:
            working = False
            for group_key, eqn in group.items():
                if not isinstance(eqn, Equation):
                    continue
                for var in [v for v in eqn.variables if v in group]:
                    repl_str = '({})'.format(group[var].full)
                    # only replace the full variable name, not part of another
                    pattern = r'(?<![\\w.]){}(?!\\w)'.format(re.escape(var))
                    new_eqn = re.sub(pattern, lambda _: repl_str, eqn.full)
                    group[group_key] = eqn = eqn.replace_equation(new_eqn)
                    working = True
"""
REPL = """        return self.__class__(
            new_eqn, name=self._base_name,
            default_variables=self.default_variables"""
ITEMS = [
 ('C18', 'plain replace', 1, [(G, PAT + SUB, "                    new_eqn = eqn.full.replace(var, repl_str)\n")]),
 ('C18', 'no lookahead', 1, [(G, PAT, PAT.replace(r'(?!\w)', ''))]),
 ('C18', 'no lookbehind', 1, [(G, PAT, PAT.replace(r'(?<![\w.])', ''))]),
 ('C18', 'lookbehind no dot', 1, [(G, PAT, PAT.replace(r'[\w.]', r'[\w]'))]),
 ('C18', 'word boundary', 1, [(G, PAT, r"""                    pattern = r'\b{}\b'.format(re.escape(var))
""")]),
 ('C18', 'letters only', 1, [(G, PAT, PAT.replace(r'(?!\w)', '(?![a-zA-Z])'))]),
 ('C18', 'first only', 0, [(G, SUB, SUB.replace('eqn.full)', 'eqn.full, count=1)'))]),
 ('C18', 'no brackets', 1, [(G, "repl_str = '({})'.format(group[var].full)", "repl_str = group[var].full")]),
 ('C18', 'brackets only if operator', 1, [(G, "repl_str = '({})'.format(group[var].full)", "repl_str = group[var].full\n                    if ' + ' in repl_str or ' - ' in repl_str:\n                        repl_str = '({})'.format(repl_str)")]),
 ('C18', 'ignore case', 1, [(G, SUB, SUB.replace('eqn.full)', 'eqn.full,\n                                     flags=re.IGNORECASE)'))]),
 ('C18', 'once', 1, [(G, "                    working = True\n\n        return group", "\n        return group")]),
 ('C18', 'three passes', 1, [(G, "        while working:\n            working = False\n            for group_key", "        n_pass = 0\n        while working and n_pass < 3:\n            n_pass += 1\n            working = False\n            for group_key")]),
 ('C18', 'for passes', 1, [(G, "        while working:\n            working = False\n            for group_key", "        for _ in range(4):\n            working = False\n            for group_key")]),
 ('C18', 'one var', 1, [(G, VARS, VARS.replace('if v in group]:', 'if v in group][:1]:')), (G, "                    working = True\n\n        return group", "\n        return group")]),
 ('C18', 'drop name', 1, [(E, "new_eqn, name=self._base_name,", "new_eqn,")]),
 ('C18', 'drop defaults', 1, [(E, REPL, REPL.replace(",\n            default_variables=self.default_variables", ""))]),
 ('C18', 'name of var', 1, [(G, "group[group_key] = eqn = eqn.replace_equation(new_eqn)", "group[group_key] = eqn = group[var].replace_equation(new_eqn)")]),
 ('C18', 'stale eqn', 1, [(G, "group[group_key] = eqn = eqn.replace_equation(new_eqn)", "group[group_key] = eqn.replace_equation(new_eqn)"), (G, "                    working = True\n\n        return group", "\n        return group")]),
 ('C18', 'skip numeric', 1, [(G, VARS, VARS.replace('if v in group]:', "if v in group\n                            and group[v].variables]:"))]),
 ('C18', 'longer names first skip', 1, [(G, VARS, VARS.replace('if v in group]:', 'if v in group and len(v) > 1]:'))]),
 ('C18', 'rounded numbers', 1, [(G, "                group[k] = Equation(v, name=k)", "                group[k] = Equation(int(v) if Equation.is_num(v) else v, name=k)")]),
 # behaviour kept
 ('C18', 'compiled pattern', 0, [(G, PAT + SUB, r"""                    pattern = re.compile(r'(?<![\w.])' + re.escape(var)
                                         + r'(?!\w)')
                    new_eqn = pattern.sub(lambda _: repl_str, eqn.full)
""")]),
 ('C18', 'escape repl', 0, [(G, SUB, "                    new_eqn = re.sub(pattern, repl_str.replace('\\\\', r'\\\\'),\n                                     eqn.full)\n")]),
 ('C18', 'plus concat', 0, [(G, "repl_str = '({})'.format(group[var].full)", "repl_str = '(' + group[var].full + ')'")]),
 ('C18', 'fstring', 0, [(G, "repl_str = '({})'.format(group[var].full)", "repl_str = f'({group[var].full})'")]),
 ('C18', 'helper method', 0, [(G, LOOP, """        while self._insert_references(group):
            pass
"""), (G, """    @property
    def default_variables(self):
        \"\"\"Get a dictionary of default variables from a variables.yaml file
        accessible to this object

        Returns
        -------
        dict
        \"\"\"
        return self._default_variables


class VariableGroup""", """    @staticmethod
    def _insert_references(group):
        changed = False
        for group_key, eqn in group.items():
            if not isinstance(eqn, Equation):
                continue
            for var in [v for v in eqn.variables if v in group]:
                repl_str = '({})'.format(group[var].full)
                pattern = r'(?<![\\w.]){}(?!\\w)'.format(re.escape(var))
                new_eqn = re.sub(pattern, lambda _: repl_str, eqn.full)
                eqn = eqn.replace_equation(new_eqn)
                group[group_key] = eqn
                changed = True
        return changed

    @property
    def default_variables(self):
        \"\"\"Get a dictionary of default variables from a variables.yaml file
        accessible to this object

        Returns
        -------
        dict
        \"\"\"
        return self._default_variables


class VariableGroup""")]),
 ('C18', 'while true', 0, [(G, "        working = True\n        while working:\n            working = False\n            for group_key", "        while True:\n            working = False\n            for group_key"), (G, "                    working = True\n\n        return group", "                    working = True\n            if not working:\n                break\n\n        return group")]),
 ('C18', 'list of items', 0, [(G, FOR, FOR.replace('in group.items()', 'in list(group.items())'))]),
 ('C18', 'inverted test', 0, [(G, LOOP, LOOP.replace("""                if not isinstance(eqn, Equation):
                    continue
""", "").replace("[v for v in eqn.variables if v in group]", "self._refs(eqn, group)")), (G, "    @property\n    def default_variables(self):\n        \"\"\"Get a dictionary of default variables from a variables.yaml file\n        accessible to this object\n\n        Returns\n        -------\n        dict\n        \"\"\"\n        return self._default_variables\n\n\nclass VariableGroup", "    @staticmethod\n    def _refs(eqn, group):\n        if isinstance(eqn, Equation):\n            return [v for v in eqn.variables if v in group]\n        return []\n\n    @property\n    def default_variables(self):\n        return self._default_variables\n\n\nclass VariableGroup")]),
 ('C18', 'loop var filter', 0, [(G, VARS, "                for var in eqn.variables:\n                    if var not in group:\n                        continue\n")]),
 ('C18', 'lookup by hand', 0, [(G, PAT + SUB, r"""                    pattern = r'(^|[^\w.])' + re.escape(var) + r'(?=\W|$)'
                    new_eqn = re.sub(pattern, lambda m: m.group(1) + repl_str,
                                     eqn.full)
""")]),
 ('C18', 'new equation directly', 0, [(G, "group[group_key] = eqn = eqn.replace_equation(new_eqn)", "eqn = Equation(new_eqn, name=group_key,\n                                   default_variables=eqn.default_variables)\n                    group[group_key] = eqn")]),
 ('C18', 'replace via cls', 0, [(E, REPL, "        cls = type(self)\n        return cls(\n            new_eqn, name=self._base_name,\n            default_variables=self._default_variables")]),
 ('C18', 'replace via Equation', 0, [(E, REPL, "        return Equation(\n            new_eqn, self._base_name,\n            copy.deepcopy(self._default_variables)")]),
]
