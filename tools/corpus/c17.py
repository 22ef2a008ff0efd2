G = 'NRWAL/handlers/groups.py'
E = 'NRWAL/handlers/equations.py'
C = 'NRWAL/handlers/config.py'
EG = "            if isinstance(v, (str, int, float)):\n                group[k] = Equation(v, name=k)\n"
EGELSE = """            else:
                msg = ('Cannot use equation group value that is not a '
                       'string, float, int, or dictionary: {} ({})'
                       .format(v, type(v)))
                logger.error(msg)
                raise TypeError(msg)
"""
VG = """            if isinstance(v, int):
                v = float(v)
                group[k] = v
            if not isinstance(v, float):
                msg = ('Cannot use variable group value that is not a '
                       'float: {} ({})'.format(v, type(v)))
                logger.error(msg)
                raise TypeError(msg)
"""
CI = """            is_num = (isinstance(v, (int, float, np.ndarray, list, tuple))
                      | np.issubdtype(type(v), np.number))
            assert is_num, msg
"""
CV = "            if not isinstance(expression, (int, float, str)):\n"
KEYC = "            if Equation.is_num(name):\n"
KEYG = "            if Equation.is_num(k):\n"
NOTD = "        if not isinstance(group, dict):\n"
NOTC = "        if not isinstance(config, dict):\n"
ITEMS = [
 ('C17', 'group skip none', 1, [(G, EG, "            if v is None:\n                continue\n" + EG)]),
 ('C17', 'group list joined', 1, [(G, EG, "            if isinstance(v, list):\n                v = ' + '.join(map(str, v))\n" + EG)]),
 ('C17', 'group else log only', 1, [(G, EGELSE, EGELSE.replace("                raise TypeError(msg)\n", ""))]),
 ('C17', 'group else only nonempty', 1, [(G, EGELSE, EGELSE.replace("            else:\n", "            elif v:\n"))]),
 ('C17', 'group not dict equation', 1, [(G, EG, "            if not isinstance(v, (dict, list)):\n                group[k] = Equation(v, name=k)\n")]),
 ('C17', 'group tuple accepted', 1, [(G, EG, EG.replace('(str, int, float)', '(str, int, float, tuple)'))]),
 ('C17', 'var coerces text', 1, [(G, VG, VG.replace('isinstance(v, int)', "Equation.is_num(v)"))]),
 ('C17', 'var skip none', 1, [(G, VG, VG.replace('if not isinstance(v, float):', 'if v is not None and not isinstance(v, float):'))]),
 ('C17', 'var only first', 1, [(G, VG, VG + "            break\n")]),
 ('C17', 'var allow str', 1, [(G, VG, VG.replace('isinstance(v, float)', 'isinstance(v, (float, str))'))]),
 ('C17', 'var key isdigit', 1, [(G, "        for k, v in group.items():\n" + KEYG, "        for k, v in group.items():\n            if k.isdigit():\n")]),
 ('C17', 'group key isdigit', 1, [(G, "        for k, v in sorted(group.items()):\n" + KEYG, "        for k, v in sorted(group.items()):\n            if k.isnumeric():\n")]),
 ('C17', 'group key isdecimal dot', 1, [(G, "        for k, v in sorted(group.items()):\n" + KEYG, "        for k, v in sorted(group.items()):\n            if k.replace('.', '').isdigit():\n")]),
 ('C17', 'group key only text value', 1, [(G, "        for k, v in sorted(group.items()):\n" + KEYG, "        for k, v in sorted(group.items()):\n            if Equation.is_num(k) and isinstance(v, str):\n")]),
 ('C17', 'config key isinstance int', 1, [(C, KEYC, "            if isinstance(name, (int, float)):\n")]),
 ('C17', 'config key text only', 1, [(C, KEYC, "            if isinstance(name, str) and Equation.is_num(name):\n")]),
 ('C17', 'config key skip', 1, [(C, KEYC + """                msg = ('You cannot use numbers as keys in config: "{}"'
                       .format(name))
                logger.error(msg)
                raise ValueError(msg)
""", KEYC + "                continue\n")]),
 ('C17', 'config value dict ok', 1, [(C, CV, CV.replace('(int, float, str)', '(int, float, str, dict)'))]),
 ('C17', 'config value none skip', 1, [(C, CV, "            if expression is None:\n                continue\n\n" + CV)]),
 ('C17', 'config value str', 1, [(C, CV, "            if isinstance(expression, tuple):\n                expression = str(expression)\n\n" + CV)]),
 ('C17', 'config value only truthy', 1, [(C, CV, CV.replace('if not', 'if expression and not'))]),
 ('C17', 'inputs str allowed', 1, [(E, CI, CI.replace('list, tuple))', 'list, tuple, str))'))]),
 ('C17', 'inputs none allowed', 1, [(E, CI, CI.replace('assert is_num, msg', 'assert is_num or v is None, msg'))]),
 ('C17', 'inputs has len', 1, [(E, CI, CI.replace('assert is_num, msg', "assert is_num or hasattr(v, '__len__'), msg"))]),
 ('C17', 'inputs not str only', 1, [(E, CI, "            is_num = not isinstance(v, (str, dict, set))\n            assert is_num, msg\n")]),
 ('C17', 'inputs any', 1, [(E, CI, ""), (E, "        for k, v in kwargs.items():\n            msg = 'Input keys", "        ok = [isinstance(v, (int, float, np.ndarray, list, tuple))\n              or np.issubdtype(type(v), np.number) for v in kwargs.values()]\n        assert any(ok) or not ok\n        for k, v in kwargs.items():\n            msg = 'Input keys")]),
 ('C17', 'inputs only used', 1, [(E, "        kwargs = self._check_input_args(kwargs)\n", "        kwargs = dict(kwargs, **self._check_input_args(\n            {k: v for k, v in kwargs.items() if k in self.variables}))\n")]),
 ('C17', 'inputs unchecked', 1, [(C, "        Equation._check_input_args(self._inputs)\n", "")]),
 ('C17', 'inputs drop none', 1, [(C, "            for k in keys:\n                if isinstance(arg, dict):\n                    v = arg[k]\n", "            for k in keys:\n                if isinstance(arg, dict):\n                    v = arg[k]\n                    if v is None:\n                        continue\n")]),
 ('C17', 'inputs list of pairs', 1, [(C, "        if arg is None:\n            self._inputs = {}\n", "        if isinstance(arg, (list, tuple)):\n            arg = dict(arg)\n\n        if arg is None:\n            self._inputs = {}\n")]),
 ('C17', 'inputs falsy', 1, [(C, "        if arg is None:\n            self._inputs = {}\n", "        if not isinstance(arg, pd.DataFrame) and not arg:\n            self._inputs = {}\n")]),
 ('C17', 'group none source', 1, [(G, NOTD, "        if group is None:\n            group = {}\n\n" + NOTD)]),
 ('C17', 'group iterable source', 1, [(G, NOTD, NOTD.replace('dict', '(dict, list, tuple)')), (G, "group = {str(k): v for k, v in group.items()}", "group = {str(k): v for k, v in dict(group).items()}")]),
 ('C17', 'config none source', 1, [(C, NOTC, "        if not config:\n            config = {}\n\n" + NOTC)]),
 ('C17', 'config txt', 1, [(C, """            elif config.endswith(('.yml', '.yaml')):
                with open(config, 'r') as f:
                    config = yaml.safe_load(f)
""", """            elif config.endswith(('.yml', '.yaml', '.txt')):
                with open(config, 'r') as f:
                    config = yaml.safe_load(f)
""")]),
 ('C17', 'group else yaml', 1, [(G, "            elif group.endswith(('.yml', '.yaml')):\n", "            elif not group.endswith('.csv'):\n")]),
 ('C17', 'group contains yaml', 1, [(G, "            elif group.endswith(('.yml', '.yaml')):\n", "            elif '.yml' in group or '.yaml' in group:\n")]),
 ('C17', 'group suffix without dot', 1, [(G, "            elif group.endswith(('.yml', '.yaml')):\n", "            elif group.endswith(('yml', 'yaml')):\n")]),
 ('C17', 'group missing empty', 1, [(G, """                msg = 'Cannot find equation file path: {}'.format(group)
                logger.error(msg)
                raise FileNotFoundError(msg)
""", """                msg = 'Cannot find equation file path: {}'.format(group)
                logger.warning(msg)
                return {}
""")]),
 ('C17', 'config load or empty', 1, [(C, "                    config = yaml.safe_load(f)\n", "                    config = yaml.safe_load(f) or {}\n")]),
 # behaviour kept
 ('C17', 'no exists check', 0, [(G, """            if not os.path.exists(group):
                msg = 'Cannot find equation file path: {}'.format(group)
                logger.error(msg)
                raise FileNotFoundError(msg)

""", "")]),
 ('C17', 'assert style', 0, [(G, VG, """            if isinstance(v, int):
                v = float(v)
                group[k] = v
            ok = isinstance(v, float)
            if ok:
                continue
            raise TypeError('Bad variable: {} {}'.format(k, type(v)))
""")]),
 ('C17', 'var type in', 0, [(G, VG, """            if type(v) not in (int, float, bool, np.float64):
                msg = 'Cannot use variable group value: {}'.format(v)
                logger.error(msg)
                raise TypeError(msg)
            group[k] = float(v)
""")]),
 ('C17', 'helper check', 0, [(E, CI, "            assert Equation._is_input(v), msg\n"), (E, "    @staticmethod\n    def _check_input_args", "    @staticmethod\n    def _is_input(v):\n        if isinstance(v, (int, float)):\n            return True\n        if isinstance(v, (np.ndarray, list, tuple)):\n            return True\n        return bool(np.issubdtype(type(v), np.number))\n\n    @staticmethod\n    def _check_input_args")]),
 ('C17', 'checks comprehension', 0, [(E, CI, ""), (E, "        for k, v in kwargs.items():\n            msg = 'Input keys", "        bad = [k for k, v in kwargs.items()\n               if not isinstance(v, (int, float, np.ndarray, list, tuple))\n               and not np.issubdtype(type(v), np.number)]\n        assert not bad, 'Bad inputs: {}'.format(bad)\n        for k, v in kwargs.items():\n            msg = 'Input keys")]),
 ('C17', 'config else', 0, [(C, CV, "            allowed = isinstance(expression, (str, float, int))\n            if not allowed:\n")]),
 ('C17', 'group order', 0, [(G, "            if isinstance(v, (str, int, float)):\n                group[k] = Equation(v, name=k)\n\n            elif isinstance(v, dict):\n", "            if not isinstance(v, (str, int, float, dict)):\n                raise TypeError('Bad value: {}'.format(v))\n\n            if isinstance(v, (str, int, float)):\n                group[k] = Equation(v, name=k)\n\n            elif isinstance(v, dict):\n")]),
 ('C17', 'keys first', 0, [(G, "        for k, v in sorted(group.items()):\n" + KEYG, "        if any(Equation.is_num(k) for k in group):\n            raise ValueError('Numbers as keys')\n\n        for k, v in sorted(group.items()):\n" + KEYG)]),
 ('C17', 'splitext ending', 0, [(G, "            elif group.endswith(('.yml', '.yaml')):\n", "            elif os.path.splitext(group)[-1] in ('.yml', '.yaml'):\n")]),
 ('C17', 'config key str', 0, [(C, KEYC, "            if Equation.is_num(str(name)):\n")]),
 ('C17', 'config key try', 0, [(C, KEYC, "            try:\n                float(name)\n                numeric = True\n            except (ValueError, TypeError):\n                numeric = False\n            if numeric:\n")]),
]
