D = 'NRWAL/handlers/directories.py'
VAR = '''            variables_file = (
                type_check and os.path.splitext(name)[0] == 'variables')
'''
ITEMS = [
 ('C16', 'no yml', 1, [(D, "type_check = name.endswith(('.json', '.yml', '.yaml'))", "type_check = name.endswith(('.json', '.yaml'))")]),
 ('C16', 'contains ext', 1, [(D, "type_check = name.endswith(('.json', '.yml', '.yaml'))", "type_check = any(x in name for x in ('.json', '.yml', '.yaml'))")]),
 ('C16', 'variables prefix', 1, [(D, VAR, "            variables_file = type_check and name.startswith('variables')\n")]),
 ('C16', 'variables contains', 1, [(D, VAR, "            variables_file = type_check and 'variables' in os.path.splitext(name)[0]\n")]),
 ('C16', 'variables yaml only', 1, [(D, VAR, "            variables_file = name == 'variables.yaml'\n")]),
 ('C16', 'variables in tuple', 0, [(D, VAR, "            variables_file = name in ('variables.json', 'variables.yml',\n                                      'variables.yaml')\n")]),
 ('C16', 'hidden loaded', 1, [(D, "elif type_check and not ignore_check:", "elif type_check and not name.startswith('__'):")]),
 ('C16', 'single underscore', 1, [(D, "ignore_check = name.startswith(('.', '__'))", "ignore_check = name.startswith(('.', '_'))")]),
 ('C16', 'empty dirs kept', 1, [(D, "                if any(obj.keys()):\n                    eqns[name] = obj", "                eqns[name] = obj")]),
 ('C16', 'empty len', 0, [(D, "if any(obj.keys()):", "if len(obj.keys()) > 0:")]),
 ('C16', 'dirs only with equations', 1, [(D, "if any(obj.keys()):", "if any(obj.all_equations):")]),
 ('C16', 'split dot', 1, [(D, "                key = os.path.splitext(name)[0]\n                try:\n                    eqns[key] = EquationGroup(", "                key = name.split('.')[0]\n                try:\n                    eqns[key] = EquationGroup(")]),
 ('C16', 'lower key', 1, [(D, "                key = os.path.splitext(name)[0]\n                try:\n                    eqns[key] = EquationGroup(", "                key = os.path.splitext(name)[0].lower()\n                try:\n                    eqns[key] = EquationGroup(")]),
 ('C16', 'rsplit', 0, [(D, "                key = os.path.splitext(name)[0]\n                try:\n                    eqns[key] = EquationGroup(", "                key = name.rsplit('.', 1)[0]\n                try:\n                    eqns[key] = EquationGroup(")]),
 ('C16', 'continue style', 0, [(D, "            ignore_check = name.startswith(('.', '__'))\n", "            ignore_check = name.startswith(('.', '__'))\n            if ignore_check:\n                continue\n")]),
 ('C16', 'skip broken', 1, [(D, '''                    msg = ('Could not parse an EquationGroup from '
                           'file: "{}". Received the exception: {}'
                           .format(name, e))
                    logger.exception(msg)
                    raise RuntimeError(msg)
''', '''                    msg = ('Could not parse an EquationGroup from '
                           'file: "{}". Received the exception: {}'
                           .format(name, e))
                    logger.exception(msg)
''')]),
 ('C16', 'wrong path', 1, [(D, "eqns[key] = EquationGroup(\n                        path,", "eqns[key] = EquationGroup(\n                        os.path.join(eqn_dir, key + '.yaml'),")]),
 ('C16', 'variables break', 1, [(D, '''                    logger.exception(msg)
                    raise RuntimeError(msg)

            elif type_check''', '''                    logger.exception(msg)
                    raise RuntimeError(msg)
                break

            elif type_check''')]),
 ('C16', 'first wins', 0, [(D, "        for name in sorted(os.listdir(eqn_dir)):", "        names = os.listdir(eqn_dir)\n        names.sort()\n        for name in names:")]),
 ('C16', 'helper filter', 0, [(D, "        for name in sorted(os.listdir(eqn_dir)):", "        for name in sorted(n for n in os.listdir(eqn_dir)\n                           if not n.startswith(('.', '__'))):")]),
 ('C16', 'helper method', 0, [(D, "            type_check = name.endswith(('.json', '.yml', '.yaml'))\n", "            type_check = cls._is_equation_file(name)\n"), (D, "    def head(self, n=5):", '''    @staticmethod
    def _is_equation_file(name):
        """known extension"""
        return os.path.splitext(name)[1] in ('.json', '.yml', '.yaml')

    def head(self, n=5):''')]),
 ('C16', 'dirs as files', 1, [(D, "            is_directory = os.path.isdir(path)\n", "            is_directory = os.path.isdir(path) and '.' not in name\n")]),
 ('C16', 'dir group swap', 1, [(D, "                    eqns[key] = VariableGroup(\n", "                    eqns[key] = EquationGroup(\n")]),
 ('C16', 'dup key skip', 1, [(D, "            elif type_check and not ignore_check:", "            elif type_check and not ignore_check and not eqns.get('variables'):")]),
 ('C16', 'group loader helper', 0, [(D, '''                try:
                    eqns[key] = EquationGroup(
                        path, interp_extrap_power=interp_extrap_power,
                        use_nearest_power=use_nearest_power,
                        interp_extrap_year=interp_extrap_year,
                        use_nearest_year=use_nearest_year)
                except Exception as e:
                    msg = ('Could not parse an EquationGroup from '
                           'file: "{}". Received the exception: {}'
                           .format(name, e))
                    logger.exception(msg)
                    raise RuntimeError(msg)
''', '''                eqns[key] = cls._load_group(
                    EquationGroup, path, name,
                    interp_extrap_power=interp_extrap_power,
                    use_nearest_power=use_nearest_power,
                    interp_extrap_year=interp_extrap_year,
                    use_nearest_year=use_nearest_year)
'''), (D, "    def head(self, n=5):", '''    @staticmethod
    def _load_group(group_cls, path, name, **kwargs):
        """load one file"""
        try:
            return group_cls(path, **kwargs)
        except Exception as e:
            msg = ('Could not parse an {} from file: "{}". Received the '
                   'exception: {}'.format(group_cls.__name__, name, e))
            logger.exception(msg)
            raise RuntimeError(msg)

    def head(self, n=5):''')]),
]
