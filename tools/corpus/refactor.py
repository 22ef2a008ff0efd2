"""Behaviour-preserving rewrites of whole functions, run against every check."""
G = 'NRWAL/handlers/groups.py'
E = 'NRWAL/handlers/equations.py'
C = 'NRWAL/handlers/config.py'
D = 'NRWAL/handlers/directories.py'
U = 'NRWAL/utilities/utilities.py'
ITEMS = []


def r(name, *edits):
    ITEMS.append(('*', name, 0, list(edits)))


r('R eqn preflight any', (E, 'def:Equation._preflight', '''
    def _preflight(self):
        text = str(self._eqn)
        bad = [substr for substr in self.ILLEGAL if substr in text]
        if bad:
            msg = ('Will not evaluate string which contains "{}": {}'
                   .format(bad[0], self._eqn))
            logger.error(msg)
            raise ValueError(msg)
        self.verify_no_self_reference()
    '''))
r('R eqn preflight helper', (E, 'def:Equation._preflight', '''
    @classmethod
    def _find_illegal(cls, text):
        """first illegal fragment or None"""
        return next((s for s in cls.ILLEGAL if s in text), None)

    def _preflight(self):
        substr = self._find_illegal(str(self._eqn))
        if substr is not None:
            msg = ('Will not evaluate string which contains "{}": {}'
                   .format(substr, self._eqn))
            logger.error(msg)
            raise ValueError(msg)
        self.verify_no_self_reference()
    '''))
r('R eqn check args split', (E, 'def:Equation._check_input_args', '''
    @staticmethod
    def _check_value_type(v):
        msg = ('Input data must be one of (int, float, np.ndarray, list, '
               'tuple), but received: {}'.format(type(v)))
        ok = (isinstance(v, (int, float, np.ndarray, list, tuple))
              or np.issubdtype(type(v), np.number))
        assert ok, msg

    @staticmethod
    def _to_float(v):
        if isinstance(v, np.ndarray):
            if np.issubdtype(v.dtype, np.integer):
                return v.astype(np.float32)
            return v
        if isinstance(v, int):
            return float(v)
        return v

    @staticmethod
    def _check_input_args(kwargs):
        assert isinstance(kwargs, dict), 'Equation inputs must be a dict!'
        for k in list(kwargs):
            v = kwargs[k]
            assert isinstance(k, str), \\
                'Input keys must be strings but received: {}'.format(k)
            Equation._check_value_type(v)
            kwargs[k] = Equation._to_float(v)
        return kwargs
    '''))
r('R eqn math wrapped helper', (E, 'def:Equation.__eqn_math', '''
    @classmethod
    def _bracket(cls, text, left):
        """put brackets around anything but a number or a name"""
        plain = cls.is_num(text) or cls.is_variable(text)
        if not plain or (left and text.lstrip().startswith('-')):
            return '({})'.format(text)
        return text

    def __eqn_math(self, other, operator):
        cls = self.__class__
        if not isinstance(other, Equation):
            other = cls(other)

        new_eqn = '{} {} {}'.format(self._bracket(self._eqn, True), operator,
                                    self._bracket(other._eqn, False))

        def_vars = {}
        def_vars.update(copy.deepcopy(self._default_variables))
        def_vars.update(other._default_variables)

        out = cls(new_eqn, default_variables=def_vars)
        out._str = '({} {} {})'.format(self, operator, other)
        return out
    '''))
r('R eqn math f-string', (E, 'def:Equation.__eqn_math', '''
    def __eqn_math(self, other, operator):
        cls = self.__class__
        if not isinstance(other, Equation):
            other = cls(other)

        arg1, arg2 = self._eqn, other._eqn
        negative = arg1.lstrip()[:1] == '-'
        if negative or not (self.is_num(arg1) or self.is_variable(arg1)):
            arg1 = f'({arg1})'
        if not (self.is_num(arg2) or self.is_variable(arg2)):
            arg2 = f'({arg2})'

        out = cls(f'{arg1} {operator} {arg2}',
                  default_variables={**self._default_variables,
                                     **other._default_variables})
        out._str = f'({self} {operator} {other})'
        return out
    '''))
r('R eqn str', (E, 'def:Equation.__str__', '''
    def _build_str(self):
        if self.is_num(self._eqn) and not any(self.variables):
            return str(self._eqn)
        free = ', '.join(v for v in self.variables
                         if v not in self.default_variables)
        kws = ['{}={}'.format(v, self.default_variables[v])
               for v in self.variables if v in self.default_variables]
        args = ', '.join(([free] if free else []) + kws)
        name = 'Equation' if self._base_name is None else self._base_name
        return '{}({})'.format(name, args)

    def __str__(self):
        if self._str is None:
            self._str = self._build_str()
        return self._str
    '''))
r('R eqn merge vars', (E, 'def:Equation._merge_vars', '''
    @staticmethod
    def _merge_vars(var_group, kwargs):
        out = {} if var_group is None else copy.deepcopy(var_group)
        for key, value in kwargs.items():
            out[key] = value
        return out
    '''))
r('R eqn is_num', (E, 'def:Equation.is_num', '''
    @staticmethod
    def is_num(s):
        try:
            float(str(s))
            return True
        except ValueError:
            return False
    '''))
r('R eqn is_variable', (E, 'def:Equation.is_variable', '''
    @classmethod
    def is_variable(cls, s):
        flags = '()[]{}+-/*^ <>=\\\\|&$@'
        return not cls.is_num(s) and not any(f in s for f in flags)
    '''))
r('R eqn parse_variables loop', (E, 'def:Equation.parse_variables', '''
    @classmethod
    def parse_variables(cls, expression):
        """Parse variable names from an expression string."""
        expression = re.sub(r'(?<![\\w.])(?:[0-9]+\\.?[0-9]*|\\.[0-9]+)'
                            r'[eE][-+]?[0-9]+(?!\\w)', '-1', str(expression))
        delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
        pattern = '|'.join(re.escape(d) for d in delimiters)

        variables = set()
        for sub in re.split(pattern, expression):
            name = sub.strip(',')
            if not name or cls.is_method(sub):
                continue
            if cls.is_variable(sub) and not cls.is_num(name):
                variables.add(name)
        return sorted(variables)
    '''))
r('R eqn is_equation', (E, 'def:Equation.is_equation', '''
    @classmethod
    def is_equation(cls, expression):
        if not isinstance(expression, (str, int, float)):
            return False
        if cls.is_num(expression):
            return True
        text = str(expression)
        return any(x in text for x in ('*', '/', '+', '-', '^'))
    '''))
r('R eqn evaluate split', (E, 'def:Equation.evaluate', '''
    def _missing_args(self, namespace):
        return [v for v in self.variables
                if not (v in globals() or v in namespace)]

    def evaluate(self, **kwargs):
        namespace = self._merge_vars(self._default_variables,
                                     self._check_input_args(kwargs))
        missing = self._missing_args(namespace)
        if missing:
            msg = ('Cannot evaluate "{}", missing the following input args: {}'
                   .format(self, missing))
            logger.error(msg)
            raise RuntimeError(msg)

        try:
            return eval(str(self._eqn), globals(), namespace)
        except Exception as e:
            msg = ('Could not evaluate NRWAL Equation {}, received error: {}'
                   .format(self, e))
            logger.exception(msg)
            raise RuntimeError(msg) from e
    '''))
r('R eqn init order', (E, 'def:Equation.__init__', '''
    def __init__(self, eqn, name=None, default_variables=None):
        self._str = None
        self._eqn = str(eqn)
        self._base_name = name
        if default_variables is None:
            self._default_variables = {}
        else:
            self._default_variables = copy.deepcopy(default_variables)
        self._preflight()
    '''))
r('R eqn replace', (E, 'def:Equation.replace_equation', '''
    def replace_equation(self, new_eqn):
        cls = type(self)
        out = cls(new_eqn, self._base_name, self._default_variables)
        return out
    '''))
r('R group init', (G, 'def:AbstractGroup.__init__', '''
    def __init__(self, group, name=None, interp_extrap_power=False,
                 use_nearest_power=False, interp_extrap_year=False,
                 use_nearest_year=False):
        self._interp_extrap_power = interp_extrap_power
        self._use_nearest_power = use_nearest_power
        self._interp_extrap_year = interp_extrap_year
        self._use_nearest_year = use_nearest_year
        self._default_variables = {}

        if isinstance(group, str):
            self._dir_name, self._base_name = os.path.split(group)
        else:
            self._dir_name, self._base_name = None, name

        self._group = self._parse_group(group)
    '''))
r('R group flags property', (G, 'def:AbstractGroup.__add__', '''
    @property
    def _flags(self):
        return {'interp_extrap_power': self._interp_extrap_power,
                'use_nearest_power': self._use_nearest_power,
                'interp_extrap_year': self._interp_extrap_year,
                'use_nearest_year': self._use_nearest_year}

    def __add__(self, other):
        if isinstance(other, (str, dict)):
            other = self.__class__(other, **self._flags)

        out = copy.deepcopy(self)
        out._group.update(copy.deepcopy(other._group))
        out.set_default_variables(other._default_variables)
        return out
    '''), (G, '''                cls = self.__class__
                group[k] = cls(
                    v, name=k, interp_extrap_power=self._interp_extrap_power,
                    use_nearest_power=self._use_nearest_power,
                    interp_extrap_year=self._interp_extrap_year,
                    use_nearest_year=self._use_nearest_year)
''', '''                group[k] = self.__class__(v, name=k, **self._flags)
'''))
r('R group math', (G, 'def:AbstractGroup._getitem_math', '''
    OPERATORS = (('+', operator.add), ('-', operator.sub),
                 ('*', operator.mul), ('/', operator.truediv),
                 ('^', operator.pow))

    @staticmethod
    def _resolve_operand(obj, key, workspace):
        out = workspace.get(key, None)
        if out is None:
            out = obj._getitem(key, workspace)
        return out

    @staticmethod
    def _getitem_math(obj, key, workspace):
        key = key.replace('**', '^').strip()
        if any(c in key for c in '[]{}'):
            msg = ('Cannot parse EquationGroup key with square or curly '
                   'brackets: {}'.format(key))
            logger.error(msg)
            raise ValueError(msg)

        while '(' in key:
            start_loc, end_loc = find_parens(key)[0]
            wkey = 'workspace_{}'.format(1 + len(workspace))
            assert wkey not in workspace
            pk = key[start_loc:end_loc]
            key = key.replace(pk, wkey)
            pk = pk.lstrip('(').rstrip(')').strip()
            workspace[wkey] = AbstractGroup._resolve_operand(obj, pk, workspace)

        if key in workspace:
            return workspace[key]

        for op_str, op_fun in AbstractGroup.OPERATORS:
            if op_str not in key:
                continue
            if op_str in ('-', '/'):
                k1, _, k2 = key.rpartition(op_str)
            else:
                k1, _, k2 = key.partition(op_str)
            out1 = AbstractGroup._resolve_operand(obj, k1.strip(), workspace)
            out2 = AbstractGroup._resolve_operand(obj, k2.strip(), workspace)
            return op_fun(out1, out2)

        msg = 'Could not parse equation key: "{}"'.format(key)
        logger.error(msg)
        raise KeyError(msg)
    '''))
r('R group getitem', (G, 'def:AbstractGroup._getitem', '''
    def _should_interp(self, eqn_key, nn_eqns):
        if len(nn_eqns) < 2:
            return False
        if self._interp_extrap_power and self.is_power_eqn(eqn_key):
            return True
        return bool(self._interp_extrap_year and self.is_year_eqn(eqn_key))

    @staticmethod
    def _interp(value, nn_values, nn_eqns):
        x1, x3 = nn_values[0:2]
        y1, y3 = nn_eqns[0:2]
        out = (y3 - y1) * (value - x1) / (x3 - x1) + y1
        if not any(out.variables):
            out = Equation(out.eval())
        return out

    def _getitem(self, key, workspace):
        workspace = {} if workspace is None else workspace

        for op in ('+', '-', '*', '/', '^'):
            if op in key:
                return self._getitem_math(self, key, workspace)

        if key not in self and Equation.is_num(key):
            return Equation(key)

        keys = str(key).split('::')
        out = self._group
        for i, eqn_key in enumerate(keys):
            nn_eqns, nn_values, eqn_value = self._get_nn_eqns_values(
                eqn_key, keys[i:], out)

            if eqn_key in out:
                out = out[eqn_key]
            elif self._should_interp(eqn_key, nn_eqns):
                out = self._interp(eqn_value, nn_values, nn_eqns)
            elif any(nn_eqns):
                out = nn_eqns[0]
            else:
                msg = ('Could not retrieve equation key "{}", could not find '
                       '"{}" in last available keys: {}'
                       .format(key, eqn_key, list(out.keys())))
                logger.error(msg)
                raise KeyError(msg)
        return out
    '''))
r('R group nn early return', (G, 'def:AbstractGroup._get_nn_eqns_values', '''
    def _get_nn_eqns_values(self, eqn_key, keys, group):
        if keys.index(eqn_key) != len(keys) - 1:
            return [], [], None

        use_power = self._interp_extrap_power or self._use_nearest_power
        use_year = self._interp_extrap_year or self._use_nearest_year
        if use_power and self.is_power_eqn(eqn_key):
            eqns, values = self.find_nearest_power_eqns(eqn_key, group=group)
            return eqns, values, self._parse_power(eqn_key)[0]
        if use_year and self.is_year_eqn(eqn_key):
            eqns, values = self.find_nearest_year_eqns(eqn_key, group=group)
            return eqns, values, self._parse_year(eqn_key)[0]
        return [], [], None
    '''))
r('R group nearest shared', (G, 'def:AbstractGroup.find_nearest_power_eqns', '''
    @staticmethod
    def _find_nearest(request, group, parse):
        keys = []
        values = []
        req, base_str = parse(request)
        if req is not None:
            for key in group.keys():
                match, match_base = parse(key)
                if match is not None and base_str == match_base:
                    keys.append(key)
                    values.append(match)
            if any(keys):
                indices = np.argsort(np.abs(req - np.array(values)))
                keys = list(np.array(keys)[indices])
                values = list(np.array(values)[indices])
        return [group[k] for k in keys], values

    def find_nearest_power_eqns(self, request, group=None):
        group = self._group if group is None else group
        return self._find_nearest(request, group, self._parse_power)
    '''), (G, 'def:AbstractGroup.find_nearest_year_eqns', '''
    def find_nearest_year_eqns(self, request, group=None):
        group = self._group if group is None else group
        return self._find_nearest(request, group, self._parse_year)
    '''))
r('R group nearest sorted', (G, 'def:AbstractGroup.find_nearest_year_eqns', '''
    def find_nearest_year_eqns(self, request, group=None):
        if group is None:
            group = self._group
        req_yr, base_str = self._parse_year(request)
        found = []
        if req_yr:
            for key in group.keys():
                year, base = self._parse_year(key)
                if year and base == base_str:
                    found.append((year, key))
            found = sorted(found, key=lambda x: abs(req_yr - x[0]))
        return [group[k] for _, k in found], [y for y, _ in found]
    '''))
r('R group parse helper', (G, 'def:AbstractGroup._parse_group', '''
    @staticmethod
    def _load_file(path):
        """Load a yaml or json file"""
        if not os.path.exists(path):
            msg = 'Cannot find equation file path: {}'.format(path)
            logger.error(msg)
            raise FileNotFoundError(msg)

        if path.endswith('.json'):
            loader = json.load
        elif path.endswith(('.yml', '.yaml')):
            loader = yaml.safe_load
        else:
            msg = ('Cannot load file path, must be json or yaml: {}'
                   .format(path))
            logger.error(msg)
            raise ValueError(msg)

        with open(path) as f:
            return loader(f)

    @staticmethod
    def _parse_group(group):
        if isinstance(group, str):
            group = AbstractGroup._load_file(group)

        if not isinstance(group, dict):
            msg = 'Cannot use group of type: {}'.format(type(group))
            logger.error(msg)
            raise TypeError(msg)

        out = {}
        for k, v in group.items():
            out[str(k)] = v
        return out
    '''))
r('R group eqn parse split', (G, 'def:EquationGroup._parse_group', '''
    def _parse_group(self, group):
        group = super()._parse_group(group)
        for k, v in sorted(group.items()):
            group[k] = self._parse_entry(k, v)
        self._insert_equations(group)
        return group

    def _parse_entry(self, k, v):
        if Equation.is_num(k):
            msg = ('You cannot use numbers as keys in group "{}"'
                   .format(self._base_name))
            logger.error(msg)
            raise ValueError(msg)

        if isinstance(v, dict):
            return self.__class__(
                v, name=k, interp_extrap_power=self._interp_extrap_power,
                use_nearest_power=self._use_nearest_power,
                interp_extrap_year=self._interp_extrap_year,
                use_nearest_year=self._use_nearest_year)

        if not isinstance(v, (str, int, float)):
            msg = ('Cannot use equation group value that is not a '
                   'string, float, int, or dictionary: {} ({})'
                   .format(v, type(v)))
            logger.error(msg)
            raise TypeError(msg)

        return Equation(v, name=k)

    @staticmethod
    def _insert_equations(group):
        working = True
        while working:
            working = False
            for group_key, eqn in group.items():
                if isinstance(eqn, Equation):
                    refs = [v for v in eqn.variables if v in group]
                    for var in refs:
                        repl_str = '({})'.format(group[var].full)
                        pattern = r'(?<![\\w.]){}(?!\\w)'.format(re.escape(var))
                        new_eqn = re.sub(pattern, lambda _: repl_str, eqn.full)
                        eqn = eqn.replace_equation(new_eqn)
                        group[group_key] = eqn
                    working = working or bool(refs)
    '''))
r('R group defaults', (G, 'def:AbstractGroup.set_default_variables', '''
    def set_default_variables(self, var_dict):
        if var_dict is None:
            return
        self._default_variables.update(copy.deepcopy(var_dict))
        for _, v in self.items():
            v.set_default_variables(var_dict)
    '''))
r('R group all_equations', (G, 'def:AbstractGroup._r_all_equations', '''
    @classmethod
    def _r_all_equations(cls, obj):
        eqns = []
        for v in obj.values():
            if isinstance(v, (int, float, str)):
                continue
            eqns.extend([v] if isinstance(v, Equation)
                        else cls._r_all_equations(v))
        return eqns
    '''))
r('R dir init', (D, 'def:EquationDirectory.__init__', '''
    def __init__(self, eqn_dir, interp_extrap_power=False,
                 use_nearest_power=False, interp_extrap_year=False,
                 use_nearest_year=False):
        flags = {'interp_extrap_power': interp_extrap_power,
                 'use_nearest_power': use_nearest_power,
                 'interp_extrap_year': interp_extrap_year,
                 'use_nearest_year': use_nearest_year}
        self._interp_extrap_power = interp_extrap_power
        self._use_nearest_power = use_nearest_power
        self._interp_extrap_year = interp_extrap_year
        self._use_nearest_year = use_nearest_year

        path = os.path.abspath(eqn_dir)
        self._dir_name = os.path.dirname(path)
        self._base_name = os.path.basename(path)
        self._default_variables = dict()
        self._eqns = self._parse_eqn_dir(eqn_dir, **flags)
        self.set_default_variables()
    '''))
r('R dir parse', (D, 'def:EquationDirectory._parse_eqn_dir', '''
    @staticmethod
    def _load_group(group_class, path, name, **flags):
        try:
            return group_class(path, **flags)
        except Exception as e:
            msg = ('Could not parse an {} from file: "{}". '
                   'Received the exception: {}'
                   .format(group_class.__name__, name, e))
            logger.exception(msg)
            raise RuntimeError(msg)

    @classmethod
    def _parse_eqn_dir(cls, eqn_dir, **flags):
        eqns = {}
        for name in sorted(os.listdir(eqn_dir)):
            path = os.path.join(eqn_dir, name)
            key, ext = os.path.splitext(name)
            hidden = name.startswith(('.', '__'))

            if os.path.isdir(path):
                if hidden:
                    pass
                else:
                    obj = cls(path, **flags)
                    if any(obj.keys()):
                        eqns[name] = obj
                    continue

            if not name.endswith(('.json', '.yml', '.yaml')):
                continue
            if key == 'variables':
                eqns[key] = cls._load_group(VariableGroup, path, name, **flags)
            elif not hidden:
                eqns[key] = cls._load_group(EquationGroup, path, name, **flags)
        return eqns
    '''))
r('R dir getitem', (D, 'def:EquationDirectory._getitem', '''
    @staticmethod
    def _strip_ext(key):
        key = str(key)
        if key.endswith(('.json', '.yml', '.yaml')):
            key = os.path.splitext(key)[0]
        return key

    def _getitem(self, key, workspace):
        if workspace is None:
            workspace = {}
        if any(op in key for op in '+-*/^'):
            return EquationGroup._getitem_math(self, key, workspace)
        if Equation.is_num(key) and key not in self:
            return Equation(key)

        eqns = self._eqns
        for ikey in map(self._strip_ext, str(key).split('::')):
            try:
                eqns = eqns[ikey]
            except KeyError:
                msg = ('Could not retrieve equation key "{}", '
                       'could not find "{}" in last available keys: {}'
                       .format(key, ikey, list(eqns.keys())))
                logger.debug(msg)
                raise KeyError(msg)
        return eqns
    '''))
r('R dir defaults', (D, 'def:EquationDirectory.set_default_variables', '''
    def set_default_variables(self, var_group=None, force_update=False):
        new_vars = copy.deepcopy(var_group) if var_group is not None else {}
        own = self.get('variables', None) if 'variables' in self else None
        if own is not None and not force_update:
            assert isinstance(own, VariableGroup)
            new_vars.update(own.var_dict)

        self._default_variables.update(copy.deepcopy(new_vars))

        for child in self.values():
            if isinstance(child, (EquationGroup, Equation)):
                child.set_default_variables(new_vars)
            elif isinstance(child, EquationDirectory):
                child.set_default_variables(new_vars,
                                            force_update=force_update)
    '''))
r('R cfg init', (C, 'def:NrwalConfig.__init__', '''
    def __init__(self, config, inputs=None, interp_extrap_power=False,
                 use_nearest_power=False, interp_extrap_year=False,
                 use_nearest_year=False):
        self._inputs, self._outputs = {}, {}
        self._config, self._global_variables = {}, {}
        self.inputs = inputs

        config, eqn_dir = self._load_config(config)
        flags = self._pop_flags(config,
                                use_nearest_year=use_nearest_year,
                                use_nearest_power=use_nearest_power,
                                interp_extrap_year=interp_extrap_year,
                                interp_extrap_power=interp_extrap_power)
        self._eqn_dir = EquationDirectory(eqn_dir, **flags)
        self._global_variables = self._parse_global_variables(config)
        self._raw_config = copy.deepcopy(config)

        for name in config:
            self._check_circ_ref(name, config[name], config)

        self._config = self._parse_config(config, self._eqn_dir,
                                          self._global_variables)

        for k, v in self._config.items():
            if isinstance(v, Equation) and not v.variables:
                self._global_variables[k] = v.eval()

    @staticmethod
    def _pop_flags(config, **flags):
        for key in flags:
            if key in config:
                flags[key] = bool(config.pop(key))
        return flags
    '''))
r('R cfg load', (C, 'def:NrwalConfig._load_config', '''
    @staticmethod
    def _read_config_file(path):
        if not os.path.exists(path):
            msg = 'Cannot find config file path: {}'.format(path)
            logger.error(msg)
            raise FileNotFoundError(msg)

        if path.endswith('.json'):
            with open(path, 'r') as f:
                return json.load(f)
        if path.endswith(('.yml', '.yaml')):
            with open(path, 'r') as f:
                return yaml.safe_load(f)

        msg = 'Cannot load file path, must be json or yaml: {}'.format(path)
        logger.error(msg)
        raise ValueError(msg)

    @classmethod
    def _resolve_pointer(cls, value, config_dir):
        msg = ('Cannot do a config pointer without the original '
               'config being input from a filepath.')
        assert config_dir is not None, msg
        msg = ('Config pointer to other config must be of the format '
               '"./other_config.yaml::retrieval_key" but received: {}'
               .format(value))
        assert value.count('::') == 1, msg
        msg = 'Config pointer cannot include equations: {}'.format(value)
        assert not any(x in value for x in ('*', '+', '(', ')')), msg

        fp_other, _, other_key = value.partition('::')
        fp_other = os.path.join(config_dir, fp_other)
        msg = 'Config pointer file not found: {}'.format(fp_other)
        assert os.path.exists(fp_other), msg
        other, _ = cls._load_config(fp_other)
        return other[other_key]

    @classmethod
    def _load_config(cls, config):
        config_dir = None
        if isinstance(config, str):
            config_dir = os.path.dirname(os.path.abspath(config))
            config = cls._read_config_file(config)

        if not isinstance(config, dict):
            msg = 'Cannot use config of type: {}'.format(type(config))
            logger.error(msg)
            raise TypeError(msg)

        config = copy.deepcopy(config)
        if 'equation_directory' not in config:
            logger.info('NrwalConfig using default "equation_directory": {}'
                        .format(cls.DEFAULT_DIR))
        eqn_dir = config.pop('equation_directory', cls.DEFAULT_DIR)

        for key, value in config.items():
            if any(m in str(value) for m in ('.json', '.yaml', '.yml')):
                config[key] = cls._resolve_pointer(value, config_dir)

        return config, eqn_dir
    '''))
r('R cfg gvars comp', (C, 'def:NrwalConfig._parse_global_variables', '''
    @staticmethod
    def _parse_global_variables(config):
        return {k: float(v) for k, v in config.items() if Equation.is_num(v)}
    '''))
r('R cfg circ', (C, 'def:NrwalConfig._check_circ_ref', '''
    @classmethod
    def _check_circ_ref(cls, orig_name, expression, config, current_name=None,
                        msg=None):
        current_name = orig_name if current_name is None else current_name
        if msg is None:
            msg = ('Found a circular reference with NRWAL equations: {}'
                   .format(orig_name))
        else:
            msg = '{} -> {}'.format(msg, current_name)

        names = Equation.parse_variables(expression)
        if orig_name in names:
            msg = ('{}, and ending with expression "{}": {}'
                   .format(msg, current_name, expression))
            logger.error(msg)
            raise RuntimeError(msg)

        for name in filter(lambda n: n in config, names):
            cls._check_circ_ref(orig_name, config[name], config,
                                current_name=name, msg=msg)
    '''))
r('R cfg parse config', (C, 'def:NrwalConfig._parse_config', '''
    @staticmethod
    def _check_entry(name, expression):
        if Equation.is_num(name):
            msg = ('You cannot use numbers as keys in config: "{}"'
                   .format(name))
            logger.error(msg)
            raise ValueError(msg)

        msg = None
        if isinstance(expression, list):
            msg = ('Cannot parse list object for "{0}". Try setting as a '
                   'numpy array like this: {0}: np.array({1})'
                   .format(name, expression))
        elif not isinstance(expression, (int, float, str)):
            msg = ('Cannot parse NrwalConfig expression for "{}", must be '
                   'one of (int, float, str) but received type "{}": {}'
                   .format(name, type(expression), expression))
        if msg is not None:
            logger.error(msg)
            raise TypeError(msg)

    @classmethod
    def _parse_config(cls, config, eqn_dir, gvars):
        out = {}
        for name, expression in config.items():
            cls._check_entry(name, expression)
            eqn = cls._parse_expression(expression, config, eqn_dir,
                                        copy.deepcopy(gvars), name=name)
            out[name] = eqn
            config[name] = copy.deepcopy(eqn)
        return out
    '''))
r('R cfg parse expression', (C, 'def:NrwalConfig._parse_expression', '''
    @staticmethod
    def _from_library(expression, eqn_dir):
        try:
            return eqn_dir[expression]
        except KeyError:
            return Equation(expression)

    @classmethod
    def _parse_expression(cls, expression, config, eqn_dir, gvars, name=None):
        if isinstance(expression, (Equation, EquationGroup)):
            out = expression
        elif Equation.is_num(expression):
            out = Equation(expression, name=name)
        elif Equation.is_equation(expression):
            out = cls._parse_equation(expression, config, eqn_dir, gvars,
                                      name=name)
        elif expression in config:
            out = cls._parse_expression(config[expression], config, eqn_dir,
                                        gvars, name=name)
        else:
            config_key, sep, sub_key = expression.partition('::')
            if sep and config_key in config:
                out = cls._parse_expression(config_key, config, eqn_dir,
                                            gvars, name=name)[sub_key]
            else:
                out = cls._from_library(expression, eqn_dir)

        if isinstance(out, EquationDirectory):
            out.set_default_variables(gvars, force_update=True)
        elif isinstance(out, (Equation, EquationGroup)):
            if isinstance(out, Equation) and name is not None:
                out._base_name = name
                out._str = None
            out.set_default_variables(gvars)
        return out
    '''))
r('R cfg parse equation', (C, 'def:NrwalConfig._parse_equation', '''
    OPS = OrderedDict([('+', operator.add), ('-', operator.sub),
                       ('*', operator.mul), ('/', operator.truediv),
                       ('^', operator.pow)])

    @classmethod
    def _operator_locs(cls, expr, ops):
        locs = []
        for i, c in enumerate(expr):
            if c != ops or re.search(r'(?<!\\w)[0-9.]+[eE]$', expr[:i]):
                continue
            before = expr[:i].strip()
            if ops == '-' and (not before or before[-1] in cls.OPS):
                continue
            locs.append(i)
        return locs

    @classmethod
    def _parse_equation(cls, expression, config, eqn_dir, gvars, name=None):
        assert Equation.is_equation(expression)

        if any(c in expression for c in ('[', ']', '{', '}')):
            msg = ('Cannot parse config expression with square or '
                   'curly brackets: {}'.format(expression))
            logger.error(msg)
            raise ValueError(msg)

        while '(' in expression:
            start_loc, end_loc = find_np_pd_methods(expression)
            if start_loc is None:
                start_loc, end_loc = find_parens(expression)[0]
            wkey = 'workspace_{}'.format(1 + len(gvars))
            assert wkey not in gvars
            pk = expression[start_loc:end_loc]
            expression = expression.replace(pk, wkey)
            if not ('np.' in pk or 'pd.' in pk):
                pk = pk.lstrip('(').rstrip(')').strip()
            gvars[wkey] = cls._parse_expression(gvars.get(pk, pk), config,
                                                eqn_dir, gvars, name=name)

        if expression in gvars:
            return gvars[expression]

        expr = expression.replace('**', '^').strip()
        for ops, fun in cls.OPS.items():
            if ops not in expr:
                continue
            iops = cls._operator_locs(expr, ops)
            if iops:
                iop = iops[-1] if ops in ('-', '/') else iops[0]
                out1 = cls._parse_expression_part(expr[:iop].strip(), config,
                                                  eqn_dir, gvars)
                out2 = cls._parse_expression_part(expr[iop + 1:].strip(),
                                                  config, eqn_dir, gvars)
                return fun(out1, out2)
            if expr[0] == ops:
                out = cls._parse_expression_part(expr[1:], config, eqn_dir,
                                                 gvars)
                return Equation(-1) * out

        msg = 'Failed to parse expression: {}'.format(expr)
        logger.error(msg)
        raise RuntimeError(msg)
    '''))
r('R cfg part', (C, 'def:NrwalConfig._parse_expression_part', '''
    @classmethod
    def _parse_expression_part(cls, expr_part, config, eqn_dir, gvars):
        if gvars.get(expr_part) is None:
            return cls._parse_expression(expr_part, config, eqn_dir, gvars,
                                         name=expr_part)
        out = gvars[expr_part]
        return Equation(out, name=expr_part) if Equation.is_num(out) else out
    '''))
r('R cfg inputs', (C, 'def:NrwalConfig.inputs@setter', '''
    @inputs.setter
    def inputs(self, arg):
        if arg is None:
            self._inputs = {}
        elif isinstance(arg, dict):
            for k, v in arg.items():
                self._inputs[k] = self._convert_input(v)
        elif isinstance(arg, pd.DataFrame):
            for k in arg.columns.values:
                self._inputs[k] = self._convert_input(arg[k].values.flatten())
        else:
            msg = ('Cannot set inputs as datatype "{}". '
                   'Requires a dict or DataFrame.'.format(type(arg)))
            logger.error(msg)
            raise TypeError(msg)
        Equation._check_input_args(self._inputs)

    @staticmethod
    def _convert_input(v):
        if isinstance(v, np.ndarray):
            return v.astype(np.float32) if Equation.is_num(v[0]) else v
        return float(v) if isinstance(v, int) else v
    '''))
r('R cfg required', (C, 'def:NrwalConfig.required_inputs', '''
    @property
    def required_inputs(self):
        names = set()
        for eqn in self.values():
            if not isinstance(eqn, Equation):
                continue
            for v in eqn.variables:
                known = (v in self.global_variables or v in self._config
                         or v in eqn.default_variables)
                if not known:
                    names.add(v)
        return sorted(names)
    '''), (C, 'def:NrwalConfig.missing_inputs', '''
    @property
    def missing_inputs(self):
        available = set(self.global_variables) | set(self.inputs)
        return [x for x in self.required_inputs if x not in available]
    '''))
r('R cfg to be solved', (C, 'def:NrwalConfig.to_be_solved', '''
    @property
    def to_be_solved(self):
        out = []
        for k, v in self._config.items():
            if not isinstance(v, Equation):
                continue
            if k in self._outputs or k in self.global_variables:
                continue
            out.append(k)
        return out
    '''))
r('R cfg getitem', (C, 'def:NrwalConfig.__getitem__', '''
    def __getitem__(self, key):
        return self._outputs[key] if key in self._outputs else self._config[key]
    '''))
r('R util parens', (U, 'def:find_parens', '''
def find_parens(s):
    msg = 'Unbalanced parenthesis in: {}'.format(s)
    assert s.count('(') == s.count(')'), msg

    out = []
    stack = []
    for i in range(len(s)):
        if s[i] == '(':
            stack.append(i)
        if s[i] == ')':
            out.append([stack.pop(), i + 1])
    assert len(stack) == 0
    return out
    '''))
r('R util np methods', (U, 'def:find_np_pd_methods', '''
def find_np_pd_methods(s):
    if 'np.' in s:
        start = s.index('np.')
    elif 'pd.' in s:
        start = s.index('pd.')
    else:
        return None, None
    after = [x for x in find_parens(s) if x[0] > start]
    first = min(after, key=lambda x: x[0])
    return start, first[1]
    '''))
r('R cfg evaluate split', (C, 'def:NrwalConfig.evaluate', '''
    def _evaluate_entry(self, k, v):
        kwargs = {**copy.deepcopy(self.global_variables), **self.inputs,
                  **self._outputs}
        try:
            return v.evaluate(**kwargs)
        except Exception as e:
            for var_name in v.variables:
                input_val = kwargs.get(var_name,
                                       v.default_variables.get(var_name))
                logger.info('NRWAL input "{}": {} {}'
                            .format(var_name, input_val, type(input_val)))
            msg = ('Could not evaluate NRWAL equation: {}, '
                   'received exception: {}'.format(v, e))
            logger.exception(msg)
            raise RuntimeError(msg) from e

    def evaluate(self, inputs=None):
        if inputs is not None:
            self.inputs = inputs

        missing = self.missing_inputs
        if missing:
            msg = ('Cannot evaluate NrwalConfig, missing the following input '
                   'args: {}'.format(missing))
            logger.error(msg)
            raise RuntimeError(msg)

        self.reset_output()

        i = 0
        while not self.solved:
            for k, v in self.items():
                if isinstance(v, (EquationGroup, EquationDirectory, dict)):
                    continue
                if Equation.is_num(v):
                    continue
                if not isinstance(v, Equation):
                    msg = ('Cannot evaluate "{}" with unexpected type: {}'
                           .format(k, type(v)))
                    logger.error(msg)
                    raise TypeError(msg)
                self._outputs[k] = self._evaluate_entry(k, v)

            i += 1
            if i > 100:
                msg = ('NRWAL compute failed! The following config keys were '
                       'never solved: {}'.format(self.to_be_solved))
                logger.error(msg)
                raise RuntimeError(msg)

        return self.outputs
    '''))
r('R cfg evaluate for', (C, '''        i = 0
        while not self.solved:
''', '''        for _ in range(101):
            if self.solved:
                break
'''), (C, '''            i += 1
            if i > 100:
                msg = (''', '''        else:
            if not self.solved:
                msg = ('''))
r('R logger f-strings', (E, "            msg = ('Could not evaluate NRWAL Equation {}, received error: {}'\n                   .format(self, e))\n", "            msg = f'Could not evaluate NRWAL Equation {self}, received error: {e}'\n"))
r('R alias imports', (C, 'import copy\n', 'from copy import deepcopy\n'), (C, 'copy.deepcopy(', 'deepcopy('))
r('R alias imports G', (G, 'import copy\n', 'from copy import deepcopy\n'), (G, 'copy.deepcopy(', 'deepcopy('))
r('R alias imports E', (E, 'import copy\n', 'from copy import deepcopy as dc\n'), (E, 'copy.deepcopy(', 'dc('))
r('R alias imports D', (D, 'import copy\nimport os\n', 'from copy import deepcopy\nfrom os import listdir, path as osp\n'), (D, 'copy.deepcopy(', 'deepcopy('), (D, 'os.path.', 'osp.'), (D, 'os.listdir', 'listdir'))
r('R rename attrs E', (E, '_default_variables', '_defaults'), (E, 'set_defaults', 'set_default_variables'), (E, 'self._eqn', 'self._text'), (E, 'other._eqn', 'other._text'))
r('R rename attrs C', (C, 'self._raw_config', 'self._raw_entries'), (C, 'self._config', 'self._entries'), (C, 'self._outputs', 'self._results'))
