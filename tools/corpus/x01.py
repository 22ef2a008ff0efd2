E = 'NRWAL/handlers/equations.py'
G = 'NRWAL/handlers/groups.py'
D = 'NRWAL/handlers/directories.py'
C = 'NRWAL/handlers/config.py'
U = 'NRWAL/utilities/utilities.py'
ITEMS = []


def b(prop, name, *edits, expect=1):
    ITEMS.append((prop, name, expect, list(edits)))


b('C07', 'exponent test takes any e', (C, "r'(?<!\\w)[0-9.]+[eE]$'", "r'[eE]$'"))
b('C07', 'exponent test any word', (C, "r'(?<!\\w)[0-9.]+[eE]$'", "r'[0-9.]+[eE]$'"))
b('C07', 'first division', (C, "iops[-1] if ops in ('-', '/') else iops[0]", "iops[-1] if ops == '-' else iops[0]"))
b('C07', 'retrieval division', (G, "if op_str in ('-', '/'):", "if op_str == '-':"))
b('C07', 'retrieval subtraction', (G, "if op_str in ('-', '/'):", "if op_str in ('/',):"))
b('C07', 'power last', (C, "iops[-1] if ops in ('-', '/') else iops[0]", "iops[-1] if ops in ('-', '/', '^') else iops[0]"))
b('C07', 'unparsed is input', (C, "            msg = 'Failed to parse expression: {}'.format(expr)\n            logger.error(msg)\n            raise RuntimeError(msg)\n", "            out = Equation(expr)\n"), expect=0)
b('C07', 'negation dropped for numbers', (C, "out = Equation(-1) * out", "out = out if Equation.is_num(out.full) else Equation(-1) * out"))
b('C07', 'operands by length', (C, "out = fun(out1, out2)", "out = fun(out2, out1) if ops in ('*', '^') and len(v2) < len(v1) else fun(out1, out2)"))
b('C07', 'retrieval swap after workspace', (G, "return op_fun(out1, out2)", "return op_fun(out2, out1) if k2 in workspace and k1 not in workspace else op_fun(out1, out2)"))
b('C07', 'division before multiplication', (C, "        op_map['*'] = operator.mul\n        op_map['/'] = operator.truediv\n", "        op_map['/'] = operator.truediv\n        op_map['*'] = operator.mul\n"))
b('C07', 'retrieval division first', (G, "        op_map['*'] = operator.mul\n        op_map['/'] = operator.truediv\n", "        op_map['/'] = operator.truediv\n        op_map['*'] = operator.mul\n"))
b('C07', 'plus after minus', (C, "        op_map['+'] = operator.add\n        op_map['-'] = operator.sub\n", "        op_map['-'] = operator.sub\n        op_map['+'] = operator.add\n"))
b('C07', 'floordiv', (C, "operator.truediv", "operator.floordiv"))
b('C07', 'workspace only once', (G, "            key = key.replace(pk, wkey)\n", "            key = key.replace(pk, wkey, 1) if pk not in workspace else key.replace(pk, '', 1)\n"), expect=0)
b('C07', 'outer brackets', (G, "find_parens(key)[0]", "find_parens(key)[-1]"))
b('C07', 'outer brackets config', (C, "find_parens(expression)[0]", "find_parens(expression)[-1]"))
b('C07', 'falsy operand', (C, "        out = gvars.get(expr_part, None)\n        if out is None:", "        out = gvars.get(expr_part, None)\n        if not out:"), expect=0)
b('C05', 'constants rounded', (C, "gvars[k] = float(v)", "gvars[k] = round(float(v), 6)"))
b('C05', 'constants float32', (C, "gvars[k] = float(v)", "gvars[k] = float(np.float32(v))"))
b('C05', 'float16', (C, "v = v.astype(np.float32)", "v = v.astype(np.float16)"))
b('C05', 'int inputs', (C, "v = v.astype(np.float32)", "v = v.astype(np.int32)"))
b('C05', 'frame first column', (C, "v = arg[k].values.flatten()", "v = arg[keys[0]].values.flatten()"))
b('C05', 'unique', (C, "v = arg[k].values.flatten()", "v = arg[k].dropna().values.flatten()"))
b('C05', 'defaults only used', (E, "        if var_dict is not None:\n            self._default_variables.update(copy.deepcopy(var_dict))\n", "        if var_dict is not None:\n            self._default_variables.update(copy.deepcopy({k: v for k, v in var_dict.items() if v}))\n"))
b('C13', 'break at 100', (C, "                logger.error(msg)\n                raise RuntimeError(msg)\n\n        return self._outputs", "                logger.error(msg)\n                break\n\n        return self._outputs"), expect=0)
b('C13', 'if instead of while', (C, "        while not self.solved:\n", "        for _ in range(1 if self.inputs else 0):\n"))
b('C13', 'inputs count as solved', (C, "                and k not in self.global_variables\n", "                and k not in self.global_variables\n                and k not in self._inputs\n"))
b('C13', 'outputs for inputs', (C, "                    kwargs.update(self._outputs)\n", "                    kwargs.update(self._outputs)\n                    if k in kwargs:\n                        self._outputs[k] = kwargs[k]\n                        continue\n"))
b('C21', 'pointer default', (C, "cls._load_config(fp_other)[0][other_key]", "cls._load_config(fp_other)[0].get(other_key, 0)"))
b('C10', 'config get wide', (C, "        try:\n            return self[key]\n        except KeyError:", "        try:\n            return self[key]\n        except Exception:"))
b('C10', 'continue after failure', (C, "                        logger.exception(msg)\n                        raise RuntimeError(msg) from e\n", "                        logger.exception(msg)\n                        self._outputs[k] = None\n"))
b('C17', 'empty file', (G, "                    group = yaml.safe_load(f)\n", "                    group = yaml.safe_load(f) or {}\n"))
b('C10', 'is_num wide', (E, "        except ValueError:\n            return False", "        except Exception:\n            return False"), expect=0)
b('C10', 'warn and skip file', (D, "                    logger.exception(msg)\n                    raise RuntimeError(msg)\n", "                    logger.exception(msg)\n                    if name.startswith('_'):\n                        continue\n                    raise RuntimeError(msg)\n"))
b('C10', 'errors of eval by type', (E, "            raise RuntimeError(msg) from e", "            if isinstance(e, FloatingPointError):\n                return np.nan\n            raise RuntimeError(msg) from e"))
b('C17', 'bool str flag', (C, "isinstance(expression, (int, float, str))", "isinstance(expression, (int, float, str, bytes))"))
b('C17', 'inputs set', (E, "np.ndarray, list, tuple))", "np.ndarray, list, tuple, set))"))
b('C11', 'numpy names', (E, "v not in globals()", "v not in dir(np)"))
b('C11', 'builtins', (E, "v not in globals()", "v not in dir(__builtins__)"), expect=0)
b('C11', 'missing any string', (C, "                 and x not in self.inputs]", "                 and x.lower() not in [i.lower() for i in self.inputs]]"))
b('C11', 'required only operators', (C, "            if isinstance(eqn, Equation):\n                names += [v for v in eqn.variables\n", "            if isinstance(eqn, Equation) and Equation.is_equation(eqn.full):\n                names += [v for v in eqn.variables\n"))
b('C06', 'number formatted', (E, "            other = cls(other)\n", "            other = cls('{:g}'.format(other) if isinstance(other, float) else other)\n"))
b('C06', 'right minus', (E, "        if not self.is_num(arg2) and not self.is_variable(arg2):\n", "        if not self.is_num(arg2) and not self.is_variable(arg2) and not arg2.startswith('('):\n"))
b('C06', 'same operator no brackets', (E, "        if not self.is_num(arg2) and not self.is_variable(arg2):\n", "        if (not self.is_num(arg2) and not self.is_variable(arg2)\n                and not (operator in ('*', '/') and '+' not in arg2 and '-' not in arg2)):\n"))
b('C08', 'power int', (G, "            power = float(power.group(0).upper().replace('MW', '').lstrip('_'))\n", "            power = float(power.group(0).upper().replace('MW', '').lstrip('_0'))\n"))
b('C08', 'nearest when one', (G, "            elif any(nn_eqns):", "            elif len(nn_eqns) == 1 or any(nn_eqns) and not self._interp_extrap_year:"))
b('C08', 'constants float', (G, "out = Equation(out.eval())", "out = Equation(round(float(out.eval()), 3))"))
b('C08', 'defaults lost', (G, "                if not any(out.variables):\n", "                if not any(v for v in out.variables if v not in out.default_variables):\n"))
b('C08', 'year first', (G, "            if ((self._interp_extrap_power or self._use_nearest_power)\n", "            if ((self._interp_extrap_year or self._use_nearest_power)\n"))
b('C12', 'set of names', (C, "            self._check_circ_ref(name, expression, config)\n", "            if name in self._raw_config and len(config) > 1:\n                self._check_circ_ref(name, expression, config)\n"), expect=0)
b('C12', 'expression lower', (C, "        if orig_name in all_vars:\n", "        if current_name != orig_name and orig_name in all_vars:\n"))
b('C12', 'number-like', (C, "            if var in config:\n                cls._check_circ_ref(", "            if var in config and '::' not in str(config[var]):\n                cls._check_circ_ref("))
b('C15', 'group values direct', (D, "            elif isinstance(v, (EquationGroup, Equation)):\n                v.set_default_variables(var_group)", "            elif isinstance(v, (EquationGroup, Equation)):\n                v.set_default_variables(self._default_variables)"), expect=0)
b('C15', 'variables file wins always', (D, "        if 'variables' in self.keys() and not force_update:", "        if 'variables' in self.keys():"))
b('C16', 'case', (D, "type_check = name.endswith(('.json', '.yml', '.yaml'))", "type_check = name.lower().endswith(('.json', '.yml', '.yaml'))"))
b('C16', 'isfile only', (D, "            if is_directory and not ignore_check:", "            if is_directory and not ignore_check and not os.path.islink(path):"))
b('C18', 'full of self', (G, "eqn.full)\n", "eqn.full.replace(' ', ''))\n"), expect=0)
b('C18', 'skip when default', (G, "[v for v in eqn.variables if v in group]", "[v for v in eqn.variables if v in group and v not in eqn.default_variables]"), expect=0)
b('C18', 'first only', (G, "new_eqn = re.sub(pattern, lambda _: repl_str, eqn.full)", "new_eqn = re.sub(pattern, lambda _: repl_str, eqn.full, count=1)"), expect=0)
b('C18', 'string repl', (G, "new_eqn = re.sub(pattern, lambda _: repl_str, eqn.full)", "new_eqn = re.sub(pattern, repl_str, eqn.full)"), expect=0)
b('C18', 'nested groups', (G, "if v in group]", "if v in group and isinstance(group[v], Equation)]"), expect=0)
