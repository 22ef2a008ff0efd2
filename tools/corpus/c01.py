G = 'NRWAL/handlers/groups.py'
E = 'NRWAL/handlers/equations.py'
C = 'NRWAL/handlers/config.py'
D = 'NRWAL/handlers/directories.py'
U = 'NRWAL/utilities/utilities.py'
ILL = "ILLEGAL = ('import ', 'os.', 'sys.', '.__', '__.', 'eval', 'exec')"
PRE = "            if substr in str(self._eqn):\n"
EV = "            out = eval(str(self._eqn), globals(), kwargs)\n"
OPEN = "                with open(group, 'r') as f:\n                    group = yaml.safe_load(f)\n"
ITEMS = [
    # C01
    ('C01', 'fragment dropped', 1, [(E, ILL, "ILLEGAL = ('import ', 'os.', 'sys.', '.__', 'eval', 'exec')")]),
    ('C01', 'fragment changed', 1, [(E, ILL, "ILLEGAL = ('import ', 'os.', 'sys.', '.__', '__.', 'eval(', 'exec')")]),
    ('C01', 'fragments reordered', 0, [(E, ILL, "ILLEGAL = ('exec', 'eval', '__.', '.__', 'sys.', 'os.', 'import ')")]),
    ('C01', 'fragments a list', 0, [(E, ILL, "ILLEGAL = ['import ', 'os.', 'sys.', '.__', '__.', 'eval', 'exec']")]),
    ('C01', 'more fragments', 0, [(E, ILL, "ILLEGAL = ('import ', 'os.', 'sys.', '.__', '__.', 'eval', 'exec', 'subprocess')")]),
    ('C01', 'startswith only', 1, [(E, PRE, "            if str(self._eqn).startswith(substr):\n")]),
    ('C01', 'numbers skipped', 0, [(E, PRE, "            if not self.is_num(self._eqn) and substr in str(self._eqn):\n")]),
    ('C01', 'named equations skipped', 1, [(E, PRE, "            if self._base_name is None and substr in str(self._eqn):\n")]),
    ('C01', 'stripped copy', 1, [(E, PRE, "            if substr in str(self._eqn).split('#')[0]:\n")]),
    ('C01', 'lower', 0, [(E, PRE, "            if substr in str(self._eqn) or substr in str(self._eqn).lower():\n")]),
    ('C01', 'warning only', 1, [(E, "                logger.error(msg)\n                raise ValueError(msg)\n\n        self.verify", "                logger.error(msg)\n\n        self.verify")]),
    ('C01', 'only last raised', 1, [(E, "                logger.error(msg)\n                raise ValueError(msg)\n\n        self.verify", "                logger.error(msg)\n                break\n        else:\n            msg = None\n        if msg and len(self._eqn) > 10:\n            raise ValueError(msg)\n\n        self.verify")]),
    ('C01', 'eval of decoded text', 1, [(E, EV, "            out = eval(str(self._eqn).replace('^', '**').replace('dot', '.'), globals(), kwargs)\n")]),
    ('C01', 'eval of str attribute', 1, [(E, EV, "            out = eval(str(self._str or self._eqn), globals(), kwargs)\n")]),
    ('C01', 'eval of input text', 1, [(E, EV, "            kwargs = {k: eval(v, globals()) if isinstance(v, str) else v for k, v in kwargs.items()}\n" + EV)]),
    ('C01', 'setter for full', 1, [(E, "    @property\n    def default_variables(self):\n", "    @full.setter\n    def full(self, text):\n        self._eqn = str(text)\n        self._str = None\n\n    @property\n    def default_variables(self):\n")]),
    ('C01', 'setter for full screened', 0, [(E, "    @property\n    def default_variables(self):\n", "    @full.setter\n    def full(self, text):\n        self._eqn = str(text)\n        self._str = None\n        self._preflight()\n\n    @property\n    def default_variables(self):\n")]),
    ('C01', 'group sets text', 1, [(G, "                    group[group_key] = eqn = eqn.replace_equation(new_eqn)\n", "                    eqn._eqn = new_eqn\n")]),
    ('C01', 'preflight before text', 1, [(E, "        self._eqn = str(eqn)\n        self._preflight()\n", "        self._eqn = ''\n        self._preflight()\n        self._eqn = str(eqn)\n")]),
    ('C01', 'numexpr in config', 1, [(C, "                gvars[k] = float(v)\n", "                gvars[k] = eval(str(v))\n")]),
    ('C01', 'pd.eval', 1, [(E, EV, "            out = pd.eval(str(self._eqn).replace('::', '.'), local_dict=kwargs)\n"), (E, "import numpy as np\n", "import numpy as np\nimport pandas as pd\n")]),
    ('C01', 'compiled', 0, [(E, EV, "            code = compile(str(self._eqn), '<equation>', 'eval')\n            out = eval(code, globals(), kwargs)\n")]),
    ('C01', 'eval helper', 0, [(E, EV, "            out = self._run(kwargs)\n"), (E, "    def eval(self, **kwargs):\n", "    def _run(self, namespace):\n        text = str(self._eqn)\n        return eval(text, globals(), namespace)\n\n    def eval(self, **kwargs):\n")]),
    ('C01', 'trusted flag', 1, [(E, "    def __init__(self, eqn, name=None, default_variables=None):\n", "    def __init__(self, eqn, name=None, default_variables=None, trusted=False):\n"), (E, "        self._preflight()\n\n", "        if not trusted:\n            self._preflight()\n\n")]),
    ('C01', 'new without init', 1, [(E, "        return self.__class__(\n            new_eqn, name=self._base_name,\n            default_variables=self.default_variables\n        )\n", "        out = copy.deepcopy(self)\n        out._eqn = str(new_eqn)\n        out._str = None\n        return out\n")]),
    # C02
    ('C02', 'yaml.load', 1, [(G, OPEN, OPEN.replace("yaml.safe_load(f)", "yaml.load(f, Loader=yaml.Loader)"))]),
    ('C02', 'yaml unsafe_load', 1, [(G, OPEN, OPEN.replace("yaml.safe_load(f)", "yaml.unsafe_load(f)"))]),
    ('C02', 'yaml FullLoader', 1, [(G, OPEN, OPEN.replace("yaml.safe_load(f)", "yaml.load(f, Loader=yaml.FullLoader)"))]),
    ('C02', 'yaml SafeLoader', 0, [(G, OPEN, OPEN.replace("yaml.safe_load(f)", "yaml.load(f, Loader=yaml.SafeLoader)"))]),
    ('C02', 'yaml CSafeLoader', 0, [(G, OPEN, OPEN.replace("yaml.safe_load(f)", "yaml.load(f, Loader=getattr(yaml, 'CSafeLoader', yaml.SafeLoader))"))]),
    ('C02', 'yaml loader alias', 1, [(G, OPEN, OPEN.replace("yaml.safe_load(f)", "_load(f, Loader)")), (G, "import yaml\n", "import yaml\nfrom yaml import load as _load, UnsafeLoader as Loader\n")]),
    ('C02', 'custom loader', 1, [(G, OPEN, OPEN.replace("yaml.safe_load(f)", "yaml.load(f, _Loader)")), (G, "class AbstractGroup(ABC):\n", "class _Loader(yaml.UnsafeLoader):\n    pass\n\n\nclass AbstractGroup(ABC):\n")]),
    ('C02', 'custom safe loader', 0, [(G, OPEN, OPEN.replace("yaml.safe_load(f)", "yaml.load(f, _Loader)")), (G, "class AbstractGroup(ABC):\n", "class _Loader(yaml.SafeLoader):\n    pass\n\n\nclass AbstractGroup(ABC):\n")]),
    ('C02', 'open r+', 1, [(G, OPEN, OPEN.replace("'r'", "'r+'"))]),
    ('C02', 'open rb', 0, [(G, OPEN, OPEN.replace("'r'", "'rb'"))]),
    ('C02', 'pathlib read', 0, [(G, OPEN, "                group = yaml.safe_load(pathlib.Path(group).read_text())\n"), (G, "import os\n", "import os\nimport pathlib\n")]),
    ('C02', 'pickle cache', 1, [(G, OPEN, OPEN + "                pickle.dump(group, open('/tmp/x.pkl', 'wb'))\n"), (G, "import os\n", "import os\nimport pickle\n")]),
    ('C02', 'pickle load', 1, [(G, OPEN, "                group = pickle.load(open(group, 'rb'))\n"), (G, "import os\n", "import os\nimport pickle\n")]),
    ('C02', 'np.load pickle', 1, [(G, OPEN, "                group = np.load(group, allow_pickle=True).item()\n")]),
    ('C02', 'makedirs', 1, [(D, "        eqns = {}\n        for name", "        os.makedirs(eqn_dir, exist_ok=True)\n        eqns = {}\n        for name")]),
    ('C02', 'log file handler', 1, [(C, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\nlogger.addHandler(logging.FileHandler('nrwal.log'))\n")]),
    ('C02', 'to_csv', 1, [(C, "        return self._outputs\n\n    @property\n    def global", "        pd.DataFrame(self._outputs).to_csv('out.csv')\n        return self._outputs\n\n    @property\n    def global")]),
    ('C02', 'os.system', 1, [(C, "        self.reset_output()\n\n", "        self.reset_output()\n        os.system('true')\n\n")]),
    ('C02', 'environ set', 1, [(C, "        self.reset_output()\n\n", "        self.reset_output()\n        os.environ['NRWAL'] = '1'\n\n")]),
    ('C02', 'subprocess import in function', 1, [(C, "        self.reset_output()\n\n", "        self.reset_output()\n        import subprocess\n        subprocess.call(['true'])\n\n")]),
    # C06
    ('C06', 'swap', 1, [(E, "        new_eqn = '{} {} {}'.format(arg1, operator, arg2)\n", "        new_eqn = '{} {} {}'.format(arg2, operator, arg1) if operator == '**' and self.is_num(arg1) else '{} {} {}'.format(arg1, operator, arg2)\n")]),
    ('C06', 'no brackets for products', 1, [(E, "            arg2 = '({})'.format(arg2)\n", "            if '+' in arg2 or '-' in arg2:\n                arg2 = '({})'.format(arg2)\n")]),
    ('C06', 'left no brackets when starts with bracket', 1, [(E, "        if not self.is_num(arg2) and not self.is_variable(arg2):\n", "        if not arg2.startswith('(') and not self.is_num(arg2) and not self.is_variable(arg2):\n")]),
    ('C06', 'always brackets', 0, [(E, "        if not self.is_num(arg2) and not self.is_variable(arg2):\n            arg2 = '({})'.format(arg2)\n", "        arg2 = '({})'.format(arg2)\n")]),
    ('C06', 'defaults other way', 1, [(E, "        def_vars = copy.deepcopy(self._default_variables)\n        def_vars.update(other._default_variables)\n", "        def_vars = copy.deepcopy(other._default_variables)\n        def_vars.update(self._default_variables)\n")]),
    ('C06', 'defaults of variables only', 0, [(E, "        def_vars.update(other._default_variables)\n", "        for key, val in other._default_variables.items():\n            def_vars[key] = val\n")]),
    ('C06', 'defaults fill', 1, [(E, "        def_vars.update(other._default_variables)\n", "        for key, val in other._default_variables.items():\n            def_vars.setdefault(key, val)\n")]),
    ('C06', 'div as floor', 1, [(E, "    def __truediv__(self, other):", "    def __truediv__(self, other):\n        if isinstance(other, int):\n            return self.__eqn_math(other, '//')\n        return self.__eqn_math(other, '/')\n\n    def __floordiv__(self, other):")]),
    ('C06', 'pow as caret', 1, [(E, "return self.__eqn_math(other, '**')", "return self.__eqn_math(other, '^')")]),
    ('C06', 'zero shortcut', 1, [(E, "        arg1 = self._eqn\n        arg2 = other._eqn\n", "        arg1 = self._eqn\n        arg2 = other._eqn\n        if operator == '+' and arg2.startswith('0'):\n            return copy.deepcopy(self)\n")]),
    ('C06', 'is_variable without spaces', 1, [(E, "'*', '^', ' ',\n                 '<'", "'*', '^',\n                 '<'")]),
    ('C06', 'is_variable without comparison', 1, [(E, "                 '<', '>', '=', ", "                 '=', ")]),
    # C10
    ('C10', 'directory error logged', 1, [(D, "                    logger.exception(msg)\n                    raise RuntimeError(msg)\n", "                    logger.exception(msg)\n                    continue\n")]),
    ('C10', 'retrieval error default', 1, [(D, "                logger.debug(msg)\n                raise KeyError(msg)\n", "                logger.debug(msg)\n                return None\n")]),
    ('C10', 'eval error nan', 1, [(E, "            logger.exception(msg)\n            raise RuntimeError(msg) from e\n", "            logger.exception(msg)\n            out = np.nan\n")]),
    ('C10', 'zero division nan', 1, [(E, "        except Exception as e:\n            msg = ('Could not evaluate NRWAL Equation", "        except ZeroDivisionError:\n            out = np.nan\n        except Exception as e:\n            msg = ('Could not evaluate NRWAL Equation")]),
    ('C10', 'wide except in get', 1, [(G, "        try:\n            return self[key]\n        except KeyError:\n            return default_value\n", "        try:\n            return self[key]\n        except Exception:\n            return default_value\n")]),
    ('C10', 'wide except in library lookup', 1, [(C, "            except KeyError:\n                out = Equation(expression)\n", "            except Exception:\n                out = Equation(expression)\n")]),
    ('C10', 'lookup error in library lookup', 1, [(C, "            except KeyError:\n                out = Equation(expression)\n", "            except (KeyError, TypeError, AttributeError):\n                out = Equation(expression)\n")]),
    ('C10', 'suppress', 1, [(C, "        Equation._check_input_args(self._inputs)\n", "        with contextlib.suppress(AssertionError):\n            Equation._check_input_args(self._inputs)\n"), (C, "import copy\n", "import copy\nimport contextlib\n")]),
    ('C10', 'finally return', 1, [(E, "            raise RuntimeError(msg) from e\n\n        return out\n", "            raise RuntimeError(msg) from e\n        finally:\n            return locals().get('out')\n")]),
    ('C10', 'retry', 1, [(C, "                        raise RuntimeError(msg) from e\n", "                        if i > 1:\n                            raise RuntimeError(msg) from e\n")]),
    ('C10', 'without from', 0, [(C, "                        raise RuntimeError(msg) from e\n", "                        raise RuntimeError(msg)\n")]),
    ('C10', 'file loading fallback', 1, [(G, OPEN, "                try:\n                    with open(group, 'r') as f:\n                        group = yaml.safe_load(f)\n                except OSError:\n                    group = {}\n")]),
    ('C10', 'is_num type error', 0, [(E, "        except ValueError:\n            return False\n", "        except (TypeError, ValueError):\n            return False\n")]),
]
