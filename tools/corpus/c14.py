G = 'NRWAL/handlers/groups.py'
E = 'NRWAL/handlers/equations.py'
C = 'NRWAL/handlers/config.py'
D = 'NRWAL/handlers/directories.py'
U = 'NRWAL/utilities/utilities.py'
LOAD = "                with open(group, 'r') as f:\n                    group = yaml.safe_load(f)\n"
LIST = "        for name in sorted(os.listdir(eqn_dir)):\n"
PV = "        variables = sorted(list(set(variables)))\n        return variables\n"
NAMES = "        return sorted(list(set(names)))\n"
ISNUM = '    @staticmethod\n    def is_num(s):\n'
PP = '    @staticmethod\n    def _parse_power(key):\n'
VARS = '    @property\n    def variables(self):\n'
GLOG = "logger = logging.getLogger(__name__)\n"
EVAL = "    def evaluate(self, inputs=None):\n"
RESET = "        # outputs from previous inputs are no longer valid\n        self.reset_output()\n"
RET = "        return self.parse_variables(self._eqn)\n"
FP = "def find_parens(s):\n"
FPI = "    indices = []\n    pstack = []\n"
INIT = "        self._default_variables = copy.deepcopy(default_variables)\n        if self._default_variables is None:\n            self._default_variables = {}\n"
SIG = "    def __init__(self, eqn, name=None, default_variables=None):\n"
AEQ = "    def all_equations(self):\n        \"\"\"List of all Equation objects from this object.\"\"\"\n        return self._r_all_equations(self)\n"
GCLS = "    def __add__(self, other):\n"
LOADC = "                with open(config, 'r') as f:\n                    config = yaml.safe_load(f)\n"
ITEMS = [
    ('C14', 'class-level file cache', 1, [(G, LOAD, "                if group not in self._CACHE:\n                    with open(group, 'r') as f:\n                        self._CACHE[group] = yaml.safe_load(f)\n                group = self._CACHE[group]\n"),
                                          (G, "    @staticmethod\n    def _getitem_math", "    _CACHE = {}\n\n    @staticmethod\n    def _getitem_math"),
                                          (G, "    def _parse_group(group):", "    def _parse_group(group, self=None):\n        self = self or AbstractGroup")]),
    ('C14', 'module dict cache', 1, [(G, LOAD, "                if group not in _FILES:\n                    with open(group, 'r') as f:\n                        _FILES[group] = yaml.safe_load(f)\n                group = _FILES[group]\n"), (G, GLOG, GLOG + "_FILES = {}\n")]),
    ('C14', 'module dict cache, copies', 1, [(G, LOAD, "                if group not in _FILES:\n                    with open(group, 'r') as f:\n                        _FILES[group] = yaml.safe_load(f)\n                group = dict(_FILES[group])\n"), (G, GLOG, GLOG + "_FILES = {}\n")]),
    ('C14', 'global counter', 1, [(E, RET, "        global _N\n        _N += 1\n" + RET), (E, "class Equation:\n", "_N = 0\n\n\nclass Equation:\n")]),
    ('C14', 'setdefault in a module dict', 1, [(E, RET, "        return _SEEN.setdefault(self._eqn, self.parse_variables(self._eqn))\n"), (E, "class Equation:\n", "_SEEN = {}\n\n\nclass Equation:\n")]),
    ('C14', 'mutable default kept', 1, [(E, SIG, SIG.replace("default_variables=None", "default_variables={}")), (E, INIT, "        self._default_variables = default_variables\n")]),
    ('C14', 'mutable default copied', 0, [(E, SIG, SIG.replace("default_variables=None", "default_variables={}"))]),
    ('C14', 'mutable default as accumulator', 1, [(U, FP, "def find_parens(s, indices=[]):\n"), (U, FPI, "    pstack = []\n")]),
    ('C14', 'shared fallback defaults', 1, [(E, INIT, "        self._default_variables = copy.deepcopy(default_variables)\n        if self._default_variables is None:\n            self._default_variables = self._NO_DEFAULTS\n"), (E, "    ILLEGAL = ", "    _NO_DEFAULTS = {}\n\n    ILLEGAL = ")]),
    ('C14', 'module fallback defaults', 1, [(E, INIT, "        self._default_variables = copy.deepcopy(default_variables)\n        if self._default_variables is None:\n            self._default_variables = _EMPTY\n"), (E, "class Equation:\n", "_EMPTY = {}\n\n\nclass Equation:\n")]),
    ('C14', 'class-level outputs', 1, [(C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n    _SOLVED = []\n"), (C, RESET, RESET + "        self._SOLVED.append(id(self))\n")]),
    ('C14', 'lru_cache on a method', 1, [(E, VARS, '    @property\n    @functools.lru_cache()\n    def variables(self):\n'), (E, "import re\n", "import re\nimport functools\n")]),
    ('C14', 'lru_cache on parse_variables', 1, [(E, "    @classmethod\n    def parse_variables(", "    @classmethod\n    @functools.lru_cache(maxsize=None)\n    def parse_variables("), (E, "import re\n", "import re\nimport functools\n")]),
    ('C14', 'lru_cache on find_parens', 1, [(U, FP, "@lru_cache(maxsize=None)\n" + FP), (U, "import os\n", "import os\nfrom functools import lru_cache\n")]),
    ('C14', 'lru_cache on file reader', 1, [(G, LOAD, "                group = self_read(group)\n"), (G, GLOG, GLOG + "\n\n@functools.lru_cache()\ndef self_read(path):\n    with open(path, 'r') as f:\n        return yaml.safe_load(f)\n"), (G, "import re\n", "import re\nimport functools\n")]),
    ('C14', 'lru_cache on is_num', 0, [(E, ISNUM, '    @staticmethod\n    @functools.lru_cache()\n    def is_num(s):\n'), (E, "import re\n", "import re\nimport functools\n")]),
    ('C14', 'lru_cache on _parse_power', 0, [(G, PP, '    @staticmethod\n    @functools.lru_cache()\n    def _parse_power(key):\n'), (G, "import re\n", "import re\nimport functools\n")]),
    ('C14', 'cached_property over defaults', 1, [(G, '    @property\n' + AEQ, '    @functools.cached_property\n' + AEQ), (G, "import re\n", "import re\nimport functools\n")]),
    ('C14', 'memo decorator', 1, [(E, "class Equation:\n", "def memo(fun):\n    cache = {}\n\n    def wrapper(*args):\n        if args not in cache:\n            cache[args] = fun(*args)\n        return cache[args]\n    return wrapper\n\n\nclass Equation:\n"),
                                  (E, VARS, '    @property\n    @memo\n    def variables(self):\n')]),
    ('C14', 'function attribute state', 1, [(U, FPI, FPI + "    find_parens.count = getattr(find_parens, 'count', 0) + 1\n")]),
    ('C14', 'function attribute cache', 1, [(U, FPI, "    if s in find_parens.cache:\n        return find_parens.cache[s]\n    indices = find_parens.cache[s] = []\n    pstack = []\n"), (U, "def find_np_pd_methods(s):\n", "find_parens.cache = {}\n\n\ndef find_np_pd_methods(s):\n")]),
    ('C14', 'random jitter', 1, [(G, "            power = float(power.group(0)", "            power = np.random.rand() * 1e-9 + float(power.group(0)")]),
    ('C14', 'year from clock', 1, [(G, "    def is_year_eqn(cls, key):\n", "    def is_year_eqn(cls, key, now=time.time()):\n        if now < 0:\n            return False\n"), (G, "import re\n", "import re\nimport time\n")]),
    ('C14', 'directory from environment', 1, [(C, "    DEFAULT_DIR = NRWAL_ANALYSIS_DIR\n", "    DEFAULT_DIR = os.environ.get('NRWAL_DIR', NRWAL_ANALYSIS_DIR)\n")]),
    ('C14', 'directory from cwd', 1, [(D, LIST, "        if not os.path.exists(eqn_dir):\n            eqn_dir = os.path.join(os.getcwd(), eqn_dir)\n" + LIST)]),
    ('C14', 'getenv switch', 1, [(E, RET, "        if os.getenv('NRWAL_FAST'):\n            return []\n" + RET), (E, "import re\n", "import re\nimport os\n")]),
    ('C14', 'seterr', 1, [(C, RESET, "        np.seterr(all='raise')\n" + RESET)]),
    ('C14', 'errstate', 0, [(C, "                        self._outputs[k] = v.evaluate(**kwargs)\n", "                        with np.errstate(divide='ignore'):\n                            self._outputs[k] = v.evaluate(**kwargs)\n")]),
    ('C14', 'chdir', 1, [(D, LIST, "        os.chdir(eqn_dir)\n        for name in sorted(os.listdir('.')):\n")]),
    ('C14', 'warnings filter', 1, [(C, RESET, "        warnings.simplefilter('ignore')\n" + RESET), (C, "import re\n", "import re\nimport warnings\n")]),
    ('C14', 'warnings scoped', 0, [(C, RESET, "        with warnings.catch_warnings():\n            warnings.simplefilter('ignore')\n            self.reset_output()\n"), (C, "import re\n", "import re\nimport warnings\n")]),
    ('C14', 'np patched', 1, [(C, RESET, "        np.float_ = float\n" + RESET)]),
    ('C14', 'unsorted listdir', 1, [(D, LIST, "        for name in os.listdir(eqn_dir):\n")]),
    ('C14', 'unsorted scandir', 1, [(D, LIST, "        for entry in os.scandir(eqn_dir):\n            name = entry.name\n")]),
    ('C14', 'glob', 1, [(D, LIST, "        for name in [os.path.basename(p) for p in glob.glob(os.path.join(eqn_dir, '*'))]:\n"), (D, "import os\n", "import os\nimport glob\n")]),
    ('C14', 'listing as set', 1, [(D, LIST, "        for name in set(os.listdir(eqn_dir)):\n")]),
    ('C14', 'sorted by a partial key', 1, [(D, LIST, "        for name in sorted(os.listdir(eqn_dir), key=os.path.isdir):\n")]),
    ('C14', 'listing filtered', 0, [(D, LIST, "        for name in sorted(n for n in os.listdir(eqn_dir) if n):\n")]),
    ('C14', 'listing sorted in place', 0, [(D, LIST, "        names = os.listdir(eqn_dir)\n        names.sort()\n        for name in names:\n")]),
    ('C14', 'listing scandir sorted', 0, [(D, LIST, "        for name in sorted(e.name for e in os.scandir(eqn_dir)):\n")]),
    ('C14', 'listing helper', 0, [(D, LIST, "        for name in sorted(cls._names(eqn_dir)):\n"), (D, "    def __repr__(self):\n", "    @staticmethod\n    def _names(eqn_dir):\n        return os.listdir(eqn_dir)\n\n    def __repr__(self):\n")]),
    ('C14', 'listing helper sorted inside', 0, [(D, LIST, "        for name in cls._names(eqn_dir):\n"), (D, "    def __repr__(self):\n", "    @staticmethod\n    def _names(eqn_dir):\n        names = list(os.listdir(eqn_dir))\n        names.sort()\n        return names\n\n    def __repr__(self):\n")]),
    ('C14', 'listing helper unsorted', 1, [(D, LIST, "        for name in cls._names(eqn_dir):\n"), (D, "    def __repr__(self):\n", "    @staticmethod\n    def _names(eqn_dir):\n        return [n for n in os.listdir(eqn_dir) if not n.startswith('~')]\n\n    def __repr__(self):\n")]),
    ('C14', 'listing map path', 0, [(D, LIST, "        for path in sorted(os.path.join(eqn_dir, n) for n in os.listdir(eqn_dir)):\n            name = os.path.basename(path)\n")]),
    ('C14', 'variables unsorted', 1, [(E, PV, "        return list(set(variables))\n")]),
    ('C14', 'variables sorted by len', 1, [(E, PV, "        return sorted(set(variables), key=len)\n")]),
    ('C14', 'variables fromkeys', 0, [(E, PV, "        variables = sorted(dict.fromkeys(variables))\n        return variables\n")]),
    ('C14', 'variables sorted in place', 0, [(E, PV, "        variables = list(set(variables))\n        variables.sort()\n        return variables\n")]),
    ('C14', 'variables set comp', 0, [(E, PV, "        return sorted({v for v in variables})\n")]),
    ('C14', 'required inputs unsorted', 1, [(C, NAMES, "        return list(set(names))\n")]),
    ('C14', 'required inputs set union', 1, [(C, "        names = []\n        for eqn in self.values():\n            if isinstance(eqn, Equation):\n                names += [v for v in eqn.variables\n                          if v not in self.global_variables\n                          and v not in self._config\n                          and v not in eqn.default_variables]\n\n        return sorted(list(set(names)))\n", "        names = set()\n        for eqn in self.values():\n            if isinstance(eqn, Equation):\n                names |= {v for v in eqn.variables\n                          if v not in self.global_variables\n                          and v not in self._config\n                          and v not in eqn.default_variables}\n\n        return [n for n in names]\n")]),
    ('C14', 'required inputs set union sorted', 0, [(C, "        names = []\n        for eqn in self.values():\n            if isinstance(eqn, Equation):\n                names += [v for v in eqn.variables\n                          if v not in self.global_variables\n                          and v not in self._config\n                          and v not in eqn.default_variables]\n\n        return sorted(list(set(names)))\n", "        names = set()\n        for eqn in self.values():\n            if isinstance(eqn, Equation):\n                names |= {v for v in eqn.variables\n                          if v not in self.global_variables\n                          and v not in self._config\n                          and v not in eqn.default_variables}\n\n        return sorted(names)\n")]),
    ('C14', 'time logged', 0, [(C, RESET, "        t0 = time.time()\n" + RESET + "        logger.debug('reset took {}'.format(time.time() - t0))\n"), (C, "import re\n", "import re\nimport time\n")]),
    ('C14', 'module constant regex', 0, [(G, "        power = re.search('_[0-9]+MW$', key, flags=re.IGNORECASE)\n", "        power = _MW.search(key)\n"), (G, GLOG, GLOG + "_MW = re.compile('_[0-9]+MW$', re.IGNORECASE)\n")]),
    ('C14', 'set for membership', 0, [(E, "        flags = ('(', ')', '[', ']', '{', '}', '+', '-', '/', '*', '^', ' ',\n                 '<', '>', '=', '\\\\', '|', '&', '$', '@', '-')\n", "        flags = {'(', ')', '[', ']', '{', '}', '+', '-', '/', '*', '^', ' ',\n                 '<', '>', '=', '\\\\', '|', '&', '$', '@', '-'}\n")]),
    ('C14', 'delimiters a set', 0, [(E, "        delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')\n", "        delimiters = {'*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<'}\n")]),
    ('C14', 'default dir rebound', 1, [(C, "        self._eqn_dir = EquationDirectory(", "        type(self).DEFAULT_DIR = config.get('equation_directory', self.DEFAULT_DIR) if isinstance(config, dict) else self.DEFAULT_DIR\n        self._eqn_dir = EquationDirectory(")]),
    ('C14', 'group order by set', 0, [(G, "        for k, v in sorted(group.items()):\n", "        for k in set(group):\n            v = group[k]\n")]),
    ('C14', 'group order by keys', 0, [(G, "        for k, v in sorted(group.items()):\n", "        for k in sorted(group):\n            v = group[k]\n")]),
    ('C14', 'global parsed dir', 1, [(C, "        self._eqn_dir = EquationDirectory(", "        global _LAST\n        _LAST = config\n        self._eqn_dir = EquationDirectory("), (C, GLOG, GLOG + "_LAST = None\n")]),
]
