C = 'NRWAL/handlers/config.py'
ITEMS = []


def b(name, *edits, expect=1):
    ITEMS.append(('C21', 'ptr ' + name, expect, list(edits)))


def r(name, *edits):
    b(name, *edits, expect=0)


LOAD = "config[key] = cls._load_config(fp_other)[0][other_key]"
JOIN = "fp_other = os.path.join(config_dir, fp_other)"
b('default zero', (C, LOAD, "config[key] = cls._load_config(fp_other)[0].get(other_key, 0)"))
b('falls back on own name', (C, LOAD, "other = cls._load_config(fp_other)[0]\n                config[key] = other.get(other_key, other.get(key))"))
b('own name first', (C, LOAD, "other = cls._load_config(fp_other)[0]\n                config[key] = other[key if key in other else other_key]"))
b('cwd relative', (C, JOIN, "fp_other = os.path.abspath(fp_other)"))
b('cwd first', (C, JOIN, "if not os.path.exists(fp_other):\n                    fp_other = os.path.join(config_dir, fp_other)"))
b('base name only', (C, JOIN, "fp_other = os.path.join(config_dir, os.path.basename(fp_other))"))
b('not checked existing', (C, "assert os.path.exists(fp_other), msg", "if not os.path.exists(fp_other):\n                    continue"))
b('merge other', (C, LOAD, "other = cls._load_config(fp_other)[0]\n                config = {**other, **config}\n                config[key] = other[other_key]"))
b('dict relative to cwd', (C, "        config_dir = None\n", "        config_dir = os.getcwd()\n"))
b('dict assert gone', (C, "                assert config_dir is not None, msg\n", "                config_dir = config_dir or os.getcwd()\n"))
b('other library', (C, LOAD, "other, eqn_dir = cls._load_config(fp_other)\n                config[key] = other[other_key]"))
b('library default always', (C, "        if 'equation_directory' not in config:", "        if 'equation_directory' not in config or config_dir is not None:"))
b('library none', (C, "config['equation_directory'] = cls.DEFAULT_DIR", "config['equation_directory'] = config_dir or cls.DEFAULT_DIR"))
b('no chain', (C, LOAD, "with open(fp_other, 'r') as f:\n                    config[key] = yaml.safe_load(f)[other_key]"))
b('chain in first dir', (C, "    def _load_config(cls, config):", "    def _load_config(cls, config, base=None):"),
  (C, "config_dir = os.path.dirname(os.path.abspath(config))", "config_dir = base or os.path.dirname(os.path.abspath(config))"),
  (C, LOAD, "config[key] = cls._load_config(fp_other, config_dir)[0][other_key]"))
b('first of partition', (C, "fp_other, other_key = temp[0], temp[2]", "fp_other, other_key = temp[0], key"))
b('arithmetic stripped', (C, "assert not any(x in value for x in ('*', '+', '(', ')')), msg", "value = value.strip('()')"))
b('count not checked', (C, "assert value.count('::') == 1, msg", "assert '::' in value, msg"), (C, "temp = value.partition('::')\n                fp_other, other_key = temp[0], temp[2]", "temp = value.split('::')\n                fp_other, other_key = temp[0], temp[1]"))
b('yml not a marker', (C, "file_markers = ('.json', '.yaml', '.yml')", "file_markers = ('.json', '.yaml')"))
b('key lowered', (C, LOAD, "config[key] = cls._load_config(fp_other)[0][other_key.split('_')[0]]"), expect=1)
b('cached by base name', (C, LOAD, "other = seen.setdefault(os.path.basename(fp_other), cls._load_config(fp_other)[0])\n                config[key] = other[other_key]"),
  (C, "        for key, value in config.items():\n            file_markers", "        seen = {}\n        for key, value in config.items():\n            file_markers"))
b('cached by key', (C, LOAD, "config[key] = seen.setdefault(other_key, cls._load_config(fp_other)[0][other_key])"),
  (C, "        for key, value in config.items():\n            file_markers", "        seen = {}\n        for key, value in config.items():\n            file_markers"))
b('only first pointer', (C, LOAD, LOAD + "\n                break"))
b('number as int', (C, LOAD, "out = cls._load_config(fp_other)[0][other_key]\n                config[key] = int(out) if isinstance(out, float) else out"))
b('missing key ignored', (C, LOAD, "other = cls._load_config(fp_other)[0]\n                if other_key in other:\n                    config[key] = other[other_key]\n                else:\n                    config[key] = key"))
r('cached by path', (C, LOAD, "if fp_other not in seen:\n                    seen[fp_other] = cls._load_config(fp_other)[0]\n                config[key] = seen[fp_other][other_key]"),
  (C, "        for key, value in config.items():\n            file_markers", "        seen = {}\n        for key, value in config.items():\n            file_markers"))
r('split', (C, "temp = value.partition('::')\n                fp_other, other_key = temp[0], temp[2]", "fp_other, other_key = value.split('::')"))
r('helper', (C, LOAD, "config[key] = cls._entry_of(fp_other, other_key)"),
  (C, "    @staticmethod\n    def _parse_global_variables(config):", "    @classmethod\n    def _entry_of(cls, fp, name):\n        other, _ = cls._load_config(fp)\n        return other[name]\n\n    @staticmethod\n    def _parse_global_variables(config):"))
r('raises', (C, "assert os.path.exists(fp_other), msg", "if not os.path.exists(fp_other):\n                    raise FileNotFoundError(msg)"))
r('raise dict', (C, "assert config_dir is not None, msg", "if config_dir is None:\n                    raise ValueError(msg)"))
r('pop default', (C, "eqn_dir = config.pop('equation_directory')", "eqn_dir = config.pop('equation_directory', cls.DEFAULT_DIR)"))
r('get', (C, "        if 'equation_directory' not in config:\n            msg = ('NrwalConfig using default \"equation_directory\": {}'\n                   .format(cls.DEFAULT_DIR))\n            logger.info(msg)\n            config['equation_directory'] = cls.DEFAULT_DIR\n\n        eqn_dir = config.pop('equation_directory')\n",
            "        eqn_dir = config.pop('equation_directory', None)\n        if eqn_dir is None:\n            eqn_dir = cls.DEFAULT_DIR\n"))
r('normpath', (C, JOIN, "fp_other = os.path.normpath(os.path.join(config_dir, fp_other))"))
r('resolved dict', (C, "        return config, eqn_dir\n", "        config = {k: v for k, v in config.items()}\n        return config, eqn_dir\n"))
r('isfile', (C, "assert os.path.exists(fp_other), msg", "assert os.path.isfile(fp_other), msg"))
r('early continue', (C, "            if any(m in str(value) for m in file_markers):\n\n                msg = ('Cannot do", "            if not any(m in str(value) for m in file_markers):\n                continue\n\n            else:\n                msg = ('Cannot do"))
r('markers loop', (C, "if any(m in str(value) for m in file_markers):", "text = str(value)\n            if '.json' in text or '.yaml' in text or '.yml' in text:"))
r('list items', (C, "        for key, value in config.items():\n            file_markers", "        for key in list(config):\n            value = config[key]\n            file_markers"))
