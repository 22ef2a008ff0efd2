C = 'NRWAL/handlers/config.py'
ITEMS = []


def r(name, *edits, props=('C05', 'C11', 'C13')):
    for p in props:
        ITEMS.append((p, name, 0, list(edits)))


def b(prop, name, *edits):
    ITEMS.append((prop, name, 1, list(edits)))


EV = '''
def evaluate(self, inputs=None):
    if inputs is not None:
        self.inputs = inputs
    missing = self.missing_inputs
    if len(missing) > 0:
        raise RuntimeError('missing: {}'.format(missing))
    self.reset_output()
    for key, entry in self.items():
        if not isinstance(entry, Equation) or Equation.is_num(entry):
            continue
        args = {**self.global_variables, **self.inputs, **self._outputs}
        try:
            self._outputs[key] = entry.evaluate(**args)
        except Exception as e:
            raise RuntimeError('Could not evaluate {}: {}'.format(key, e)) from e
    return self._outputs
'''
r('ev one pass', (C, 'def:NrwalConfig.evaluate', EV))
r('ev local outputs', (C, 'def:NrwalConfig.evaluate', '''
def evaluate(self, inputs=None):
    if inputs is not None:
        self.inputs = inputs
    if not self.solvable:
        raise RuntimeError('missing: {}'.format(self.missing_inputs))
    base = dict(self.global_variables)
    base.update(self.inputs)
    outputs = {}
    for key in self.keys():
        entry = self._config[key]
        if isinstance(entry, Equation) and not Equation.is_num(entry):
            outputs[key] = self._one(entry, {**base, **outputs})
    self._outputs = outputs
    return self._outputs

def _one(self, entry, args):
    try:
        return entry.evaluate(**args)
    except Exception as e:
        raise RuntimeError('Could not evaluate {}: {}'.format(entry, e)) from e
'''))
r('ev for else', (C, 'def:NrwalConfig.evaluate', '''
def evaluate(self, inputs=None):
    if inputs is not None:
        self.inputs = inputs
    if not self.solvable:
        raise RuntimeError('missing: {}'.format(self.missing_inputs))
    self.reset_output()
    for _ in range(100):
        if self.solved:
            break
        for k in self.to_be_solved:
            kwargs = dict(self.global_variables)
            kwargs.update(self.inputs)
            kwargs.update(self._outputs)
            try:
                self._outputs[k] = self._config[k].evaluate(**kwargs)
            except Exception as e:
                raise RuntimeError('failed: {}'.format(e)) from e
    else:
        raise RuntimeError('never solved: {}'.format(self.to_be_solved))
    return self._outputs
'''))
r('missing comprehension', (C, 'def:NrwalConfig.missing_inputs', '''
@property
def missing_inputs(self):
    known = set(self.global_variables) | set(self.inputs)
    return sorted(set(self.required_inputs) - known)
'''))
r('missing loop', (C, 'def:NrwalConfig.missing_inputs', '''
@property
def missing_inputs(self):
    out = set()
    for name in self.required_inputs:
        if name in self.inputs or name in self.global_variables:
            continue
        out.add(name)
    return sorted(out)
'''))
r('required set', (C, 'def:NrwalConfig.required_inputs', '''
@property
def required_inputs(self):
    names = set()
    for eqn in self.values():
        if not isinstance(eqn, Equation):
            continue
        for v in eqn.variables:
            if not (v in self.global_variables or v in self._config or v in eqn.default_variables):
                names.add(v)
    return sorted(names)
'''))
r('solvable len', (C, 'return not any(self.missing_inputs)', 'return len(self.missing_inputs) == 0'))
b('C13', 'ev skips named inputs', (C, 'def:NrwalConfig.evaluate', EV.replace("is_num(entry):", "is_num(entry) or key in self.inputs:")))
b('C13', 'ev keeps old', (C, 'def:NrwalConfig.evaluate', EV.replace("    self.reset_output()\n", "")))
b('C05', 'ev inputs win', (C, 'def:NrwalConfig.evaluate', EV.replace("**self.inputs, **self._outputs", "**self._outputs, **self.inputs")))
b('C11', 'ev allows one', (C, 'def:NrwalConfig.evaluate', EV.replace("len(missing) > 0", "len(missing) > 1")))
ALLC = ('C02', 'C03', 'C05', 'C07', 'C10', 'C12', 'C14', 'C20', 'C21')
r('lc read helper', (C, '''            if config.endswith('.json'):
                with open(config, 'r') as f:
                    config = json.load(f)

            elif config.endswith(('.yml', '.yaml')):
                with open(config, 'r') as f:
                    config = yaml.safe_load(f)

            else:
                msg = ('Cannot load file path, must be json or yaml: {}'
                       .format(config))
                logger.error(msg)
                raise ValueError(msg)
''', '''            config = cls._read(config)
'''), (C, "    @staticmethod\n    def _parse_global_variables(config):", '''    @staticmethod
    def _read(fp):
        ext = os.path.splitext(fp)[1]
        loaders = {'.json': json.load, '.yml': yaml.safe_load, '.yaml': yaml.safe_load}
        if ext not in loaders:
            msg = 'Cannot load file path, must be json or yaml: {}'.format(fp)
            logger.error(msg)
            raise ValueError(msg)
        with open(fp, 'r') as f:
            return loaders[ext](f)

    @staticmethod
    def _parse_global_variables(config):'''), props=ALLC)
r('lc pathlib', (C, "fp_other = os.path.join(config_dir, fp_other)", "fp_other = str(Path(config_dir) / fp_other)"), (C, "import os\n", "import os\nfrom pathlib import Path\n"), props=ALLC)
r('lc pointer helper', (C, '''                temp = value.partition('::')
                fp_other, other_key = temp[0], temp[2]
                fp_other = os.path.join(config_dir, fp_other)

                msg = 'Config pointer file not found: {}'.format(fp_other)
                assert os.path.exists(fp_other), msg

                config[key] = cls._load_config(fp_other)[0][other_key]
''', '''                config[key] = cls._follow(value, config_dir)
'''), (C, "    @staticmethod\n    def _parse_global_variables(config):", '''    @classmethod
    def _follow(cls, pointer, folder):
        """the value a config pointer leads to"""
        fp, _, name = pointer.partition('::')
        fp = os.path.join(folder, fp)
        if not os.path.exists(fp):
            raise FileNotFoundError('Config pointer file not found: {}'.format(fp))
        other, _ = cls._load_config(fp)
        if name not in other:
            raise KeyError('No entry {} in {}'.format(name, fp))
        return other[name]

    @staticmethod
    def _parse_global_variables(config):'''), props=ALLC)
r('lc new dict', (C, "        return config, eqn_dir\n", "        return resolved, eqn_dir\n"), (C, "                config[key] = cls._load_config(fp_other)[0][other_key]\n", "                value = cls._load_config(fp_other)[0][other_key]\n\n            resolved[key] = value\n"),
  (C, "        for key, value in config.items():\n            file_markers", "        resolved = {}\n        for key, value in config.items():\n            file_markers"), props=ALLC)
P = (C, "import os\n", "import os\nfrom pathlib import Path\n")
PR = ('C02', 'C10', 'C14', 'C16', 'C21')
r('lc Path exists', (C, "if not os.path.exists(config):", "if not Path(config).exists():"), P, props=PR)
r('lc Path parent', (C, "config_dir = os.path.dirname(os.path.abspath(config))", "config_dir = str(Path(config).resolve().parent)"), P, props=PR)
r('lc Path open', (C, "                with open(config, 'r') as f:\n                    config = yaml.safe_load(f)", "                with Path(config).open() as f:\n                    config = yaml.safe_load(f)"), P, props=PR)
r('lc read_text', (C, "                with open(config, 'r') as f:\n                    config = yaml.safe_load(f)", "                config = yaml.safe_load(Path(config).read_text())"), P, props=PR)
r('lc Path other', (C, "assert os.path.exists(fp_other), msg", "assert Path(fp_other).is_file(), msg"), P, props=PR)
r('lc lower ext', (C, "elif config.endswith(('.yml', '.yaml')):", "elif os.path.splitext(config)[1] in ('.yml', '.yaml'):"), props=PR)
