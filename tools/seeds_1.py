E = 'NRWAL/handlers/equations.py'
G = 'NRWAL/handlers/groups.py'
D = 'NRWAL/handlers/directories.py'
C = 'NRWAL/handlers/config.py'

SEEDS = [
 dict(id='s01', prop='C01', edits=[(E, '''        return self.__class__(
            new_eqn, name=self._base_name,
            default_variables=self.default_variables
        )
''', '''        out = copy.deepcopy(self)
        out._str = None
        out._eqn = str(new_eqn)
        out.verify_no_self_reference()

        return out
''')], demo='''
from NRWAL.handlers.equations import Equation
e = Equation('a + 1', name='x')
try:
    e.replace_equation('exec("1")')
except ValueError:
    pass
else:
    raise SystemExit(1)
''', needs='an equation whose text is changed through replace_equation to a forbidden text', breaks='text set by replace_equation is not screened'),

 dict(id='s02', prop='C06', edits=[(E, '''        if not self.is_num(arg2) and not self.is_variable(arg2):
''', '''        if any(c in arg2 for c in '+-*/(') and not self.is_num(arg2):
''')], demo='''
from NRWAL.handlers.equations import Equation
out = (Equation('a') + Equation('b > c')).eval(a=2, b=3, c=10)
assert out == 2, out
''', needs='addition whose right operand contains a comparison', breaks='a + (b > c) becomes (a + b) > c'),

 dict(id='s03', prop='C09', edits=[(C, '''                kwargs[key] = bool(config.pop(key))
''', '''                kwargs[key] = bool(config.pop(key)) or kwargs[key]
''')], demo='''
from NRWAL.handlers.config import NrwalConfig
c = NrwalConfig({'interp_extrap_power': False, 'x': 'a'}, interp_extrap_power=True)
assert c._eqn_dir._interp_extrap_power is False
''', needs='a config that switches a flag off while the constructor argument switches it on', breaks='the flag of the config does not win'),

 dict(id='s04', prop='C10', edits=[(C, '''            except KeyError:
                out = Equation(expression)
''', '''            except (KeyError, TypeError):
                out = Equation(expression)
''')] , demo='''
import os, tempfile
from NRWAL.handlers.config import NrwalConfig
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, 'g.yaml'), 'w').write('e: a + 1\\n')
    try:
        NrwalConfig({'equation_directory': d, 'x': 'g::e::oops'})
    except Exception:
        pass
    else:
        raise SystemExit(1)
''', needs='a config entry that indexes into an equation of the library', breaks='the retrieval error is swallowed and the text taken as an input variable'),

 dict(id='s05', prop='C07', edits=[(G, '''        op_map['*'] = operator.mul
        op_map['/'] = operator.truediv
''', '''        op_map['/'] = operator.truediv
        op_map['*'] = operator.mul
''')], demo='''
from NRWAL.handlers.groups import EquationGroup
g = EquationGroup({'a': '12', 'b': '3', 'c': '2'})
assert g['a / b * c'].eval() == 8
''', needs='a retrieval key with a division followed by a multiplication', breaks='a / b * c becomes a / (b * c)'),

 dict(id='s06', prop='C03', edits=[(C, '''            if isinstance(arg, dict):
                keys = arg.keys()
''', '''            if isinstance(arg, dict):
                self._inputs = self._inputs or arg
                keys = arg.keys()
''')], demo='''
import numpy as np
from NRWAL.handlers.config import NrwalConfig
c = NrwalConfig({'x': 'a + b'})
inp = {'a': 1, 'b': np.arange(3)}
c.eval(inp)
assert type(inp['a']) is int
assert inp['b'].dtype.kind == 'i'
''', needs='inputs given as a dictionary to a config that has none yet', breaks='the inputs dictionary of the caller is modified'),

 dict(id='s07', prop='C04', edits=[(E, '''        def_vars = copy.deepcopy(self._default_variables)
        def_vars.update(other._default_variables)
''', '''        def_vars = self._default_variables
        if other._default_variables:
            def_vars.update(other._default_variables)
''')], demo='''
from NRWAL.handlers.equations import Equation
a = Equation('x + y', default_variables={'x': 1, 'y': 1})
b = Equation('x', default_variables={'x': 5})
a * b
assert a.eval() == 2
''', needs='both operands have defaults and the left operand is used again afterwards', breaks='the operation changes the defaults of its left operand'),

 dict(id='s08', prop='C05', edits=[(C, '''                    kwargs.update(self.inputs)
                    kwargs.update(self._outputs)
''', '''                    kwargs.update(self._outputs)
                    kwargs.update(self.inputs)
''')], demo='''
from NRWAL.handlers.config import NrwalConfig
c = NrwalConfig({'x': 'a + 1', 'y': 'np.sqrt(x) * b'})
out = c.eval({'a': 8, 'b': 2, 'x': 100})
assert out['y'] == 6, out
''', needs='an input with the name of a config entry that a numpy entry refers to', breaks='inputs override the outputs already calculated'),

 dict(id='s09', prop='C08', edits=[(G, '''                if match_yr and base_str == match_base:
''', '''                if match_yr and match_base.startswith(base_str):
''')], demo='''
from NRWAL.handlers.groups import EquationGroup
g = EquationGroup({'cost_2015': '1', 'cost_2025': '3', 'cost_low_2020': '50'}, interp_extrap_year=True)
assert g['cost_2020'].eval() == 2
''', needs='two families of yearly equations, the name of one a prefix of the other', breaks='equations with another base name are used as candidates'),

 dict(id='s10', prop='C11', edits=[(C, '''        for eqn in self.values():
            if isinstance(eqn, Equation):
                names += [v for v in eqn.variables
                          if v not in self.global_variables
''', '''        for key, eqn in self.items():
            if isinstance(eqn, Equation) and key not in self._outputs:
                names += [v for v in eqn.variables
                          if v not in self.global_variables
''')], demo='''
from NRWAL.handlers.config import NrwalConfig
c = NrwalConfig({'x': 'a + b'})
c.eval({'a': 1, 'b': 2})
assert c.required_inputs == ['a', 'b']
''', needs='asking for the required inputs after an evaluation', breaks='solved entries no longer count'),

 dict(id='s11', prop='C12', edits=[(C, '''        for var in all_vars:
            if var in config:
                cls._check_circ_ref(orig_name, config[var], config,
                                    current_name=var, msg=msg)
''', '''        var = next((v for v in all_vars if v in config), None)
        if var is not None:
            cls._check_circ_ref(orig_name, config[var], config,
                                current_name=var, msg=msg)
''')], demo='''
from NRWAL.handlers.config import NrwalConfig
try:
    NrwalConfig({'u': 'k + 1', 'x': 'np.sqrt(u) + np.sqrt(z)', 'z': 'np.sqrt(u) + np.sqrt(x)', 'k': 'q'})
except RuntimeError as e:
    assert 'circular' in str(e)
else:
    raise SystemExit(1)
''', needs='a circular chain through the second reference of an entry', breaks='only the first referenced entry is followed'),

 dict(id='s12', prop='C13', edits=[(C, '''                    try:
                        self._outputs[k] = v.evaluate(**kwargs)
''', '''                    if k in self.inputs:
                        self._outputs[k] = self.inputs[k]
                        continue

                    try:
                        self._outputs[k] = v.evaluate(**kwargs)
''')], demo='''
from NRWAL.handlers.config import NrwalConfig
c = NrwalConfig({'x': 'a + 1', 'y': 'b * 2'})
assert c.eval({'a': 1, 'b': 1, 'x': 50})['x'] == 2
''', needs='an input with the name of a config entry', breaks='the entry is not calculated'),

 dict(id='s13', prop='C15', edits=[(G, '''            for v in self.values():
                v.set_default_variables(var_dict)
''', '''            for v in self.values():
                if isinstance(v, Equation) or not v.default_variables:
                    v.set_default_variables(var_dict)
''')], demo='''
from NRWAL.handlers.groups import EquationGroup
g = EquationGroup({'a': {'b': 'x + 1'}})
g.set_default_variables({'x': 2})
g.set_default_variables({'x': 3})
assert g['a::b'].eval() == 4
''', needs='a group with a nested group whose defaults are set twice', breaks='defaults do not reach equations of nested groups'),

 dict(id='s14', prop='C16', edits=[(D, '''            ignore_check = name.startswith(('.', '__'))
''', '''            ignore_check = name.startswith(('.', '_'))
''')], demo='''
import os, tempfile
from NRWAL.handlers.directories import EquationDirectory
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, '_g.yaml'), 'w').write('e: a + 1\\n')
    assert list(EquationDirectory(d).keys()) == ['_g']
''', needs='a file whose name starts with a single underscore', breaks='the file is ignored'),

 dict(id='s15', prop='C17', edits=[(E, '''                      | np.issubdtype(type(v), np.number))
''', '''                      | isinstance(v, np.generic))
''')], demo='''
import numpy as np
from NRWAL.handlers.equations import Equation
try:
    Equation('a').eval(a=np.datetime64('2020-01-01'))
except AssertionError:
    pass
else:
    raise SystemExit(1)
''', needs='a numpy scalar that is not a number', breaks='non-numeric numpy scalars are accepted as inputs'),

 dict(id='s16', prop='C18', edits=[(G, '''        working = True
        while working:
            working = False
''', '''        working = True
        n_pass = 0
        while working and n_pass < 3:
            working = False
            n_pass += 1
''')], demo='''
from NRWAL.handlers.groups import EquationGroup
n = 12
g = {'e%02d' % i: 'e%02d + 1' % (i + 1) for i in range(n)}
g['e%02d' % n] = 'x'
keys = sorted(g)
g = {k: g[k] for k in keys}
assert EquationGroup(g)['e00'].variables == ['x']
''', needs='a chain of more than three references in a group', breaks='the substitution stops before all references are replaced'),

 dict(id='s17', prop='C14', edits=[(G, '''                with open(group, 'r') as f:
                    group = yaml.safe_load(f)
''', '''                if group not in AbstractGroup.CACHE:
                    with open(group, 'r') as f:
                        AbstractGroup.CACHE[group] = yaml.safe_load(f)

                group = AbstractGroup.CACHE[group]
'''), (G, '''class AbstractGroup(ABC):
''', '''class AbstractGroup(ABC):

    CACHE = {}

''')], demo='''
import os, tempfile
from NRWAL.handlers.groups import EquationGroup
with tempfile.TemporaryDirectory() as d:
    fp = os.path.join(d, 'g.yaml')
    open(fp, 'w').write('e: a + 1\\n')
    EquationGroup(fp)
    open(fp, 'w').write('e: a + 2\\n')
    assert EquationGroup(fp)['e'].full == 'a + 2'
''', needs='a file that is loaded again after a change', breaks='a class-level cache makes the result depend on earlier loads'),

 dict(id='s18', prop='C02', edits=[(C, '''                    config = yaml.safe_load(f)
''', '''                    config = yaml.load(f, Loader=yaml.UnsafeLoader)
''')], demo='''
import os, tempfile
from NRWAL.handlers.config import NrwalConfig
with tempfile.TemporaryDirectory() as d:
    fp = os.path.join(d, 'c.yaml')
    open(fp, 'w').write('x: !!python/object/apply:os.path.join ["a", "b"]\\n')
    try:
        NrwalConfig(fp)
    except Exception as e:
        assert 'constructor' in str(e), e
    else:
        raise SystemExit(1)
''', needs='a config file with a python tag', breaks='a config file can run code'),
]
