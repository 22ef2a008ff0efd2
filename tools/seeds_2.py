D = 'NRWAL/handlers/directories.py'
G = 'NRWAL/handlers/groups.py'
E = 'NRWAL/handlers/equations.py'
C = 'NRWAL/handlers/config.py'
TREE = '''
import os, tempfile
from NRWAL.handlers.directories import EquationDirectory
def tree(files):
    d = tempfile.mkdtemp()
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(t)
    return d
'''
SEEDS = [
 dict(id='s13', prop='C15', edits=[(G, """            for v in self.values():
                v.set_default_variables(var_dict)
""", """            for v in self.all_equations:
                v.set_default_variables(var_dict)
""")], demo=TREE + """
d = EquationDirectory(tree({'variables.yaml': 'x: 1\\n', 'g.yaml': 's:\\n  e: x\\n'}))
assert d['g::s::e'].eval() == 1
assert d['g::s'].default_variables == {'x': 1}, d['g::s'].default_variables
""", needs='a nested group below a variables file', breaks='the nested group itself does not receive the values'),
 dict(id='s19', prop='C15', edits=[(D, '''            elif isinstance(v, (EquationGroup, Equation)):
''', '''            elif isinstance(v, EquationGroup) and v.all_equations:
''')], demo=TREE + '''
d = EquationDirectory(tree({'variables.yaml': 'x: 1\\n', 'g.yaml': '{}\\n'}))
assert d['g'].default_variables == {'x': 1}
''', needs='a group without equations below a variables file', breaks='the group does not receive the values'),
]
