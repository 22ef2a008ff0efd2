#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
E='NRWAL/handlers/equations.py'; G='NRWAL/handlers/groups.py'; D='NRWAL/handlers/directories.py'
C='NRWAL/handlers/config.py'; U='NRWAL/utilities/utilities.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

p("C01","Only screened equation text is ever evaluated",
  "Equation text containing any of the forbidden fragments ('import ', 'os.', 'sys.', '.__', '__.', 'eval', 'exec') is rejected with a ValueError when the equation object is created, whichever route creates it (direct construction, file, config, arithmetic, replacement, inlining). The text handed to the Python evaluator is exactly the text that was screened; no other text is ever evaluated or executed.",
  ["inputs","programs"],"every equation text and every route by which an equation object comes to exist",
  "Tests try a handful of bad strings through the constructor; they cannot show that no route builds or rewrites an equation past the screen.",
  [E,G,C],[("list of forbidden fragments and the screen run by the constructor",E+" Equation.ILLEGAL, Equation._preflight"),("single evaluation site",E+" Equation.evaluate"),("all derived equations go through the constructor",E+" Equation.replace_equation, Equation.__eqn_math")],
  [("equation text","the text screened and later evaluated",E+" Equation._eqn")],["Equation(...)","Equation.evaluate"])

p("C02","Library and config files are read as data and never written",
  "Loading or evaluating anything reads yaml / json files as plain data only (a file cannot make code run through a yaml tag or similar). The package never writes, creates, renames or deletes files, changes the process environment or working directory, starts processes or opens network connections.",
  ["inputs","programs"],"every file content and every call into the package",
  "A test that loads benign files sees no effect; only inspection of every call shows that no code path has such an effect.",
  [E,G,D,C,U],[("safe yaml / json loading",G+" AbstractGroup._parse_group; "+C+" NrwalConfig._load_config")],None,["EquationGroup(path)","EquationDirectory(path)","NrwalConfig(path)"])

p("C03","Objects passed in by the caller are never modified",
  "Dictionaries, data frames, lists and arrays that a caller passes to any constructor, method, operator or the inputs property are left exactly as they were, both during the call and by later operations on the object that received them. This includes config dictionaries, group dictionaries, default-variable dictionaries and evaluation inputs.",
  ["inputs","histories"],"every public call, every argument object, every later sequence of calls on the receiving object",
  "Tests check results, not the arguments afterwards, and not with the same object used in several later calls.",
  [E,G,D,C],[("deep copies on entry",C+" NrwalConfig._load_config; "+E+" Equation.__init__, Equation._merge_vars"),("fresh group dictionary",G+" AbstractGroup._parse_group")],None,["arguments after the call"])

p("C04","Combined and derived objects share no mutable state with their sources",
  "The equation, group or directory produced by an arithmetic or '+' operation, by equation replacement or by retrieval math is independent of its operands: updating the default variables of either afterwards never changes the other, and the operation itself leaves its operands unchanged. An equation keeps its own copy of the default variables it is given.",
  ["histories","inputs"],"every pair of operands and every later sequence of updates to either",
  "Needs an operation followed by a mutation followed by a re-read of the other object; the space of such histories is not sampled.",
  [E,G,D],[("deep copy of both operands",G+" AbstractGroup.__add__; "+D+" EquationDirectory.__add__"),("deep copy of default variables",E+" Equation.__init__, Equation.set_default_variables, Equation.__eqn_math")],None,["default_variables of operands and result"])

p("C05","Value precedence: run-time input over default, config constant over library",
  "When an equation is evaluated, each variable takes the value passed to that call if there is one, and otherwise its default; in a config every equation sees, in increasing priority, library defaults, the config's constants, the config inputs, and the outputs already calculated. No value is dropped, filtered or replaced on the way, apart from integers and integer arrays being converted to floating point and numeric arrays given as config inputs being stored in single precision.",
  ["inputs","configurations"],"every set of defaults, constants, inputs and outputs with overlapping names",
  "Tests use a few overlapping names; precedence must hold for every combination of layers, including falsy values such as 0.",
  [E,C],[("defaults updated with call arguments",E+" Equation._merge_vars, Equation.evaluate"),("constants, inputs, outputs layered in order",C+" NrwalConfig.evaluate"),("config constants pushed into retrieved library objects",C+" NrwalConfig._parse_expression")],None,["Equation.evaluate result","NrwalConfig.evaluate result"])

p("C06","Arithmetic on equation objects means arithmetic on their values",
  "The operators + - * / ** between equation objects (or an equation and a number or text) yield an equation that is the same operator applied to the left operand and the right operand, in that order, whatever operators the operands contain: each operand is grouped as a unit unless it is a lone non-negative number or variable name. The result carries the default variables of both operands, with those of the right operand winning.",
  ["inputs","programs"],"every pair of operand texts and every operator",
  "Grouping errors show only for particular operand shapes (a sum on the right of a minus, a negative number to a power).",
  [E],[("text composition with parentheses",E+" Equation.__eqn_math"),("classification of bare operands",E+" Equation.is_num, Equation.is_variable")],None,["Equation.full","Equation.evaluate"])

p("C07","Formula text in configs and retrieval keys obeys ordinary arithmetic",
  "A config value or retrieval key containing arithmetic denotes the usual value: ** binds tighter than * and /, which bind tighter than + and -; brackets are evaluated first; chains of - and of / are evaluated left to right; operands keep their order. In a config a leading minus negates, and text that cannot be interpreted raises an error instead of being ignored.",
  ["inputs","configurations"],"every formula built from names, numbers, operators and brackets",
  "The tests contain a few formulas; chained - and / were in fact evaluated wrongly without any test noticing.",
  [G,C,U],[("ordered operator table and recursive splitting",G+" AbstractGroup._getitem_math; "+C+" NrwalConfig._parse_equation"),("innermost bracket first",U+" find_parens, find_np_pd_methods")],None,["NrwalConfig[...]","EquationGroup[...]","EquationDirectory[...]"])

p("C08","Power / year retrieval: exact, else interpolated, else nearest, else KeyError",
  "Requesting an equation by a key ending in _<n>MW or _<year> returns the equation with exactly that key if it exists; otherwise, if the interpolation flag of that kind (power or year) is on and at least two equations share the base name, the straight line through the two nearest ones evaluated at the requested value; otherwise, if a flag of that kind is on and there is a candidate, the nearest one; otherwise a KeyError is raised. Candidates are only entries of the same group with the same base name and the same kind of suffix (MW in any letter case).",
  ["inputs","configurations"],"every group content, requested value and combination of the four flags",
  "Tests cover a few groups with all flags of one kind; the decision depends on kind, count, flag and exact match together.",
  [G],[("retrieval decision",G+" AbstractGroup._getitem, _get_nn_eqns_values"),("candidate search sorted by distance",G+" find_nearest_power_eqns, find_nearest_year_eqns"),("suffix parsing",G+" _parse_power, _parse_year")],None,["EquationGroup[...]"])

p("C09","Interpolation and nearest flags reach every nested object unchanged",
  "The four retrieval flags given to a config, directory or group (or set by the config's own entries, which win over the constructor arguments) apply with the same values to every nested directory, file group, sub-group and to anything added from a path or dictionary. No flag is swapped, dropped or changed on the way.",
  ["configurations","inputs"],"all 16 flag combinations and every nesting depth",
  "Tests set one flag at one level; a swapped pair of flags or a dropped one on one route stays unseen.",
  [G,D,C],[("flags passed to nested constructors",D+" EquationDirectory._parse_eqn_dir, __add__; "+G+" EquationGroup._parse_group, AbstractGroup.__add__"),("config entries override arguments",C+" NrwalConfig.__init__")],None,["retrieval through nested objects"])

p("C10","No failure is swallowed",
  "An error while loading a file, parsing an entry or evaluating an equation always surfaces as an exception to the caller; it is never replaced by a partial result, a default or a log message. The only conditions turned into ordinary results are: the explicit default of get() for a key that is not found, a text that is not a number, and a config name that is not in the library and so is an input variable.",
  ["fault_sequences","inputs"],"every point at which loading, parsing or evaluation can fail",
  "Tests trigger a few failures; a handler that hides another one passes all of them.",
  [E,G,D,C,U],[("every handler re-raises",E+" Equation.evaluate; "+D+" EquationDirectory._parse_eqn_dir; "+C+" NrwalConfig.evaluate"),("three narrow handlers",G+" AbstractGroup.get; "+E+" Equation.is_num; "+C+" NrwalConfig._parse_expression")],None,["exceptions seen by the caller"])

p("C11","Missing inputs are reported exactly and evaluation is refused",
  "Evaluating an equation or config while some variable has no value raises a RuntimeError before anything is computed. The config's required inputs are exactly the variables of its equations that are neither config entries, config constants nor defaults of that equation; its missing inputs are exactly the required ones that are not in the inputs; it is solvable exactly when nothing is missing.",
  ["inputs","configurations","histories"],"every config, every subset of inputs provided in any sequence of updates",
  "Tests look at a few configs; exactness is a statement about every name and every combination of layers.",
  [E,C],[("missing-variable guard before evaluation",E+" Equation.evaluate; "+C+" NrwalConfig.evaluate"),("name lists",C+" NrwalConfig.required_inputs, missing_inputs, solvable, all_variables")],None,["required_inputs, missing_inputs, solvable, evaluate"])

p("C12","Self-references and circular references are refused at load time",
  "Creating an equation whose own name is among its variables raises a ValueError. Creating a config in which some entry depends on itself, directly or through any chain of other entries, raises an error before any entry is parsed; every entry of the config is checked, along every chain of references.",
  ["inputs","configurations"],"every dependency graph between entries, every cycle length",
  "Tests contain one or two short cycles; the check must cover every entry and every chain length.",
  [E,C,G],[("own-name check in the constructor",E+" Equation.verify_no_self_reference"),("recursive walk from each entry",C+" NrwalConfig.__init__, _check_circ_ref"),("rewritten equations keep their name",E+" Equation.replace_equation")],None,["Equation(...)","NrwalConfig(...)"])

p("C13","Evaluating a config computes every equation from the current inputs",
  "After a successful evaluation every config entry that is an equation with variables (not a constant of the config) has an output calculated during that call from the inputs as they are now; nothing is carried over from an earlier evaluation, skipped or left unsolved. The returned mapping is the outputs of the config, keyed by entry name.",
  ["histories","inputs"],"every sequence of input updates, evaluations and resets",
  "Tests evaluate once; stale results appear only when the same object is evaluated again with other inputs.",
  [C],[("outputs cleared, then solved in passes until complete",C+" NrwalConfig.evaluate, reset_output, solved, to_be_solved")],[("outputs","results of the current evaluation",C+" NrwalConfig._outputs")],["NrwalConfig.evaluate, outputs"])

p("C14","Results do not depend on hidden shared state, order of use or environment",
  "Two objects built from the same arguments behave the same regardless of what else was built, evaluated or imported before: the package keeps no module-level or class-level mutable state or cache of mutable objects, no mutable default arguments, and uses no randomness, clock or environment. Anything whose order could depend on the file system or on hashing is sorted before it can be observed.",
  ["histories","programs"],"every history of earlier calls in the process and every directory listing order",
  "State leaking between objects needs two unrelated uses in one process; listing order differs between file systems, not between test runs.",
  [E,G,D,C,U],[("no module / class level state",E+", "+G+", "+D+", "+C),("sorted listing and sorted name lists",D+" _parse_eqn_dir; "+E+" parse_variables; "+C+" required_inputs, missing_inputs, all_variables")],None,["results of repeated construction and evaluation"])

p("C15","variables.yaml values reach exactly the objects below them",
  "The values of a variables file apply to every equation, group and directory below the directory that holds it, override values inherited from above, and are overridden by variables files further down; they never affect the directory above or directories beside it. A forced update (as a config does with its constants) overrides the local values at every level.",
  ["configurations","inputs"],"every directory tree and every placement of variables files",
  "Leaks into sibling directories depend on tree shape and listing order; the shipped tree had one that no test noticed.",
  [D,G,E],[("scoped update with a private copy",D+" EquationDirectory.set_default_variables"),("propagation to all members",G+" AbstractGroup.set_default_variables; "+E+" Equation.set_default_variables")],None,["default_variables at every level"])

p("C16","A directory loads exactly its equation files and non-empty subdirectories",
  "A directory object contains one entry per json / yml / yaml file and per non-empty subdirectory, keyed by the file name without extension or by the directory name, and nothing else. Names starting with '.' or '__' are ignored; a variables file becomes a variable group and every other file an equation group; a file that cannot be parsed raises an error.",
  ["inputs","configurations"],"every directory content: kinds of entries, extensions, prefixes, nesting",
  "Tests use fixed directories; the decision is a table over kind, extension, prefix and stem.",
  [D],[("classification of directory entries",D+" EquationDirectory._parse_eqn_dir")],None,["EquationDirectory.keys(), items()"])

p("C17","Content of the wrong type is rejected",
  "Group files accept only text, numbers and nested mappings as values, variables files only numbers, configs only text and numbers; evaluation inputs must be numbers, lists, tuples or arrays; anything else, and any numeric key in a group or config, raises an error instead of being loaded, skipped or coerced. Group and config sources must be mappings or existing json / yml / yaml files.",
  ["inputs"],"every type a value, key or source can have",
  "Tests try one or two wrong types; the statement is about every type and every entry.",
  [E,G,C],[("type guards",G+" AbstractGroup._parse_group, EquationGroup._parse_group, VariableGroup._parse_group; "+C+" NrwalConfig._load_config, _parse_config, inputs; "+E+" Equation._check_input_args")],None,["TypeError / ValueError / AssertionError / FileNotFoundError on load"])

p("C18","References between equations of a group are substituted as whole names",
  "When an equation of a group uses another equation of the same group, that name is replaced by the other equation's full text in brackets, everywhere it occurs as a complete name and nowhere else (never inside a longer name). Substitution is repeated until no reference to the group remains, and keeps the equation's own name and default variables.",
  ["inputs"],"every group in which names may be parts of other names",
  "A name that is part of another name corrupts the formula silently; tests have no such pair.",
  [G,E],[("whole-name substitution to a fixed point",G+" EquationGroup._parse_group"),("rebuilt equation keeps name and defaults",E+" Equation.replace_equation")],None,["Equation.full of group members"])

p("C19","Shipped offshore wind configs use the library entries their names announce",
  "Each shipped offshore wind default config refers to equations of the substructure, turbine rating, cost year and library edition in its file name, uses fixed-bottom entries for monopile / jacket and floating entries for semi / spar, and switches on power and year interpolation. Configs of the same family differ only in those parameters.",
  ["configurations"],"every shipped default config and every reference in it",
  "The tests load the configs; a wrong rating, year or substructure in one reference still loads and evaluates.",
  ["NRWAL/default_configs/osw_2015","NRWAL/default_configs/osw_2019"],[("config entries","NRWAL/default_configs/*/*.yaml")],None,["text of the shipped configs"])

p("C20","Shipped formulas and configs are well formed and fully resolvable",
  "Every shipped library formula is a plain arithmetic expression over names, numbers and numpy functions; every library reference and file pointer in a shipped config names an entry that exists (exactly, or by power / year interpolation where the config asks for it); there are no circular references and no duplicate keys. Every variables file contains only numbers.",
  ["configurations"],"every entry of every shipped library and config file",
  "A misspelt reference silently becomes a new required input instead of failing, and many shipped entries are never loaded by a test.",
  ["NRWAL/analysis_library","NRWAL/default_configs"],[("library formulas","NRWAL/analysis_library/*/*.yaml"),("config references","NRWAL/default_configs/*/*.yaml")],None,["text of the shipped files"])

p("C21","File pointers in a config resolve exactly, relative to their config",
  "A config entry of the form <file>::<key> takes exactly the value of that entry of the file, the path being relative to the directory of the config that contains it (also along chains of pointers); other entries of the pointed file are without effect. A pointer whose file or key does not exist, that is combined with arithmetic, or that occurs in a config not loaded from a file, is refused. The library is the config's equation_directory entry if it has one, and otherwise the shipped library.",
  ["inputs","configurations"],"every config text, pointed file and directory layout",
  "Tests load a handful of shipped configs whose pointers all exist; the shipped configs do not chain pointers across directories.",
  ["NRWAL/handlers/config.py"],[("pointer resolution while parsing a config","NRWAL/handlers/config.py: NrwalConfig"),("choice of the equation directory","NRWAL/handlers/config.py: NrwalConfig")],None,["NrwalConfig entries","NrwalConfig.outputs after eval","exceptions of the constructor"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
