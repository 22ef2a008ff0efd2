G = 'NRWAL/handlers/groups.py'
LINE = "                out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y1\n"
XS = "                x1, x3 = nn_values[0:2]\n                y1, y3 = nn_eqns[0:2]\n"
PS = '''            if any(eqn_keys):
                eqn_pow_diffs = np.abs(req_mw - np.array(eqn_powers))
                indices = np.argsort(eqn_pow_diffs)
                eqn_keys = list(np.array(eqn_keys)[indices])
                eqn_powers = list(np.array(eqn_powers)[indices])
'''
YS = '''            if any(eqn_keys):
                eqn_pow_diffs = np.abs(req_yr - np.array(eqn_years))
                indices = np.argsort(eqn_pow_diffs)
                eqn_keys = list(np.array(eqn_keys)[indices])
                eqn_years = list(np.array(eqn_years)[indices])
'''
PL = '''            for key in group.keys():
                match_mw, match_base = self._parse_power(key)
                if match_mw is not None and base_str == match_base:
                    eqn_keys.append(key)
                    eqn_powers.append(match_mw)

'''
COND = '''            elif (len(nn_eqns) > 1
                    and (self._interp_extrap_power
                         and self.is_power_eqn(eqn_key)
                         or self._interp_extrap_year
                         and self.is_year_eqn(eqn_key))):
'''
ELSE = '''            else:
                msg = ('Could not retrieve equation key "{}", '
                       'could not find "{}" in last available keys: {}'
                       .format(key, eqn_key, list(out.keys())))
                logger.error(msg)
                raise KeyError(msg)
'''
NNP = '''            if ((self._interp_extrap_power or self._use_nearest_power)
                    and self.is_power_eqn(eqn_key)):
'''
NNY = '''            elif ((self._interp_extrap_year or self._use_nearest_year)
                    and self.is_year_eqn(eqn_key)):
'''
ITEMS = [
 ('C08', 'swap', 1, [(G, LINE, "                out = (y3 - y1) * (eqn_value - x3) / (x3 - x1) + y1\n")]),
 ('C08', 'plus y3', 1, [(G, LINE, "                out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y3\n")]),
 ('C08', 'clamp', 1, [(G, LINE, "                frac = min(max((eqn_value - x1) / (x3 - x1), 0), 1)\n                out = (y3 - y1) * frac + y1\n")]),
 ('C08', 'sorted pair sign', 1, [(G, LINE, "                out = (y3 - y1) * (eqn_value - x1) / abs(x3 - x1) + y1\n")]),
 ('C08', 'first and last', 1, [(G, XS, "                x1, x3 = nn_values[0], nn_values[-1]\n                y1, y3 = nn_eqns[0], nn_eqns[-1]\n")]),
 ('C08', 'floor', 1, [(G, LINE, "                out = (y3 - y1) * ((eqn_value - x1) // (x3 - x1)) + y1\n")]),
 ('C08', 'no abs year', 1, [(G, "np.abs(req_yr - np.array(eqn_years))", "req_yr - np.array(eqn_years)")]),
 ('C08', 'no sort', 1, [(G, YS, "")]),
 ('C08', 'keys not sorted', 1, [(G, "                eqn_keys = list(np.array(eqn_keys)[indices])\n                eqn_powers", "                eqn_powers")]),
 ('C08', 'base prefix', 1, [(G, "if match_mw is not None and base_str == match_base:", "if match_mw is not None and match_base.startswith(base_str):")]),
 ('C08', 'base in', 1, [(G, "if match_yr and base_str == match_base:", "if match_yr and base_str in match_base:")]),
 ('C08', 'strings sort', 1, [(G, PS, "            eqn_keys = sorted(eqn_keys)\n            eqn_powers = [self._parse_power(k)[0] for k in eqn_keys]\n")]),
 ('C08', 'flag swapped', 1, [(G, "self._interp_extrap_power\n                         and self.is_power_eqn(eqn_key)", "self._interp_extrap_year\n                         and self.is_power_eqn(eqn_key)")]),
 ('C08', 'flags or', 1, [(G, COND, "            elif (len(nn_eqns) > 1 and (self._interp_extrap_power\n                                        or self._interp_extrap_year)):\n")]),
 ('C08', 'nearest flag year dropped', 1, [(G, NNY, "            elif (self._interp_extrap_year\n                    and self.is_year_eqn(eqn_key)):\n")]),
 ('C08', 'power flag for year', 1, [(G, NNY, "            elif ((self._interp_extrap_year or self._use_nearest_power)\n                    and self.is_year_eqn(eqn_key)):\n")]),
 ('C08', 'ge 1', 1, [(G, "            elif (len(nn_eqns) > 1\n", "            elif (len(nn_eqns) > 2\n")]),
 ('C08', 'valueerror', 1, [(G, "                logger.error(msg)\n                raise KeyError(msg)\n\n        return out", "                logger.error(msg)\n                raise ValueError(msg)\n\n        return out")]),
 ('C08', 'interp before exact', 1, [(G, "            if eqn_key in out:\n                out = out[eqn_key]\n\n            elif (len(nn_eqns) > 1\n", "            if eqn_key in out and not nn_eqns:\n                out = out[eqn_key]\n\n            elif (len(nn_eqns) > 1\n")]),
 ('C08', 'regex two digits', 1, [(G, "re.search('_[0-9]+MW$', key", "re.search('_[0-9]{1,2}MW$', key")]),
 ('C08', 'regex no end', 1, [(G, "re.search('_[1-2][0-9]{3}$', key", "re.search('_[1-2][0-9]{3}', key")]),
 ('C08', 'regex 20xx', 1, [(G, "re.search('_[1-2][0-9]{3}$', key", "re.search('_20[0-9]{2}$', key")]),
 ('C08', 'case', 1, [(G, "re.search('_[0-9]+MW$', key, flags=re.IGNORECASE)", "re.search('_[0-9]+MW$', key)")]),
 ('C08', 'strip base', 1, [(G, "base_str = key[:power.start()]", "base_str = key.rstrip(power.group(0))")]),
 ('C08', 'nearest last', 1, [(G, "                out = nn_eqns[0]\n", "                out = nn_eqns[-1]\n")]),
 ('C08', 'all levels', 1, [(G, "        if i == (len(keys) - 1):\n", "        if i <= (len(keys) - 1):\n")]),
 ('C08', 'parent group', 1, [(G, "self.find_nearest_year_eqns(eqn_key, group=group)", "self.find_nearest_year_eqns(eqn_key)")]),
 ('C08', 'float year int div', 1, [(G, LINE, "                out = (y3 - y1) * int((eqn_value - x1) / (x3 - x1)) + y1\n")]),
 # kept behaviour
 ('C08', 'other form', 0, [(G, LINE, "                slope = (y3 - y1) / (x3 - x1)\n                out = y1 + slope * (eqn_value - x1)\n")]),
 ('C08', 'weights', 0, [(G, LINE, "                frac = (eqn_value - x1) / (x3 - x1)\n                out = y1 * (1 - frac) + y3 * frac\n")]),
 ('C08', 'anchor y3', 0, [(G, LINE, "                out = (y1 - y3) * (eqn_value - x3) / (x1 - x3) + y3\n")]),
 ('C08', 'helper line', 0, [(G, XS + LINE, "                out = self._line(eqn_value, nn_values, nn_eqns)\n"), (G, "    def __getitem__(self, key):\n        \"\"\"Retrieve a nested Equation or", '''    @staticmethod
    def _line(value, xs, ys):
        """Straight line through the first two points"""
        rise = ys[1] - ys[0]
        run = xs[1] - xs[0]
        return rise * (value - xs[0]) / run + ys[0]

    def __getitem__(self, key):
        """Retrieve a nested Equation or''')]),
 ('C08', 'sorted zip', 0, [(G, PS, '''            pairs = sorted(zip(eqn_keys, eqn_powers),
                           key=lambda x: abs(req_mw - x[1]))
            eqn_keys = [p[0] for p in pairs]
            eqn_powers = [p[1] for p in pairs]
''')]),
 ('C08', 'sort tuples', 0, [(G, PL + PS, '''            found = []
            for key in group.keys():
                match_mw, match_base = self._parse_power(key)
                if match_mw is None or base_str != match_base:
                    continue
                found.append((abs(match_mw - req_mw), match_mw, key))
            found.sort()
            eqn_keys = [x[2] for x in found]
            eqn_powers = [x[1] for x in found]
''')]),
 ('C08', 'argsort list', 0, [(G, PS, '''            diffs = [abs(req_mw - p) for p in eqn_powers]
            order = sorted(range(len(diffs)), key=lambda j: diffs[j])
            eqn_keys = [eqn_keys[j] for j in order]
            eqn_powers = [eqn_powers[j] for j in order]
''')]),
 ('C08', 'argsort method', 0, [(G, PS, '''            if eqn_keys:
                order = np.abs(np.array(eqn_powers) - req_mw).argsort()
                eqn_keys = [eqn_keys[j] for j in order]
                eqn_powers = [eqn_powers[j] for j in order]
''')]),
 ('C08', 'shared search', 0, [(G, "        eqn_keys = []\n        eqn_powers = []\n        if group is None:\n            group = self._group\n\n        req_mw, base_str = self._parse_power(request)\n        if req_mw is not None:\n" + PL + PS + "\n        eqns = [group[k] for k in eqn_keys]\n\n        return eqns, eqn_powers\n", '''        return self._find_nearest(request, self._parse_power, group)

    def _find_nearest(self, request, parse, group=None):
        """Entries with the same base name, sorted by distance"""
        eqn_keys = []
        values = []
        if group is None:
            group = self._group

        req, base = parse(request)
        if req is not None:
            for key in group.keys():
                value, match_base = parse(key)
                if value is not None and base == match_base:
                    eqn_keys.append(key)
                    values.append(value)

            if any(eqn_keys):
                indices = np.argsort(np.abs(req - np.array(values)))
                eqn_keys = list(np.array(eqn_keys)[indices])
                values = list(np.array(values)[indices])

        return [group[k] for k in eqn_keys], values
''')]),
 ('C08', 'bool is_power', 0, [(G, "        out = False\n        if cls._parse_power(key)[0] is not None:\n            out = True\n\n        return out\n", "        return cls._parse_power(key)[0] is not None\n")]),
 ('C08', 'cond split', 0, [(G, COND, '''            elif len(nn_eqns) > 1 and self._do_interp(eqn_key):
'''), (G, "    def __getitem__(self, key):\n        \"\"\"Retrieve a nested Equation or", '''    def _do_interp(self, eqn_key):
        """Is interpolation on for this kind of key?"""
        if self.is_power_eqn(eqn_key):
            return self._interp_extrap_power
        if self.is_year_eqn(eqn_key):
            return self._interp_extrap_year
        return False

    def __getitem__(self, key):
        """Retrieve a nested Equation or''')]),
 ('C08', 'regex group', 0, [(G, "        power = re.search('_[0-9]+MW$', key, flags=re.IGNORECASE)\n", "        power = re.search(r'_(\\d+)MW$', key, flags=re.IGNORECASE)\n"), (G, "            power = float(power.group(0).upper().replace('MW', '').lstrip('_'))\n", "            power = float(power.group(1))\n")]),
 ('C08', 'early return', 0, [(G, "        if i == (len(keys) - 1):\n", "        if i != (len(keys) - 1):\n            return nn_eqns, nn_values, eqn_value\n\n        if True:\n")]),
 ('C08', 'guard clause', 0, [(G, ELSE, '''            else:
                self._not_found(key, eqn_key, out)
'''), (G, "    def __getitem__(self, key):\n        \"\"\"Retrieve a nested Equation or", '''    @staticmethod
    def _not_found(key, eqn_key, available):
        """Raise the error for a key that cannot be retrieved"""
        msg = ('Could not retrieve equation key "{}", '
               'could not find "{}" in last available keys: {}'
               .format(key, eqn_key, list(available.keys())))
        logger.error(msg)
        raise KeyError(msg)

    def __getitem__(self, key):
        """Retrieve a nested Equation or''')]),
 ('C08', 'split always', 0, [(G, "        if '::' in str(key):\n            keys = key.split('::')\n        else:\n            keys = [key]\n\n        keys = [str(k) for k in keys]\n        out = self._group\n", "        keys = str(key).split('::')\n        out = self._group\n")]),
 ('C08', 'two lists comprehension', 0, [(G, PL, '''            parsed = [(key,) + self._parse_power(key) for key in group.keys()]
            eqn_keys = [k for k, mw, base in parsed
                        if mw is not None and base == base_str]
            eqn_powers = [mw for _, mw, base in parsed
                          if mw is not None and base == base_str]

''')]),
]
