C = 'NRWAL/handlers/config.py'
POP = "        if 'equation_directory' not in config:\n            msg = ('NrwalConfig using default \"equation_directory\": {}'\n                   .format(cls.DEFAULT_DIR))\n            logger.info(msg)\n            config['equation_directory'] = cls.DEFAULT_DIR\n\n        eqn_dir = config.pop('equation_directory')\n"
ITEMS = [('*', 'R pop default', 0, [(C, POP, "        eqn_dir = config.pop('equation_directory', cls.DEFAULT_DIR)\n")])]
