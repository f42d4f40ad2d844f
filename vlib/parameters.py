"""What EPREM's parameters are: an independent copy of the facts, and a small
evaluator of the C expressions that define their default values."""
import json
import math
import os
import re

with open(os.path.join(os.path.dirname(__file__), 'parameters.json')) as _f:
    _FACTS = json.load(_f)

CONSTANTS = _FACTS['constants']
PARAMETERS = _FACTS['parameters']
TYPES = {'int': int, 'float': float, 'str': str, 'list': list}
SPECIAL = {'N_PROCS': None, 'third': 1 / 3}


NUMBER = re.compile(r'(?<![\w.])(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?')


class _Names(dict):
    def __init__(self, lookup):
        super().__init__()
        self._lookup = lookup

    def __missing__(self, key):
        return self._lookup(key)


def arithmetic(text, lookup):
    """The value of a C expression; `lookup` gives the value of a name."""
    text = text.replace('config.', '').strip()
    text = NUMBER.sub(lambda m: repr(float(m[0])), text)
    return eval(text, {'__builtins__': {}},
                _Names(lambda k: math.sqrt if k == 'sqrt' else lookup(k)))


class Model:
    """The values of constants and parameters with these definitions."""

    def __init__(self, constants=None, parameters=None):
        self.constants = {k: v['raw'] for k, v in CONSTANTS.items()} \
            if constants is None else constants
        self.parameters = {k: (v['type'], v['raw'])
                           for k, v in PARAMETERS.items()} \
            if parameters is None else parameters

    def constant(self, name):
        value = arithmetic(self.constants[name], self.constant)
        kind = CONSTANTS.get(name, {}).get('type')
        return int(value) if kind == 'int' else float(value)

    def lookup(self, name):
        if name in SPECIAL:
            return SPECIAL[name]
        if name in self.parameters:
            return self.default(name)
        return self.constant(name)

    def default(self, name):
        """The default value of a parameter."""
        kind, raw = self.parameters[name]
        if kind == 'str':
            return raw
        if kind == 'list':
            inner = raw.strip('[]').strip()
            return [arithmetic(i.strip(), self.lookup)
                    for i in inner.split(',')] if inner else []
        if raw in SPECIAL:
            return SPECIAL[raw]
        value = arithmetic(raw, self.lookup)
        return int(value) if kind == 'int' else float(value)
