#!/opt/venv/bin/python
"""run.py C01: decide one property on the current /repo."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    if pid == '--self-test':
        # the machinery needs no build: it has to be importable, and its term algebra has to work
        from absint import terms as T
        x = T.sym('x', False)
        assert T.pmul(T.padd(x, T.ONE), T.psub(x, T.ONE)) is T.psub(T.pmul(x, x), T.ONE)
        from absint import interp    # noqa
        print('ready')
        return 0
    m = importlib.import_module('checks.' + pid.lower())
    from checks import core
    return core.main(pid, m.TITLE, m.units(), m.MINIMUM, getattr(m, 'ASSUMPTIONS', ()), getattr(m, 'RULE', ''))


if __name__ == '__main__':
    sys.exit(main())
