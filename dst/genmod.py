"""Design descriptions are written out as ordinary Python source (as a user
would write them) and imported, so that veriloggen's thread compiler, which
reads function source, sees real code."""
import importlib.util
import os
import sys

_n = [0]


def load(src, wd='.'):
    _n[0] += 1
    name = 'gen_design_%d' % _n[0]
    path = os.path.join(os.path.abspath(wd), name + '.py')
    with open(path, 'w') as f:
        f.write(src)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


HEADER = '''from veriloggen import *
import veriloggen.thread as vthread
import veriloggen.types.axi as axi
import veriloggen
'''


def indent(lines, n):
    return '\n'.join(' ' * n + l for l in lines)
