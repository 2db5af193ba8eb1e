"""Front end: parses the repository's current .pyx / .py sources with Cython's own parser."""
import importlib.util, os, sys
from io import StringIO

REPO = os.environ.get('VERIF_REPO', '/repo')
CY = '/opt/pypyvenv/lib/pypy3.9/site-packages/Cython'


def _load_cython():
    if 'Cython' in sys.modules:
        return
    spec = importlib.util.spec_from_file_location('Cython', os.path.join(CY, '__init__.py'), submodule_search_locations=[CY])
    m = importlib.util.module_from_spec(spec)
    sys.modules['Cython'] = m
    spec.loader.exec_module(m)


_load_cython()
sys.setrecursionlimit(200000)
import warnings
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    from Cython.Compiler import Parsing, Errors
    from Cython.Compiler.Scanning import StringSourceDescriptor, PyrexScanner
    from Cython.Compiler.TreeFragment import StringParseContext
    from Cython.Compiler.Visitor import TreeVisitor

PATHS = {
    'acv_explainers.utils': 'acv_explainers/utils.py',
    'acv_explainers.utils_cr': 'acv_explainers/utils_cr.py',
    'acv_explainers.utils_sdp': 'acv_explainers/utils_sdp.py',
    'acv_explainers.utils_exp': 'acv_explainers/utils_exp.py',
    'acv_explainers.py_acv': 'acv_explainers/py_acv.py',
    'acv_explainers.base_tree': 'acv_explainers/base_tree.py',
    'acv_explainers.base_agnostree': 'acv_explainers/base_agnostree.py',
    'acv_explainers.acv_tree': 'acv_explainers/acv_tree.py',
    'acv_explainers.acv_agnosticX': 'acv_explainers/acv_agnosticX.py',
    'acv_explainers.counterfactual_rules': 'acv_explainers/counterfactual_rules.py',
    'cyext_acv': 'acv_explainers/cyext_acv/cyext_acv.pyx',
    'cyext_acv_nopa': 'acv_explainers/cyext_acv/cyext_acv_nopa.pyx',
    'cyext_acv_cache': 'acv_explainers/cyext_acv/cyext_acv_cache.pyx',
}


def parse_source(src, name):
    mod = 'm_' + ''.join(ch if ch.isalnum() else '_' for ch in name)
    context = StringParseContext(mod)
    scope = context.find_module(mod, pos=(mod, 1, 0), need_pxd=False)
    sd = StringSourceDescriptor(name, src)
    sc = PyrexScanner(StringIO(src), sd, source_encoding='UTF-8', scope=scope, context=context, initial_pos=(sd, 1, 0))
    return Parsing.p_module(sc, 0, mod)


def path_of(modname):
    return os.path.join(REPO, PATHS[modname])


def src_of(modname):
    with open(path_of(modname), encoding='utf8') as f:
        return f.read()
