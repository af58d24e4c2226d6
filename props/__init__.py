import importlib
MODULES = {}

def load(pid):
    from . import index
    importlib.import_module('props.' + index.WHERE[pid])
