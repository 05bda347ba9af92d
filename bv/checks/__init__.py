import importlib


def load(prop):
    return importlib.import_module('bv.checks.' + prop.lower()).CHECK
