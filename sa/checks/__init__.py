import importlib


def get(prop):
    return importlib.import_module("sa.checks." + prop.lower())
