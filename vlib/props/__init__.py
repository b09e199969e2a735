import importlib


def load(pid):
    return importlib.import_module('vlib.props.' + pid.lower()).PROP()
