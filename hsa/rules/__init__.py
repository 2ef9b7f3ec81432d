import importlib
import os


def load_all():
    d = os.path.dirname(__file__)
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("hsa.rules." + f[:-3])
