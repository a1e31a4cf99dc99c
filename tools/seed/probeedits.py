"""The edits of an experiment of probes/*.py, as add.py wants them."""
import importlib.util
import os

D = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probes')


def edits(name):
    for f in sorted(os.listdir(D)):
        if f.endswith('.py'):
            spec = importlib.util.spec_from_file_location('p', os.path.join(D, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            if name in m.P:
                return {'webauthn_rp/' + k: v for k, v in m.P[name][1].items()}
    raise KeyError(name)
