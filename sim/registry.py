"""property id -> scenario"""
import importlib

WHERE = {"C01": "shared", "C02": "shared", "C03": "shared", "C08": "models", "C09": "models",
         "C10": "models", "C11": "models", "C15": "models", "C25": "models", "C07": "hull",
         "C12": "streams", "C04": "alias", "C05": "state", "C06": "state", "C13": "imports",
         "C14": "ambient", "C26": "durable"}
_cache = {}


def get(pid):
    if pid not in _cache:
        module = importlib.import_module("sim.scenarios." + WHERE[pid])
        _cache[pid] = getattr(module, pid)()
    return _cache[pid]
