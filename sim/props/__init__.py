"""The properties' simulations, by id."""
import importlib

_WHERE = {
    "C01": "exact", "C02": "exact", "C03": "exact", "C05": "exact", "C06": "exact",
    "C04": "labels", "C07": "faults", "C08": "faults", "C09": "history",
    "C10": "interrupts", "C11": "readonly", "C12": "resolve", "C13": "scaling",
    "C14": "dumping", "C15": "threads", "C16": "leaks", "C17": "same",
    "C18": "tracking",
}


def get(pid):
    m = importlib.import_module("sim.props." + _WHERE[pid])
    return getattr(m, pid)()
