import importlib

WHERE = {
    "V": "checks_values",
    "T": "checks_tables",
    "E": "checks_encode",
    "R": "checks_decode",
    "S": "checks_session",
    "D": "checks_daemon",
    "D06": "checks_whole",
    "R09": "checks_link",
    "R10": "checks_link",
    "E06": "checks_link",
    "S08": "checks_growth",
    "D07": "checks_growth",
    "R11": "checks_text",
    "S09": "checks_host",
    "S10": "checks_host",
}


def find(pid):
    m = importlib.import_module("mon." + (WHERE.get(pid) or WHERE[pid[0]]))
    return getattr(m, pid)
