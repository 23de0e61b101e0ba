import argparse
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

from mon import core  # noqa: E402


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    p.add_argument("--case")
    a = p.parse_args()
    only = None
    if a.case:
        s, _, i = a.case.rpartition(":")
        only = (s, int(i))
    try:
        import knx_stack

        where = os.path.realpath(knx_stack.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise ImportError("knx_stack comes from %s" % where)
    except Exception as e:
        if a.property[0] != "D":  # the daemon checks do not need it
            print("NO ANSWER property=%s can not import the code: %r" % (a.property, e))
            return 2
    logging.getLogger().addHandler(logging.NullHandler())
    from mon import registry

    try:
        fn = registry.find(a.property)
    except Exception as e:
        print("NO ANSWER property=%s the code is not as expected: %r" % (a.property, e))
        return 2
    return core.run_check(fn, a.property, a.tier, a.seed, only)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
