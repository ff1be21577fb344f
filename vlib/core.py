"""Shared pieces of the checks: legs, violations, and the import of the code under test."""
import os, sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import tqdm as _tqdm
_tqdm.tqdm.write = lambda *a, **k: None


class Violation(Exception):
    """The property does not hold on this case."""


class Leg:
    """One generated check: a strategy of JSON-able cases and a function deciding a case.

    run(case) raises Violation, or returns None (trivial case) or a list of class tags (non-trivial case).
    """
    def __init__(self, name, strategy, run, quick, thorough, hang_is_violation=False, cpu_limit=120):
        self.name, self.strategy, self.run = name, strategy, run
        self.n = {"quick": quick, "thorough": thorough}
        self.hang_is_violation = hang_is_violation
        self.cpu_limit = cpu_limit


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)
