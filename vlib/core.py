"""What a property module and the runner share."""
from __future__ import annotations

import hashlib
import json
import os
import sys
import traceback

HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, code, msg=""):
        super().__init__(f"{code}: {msg}")
        self.code, self.msg = code, str(msg)


class Reject(Exception):
    """The generated case is outside the property's precondition."""


class Hang(BaseException):
    """A case used up its processor-time allowance."""


def dumps(spec) -> str:
    return json.dumps(spec, sort_keys=True, separators=(",", ":"))


def digest(spec) -> str:
    return hashlib.sha1(dumps(spec).encode()).hexdigest()[:12]


def setup_paths():
    if HYP not in sys.path:
        sys.path.append(HYP)
    sys.dont_write_bytecode = True


def from_repo(exc: BaseException) -> bool:
    """Did the exception pass through code under test?"""
    for f, _ in traceback.walk_tb(exc.__traceback__):
        if os.path.realpath(f.f_code.co_filename).startswith(REPO_SRC):
            return True
    return False


def where(exc: BaseException) -> str:
    last = ""
    for f, line in traceback.walk_tb(exc.__traceback__):
        fn = os.path.realpath(f.f_code.co_filename)
        if fn.startswith(REPO_SRC):
            last = f"{os.path.relpath(fn, REPO_SRC)}:{line} in {f.f_code.co_name}"
    return last


def guarded(run_case, spec):
    """run_case, with exceptions out of the code under test turned into violations."""
    try:
        return run_case(spec)
    except (Violation, Reject):
        raise
    except Hang:
        raise Violation("nontermination", "the case used up its processor time") from None
    except RecursionError as e:
        raise Violation("exception", f"RecursionError at {where(e)}") from e
    except Exception as e:
        if from_repo(e):
            raise Violation("exception", f"{type(e).__name__}: {e} at {where(e)}") from e
        raise
