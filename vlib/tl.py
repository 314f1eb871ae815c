"""The system under test: only its public API is driven."""
import contextlib
import io
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
if os.path.exists("langspec.json"):
    os.chdir("/")           # tealish picks up ./langspec.json

import tealish  # noqa: E402
from tealish.errors import CompileError, ParseError  # noqa: E402


class Violation(Exception):
    """the property does not hold; kind names the way it fails (kept while shrinking)"""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


class Skip(Exception):
    """the case decides nothing (e.g. the reference leaves its result open)"""


class Rejected(Exception):
    pass


@contextlib.contextmanager
def silence():
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield o


def call(fn, *a, what="compile"):
    """result of fn, Rejected for a ParseError/CompileError, Violation for anything else"""
    try:
        with silence():
            return fn(*a)
    except (ParseError, CompileError) as e:
        raise Rejected(f"{type(e).__name__}: {e}") from None
    except Violation:
        raise
    except MemoryError:
        raise Violation("crash", f"{what} raised MemoryError")
    except (Exception, SystemExit) as e:
        raise Violation("crash", f"{what} raised {type(e).__name__}: {str(e)[:300]}") from None


def compile_program(src):
    return call(tealish.compile_program, src)


def reformat(src):
    return call(tealish.reformat_program, src, what="reformat")


def inspect(src):
    return call(tealish.inspect_program, src, what="inspect")


def compile_ok(src):
    """compile a program that must be accepted"""
    try:
        return compile_program(src)
    except Rejected as e:
        raise Violation("rejected", f"a valid program is rejected: {e}") from None
