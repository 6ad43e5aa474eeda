"""setup_cmd: nothing to build; fail early if a tool is missing."""
from . import smt  # noqa: F401
from . import model  # noqa: F401

print("z3", smt.z3.get_version_string(), "ok")
