"""Binds the checkers to the implementation under test: /repo's working tree.

Everything is imported from source, never from byte code left by another run.
"""
import os
import sys
import warnings

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/verif-no-pycache"
warnings.simplefilter("ignore")

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)

import aeromet_py  # noqa: E402

if not os.path.realpath(aeromet_py.__file__).startswith(os.path.realpath(REPO) + os.sep):
    print("error: aeromet_py was not imported from", REPO, file=sys.stderr)
    sys.exit(2)

from aeromet_py import Metar, Taf  # noqa: E402
from aeromet_py.reports.models import (  # noqa: E402
    GroupList,
    ParserError,
    RangeError,
)
