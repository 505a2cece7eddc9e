"""Access to the real code: /repo's working tree, imported quietly."""
import contextlib
import io
import os
import sys
import warnings

warnings.filterwarnings("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    import exorad  # noqa: F401
assert os.path.realpath(exorad.__file__).startswith(os.path.realpath(REPO) + os.sep), exorad.__file__
import logging

import numpy as np  # noqa: F401
from astropy import units as u  # noqa: F401

np.seterr(all="ignore")


def quiet(level=logging.CRITICAL):
    from exorad.log.logger import root_logger
    for h in root_logger.handlers:
        if isinstance(h, logging.StreamHandler):
            h.setLevel(level)


@contextlib.contextmanager
def hush():
    """swallow prints of the code under test"""
    with contextlib.redirect_stdout(io.StringIO()):
        yield
