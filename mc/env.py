"""Process set-up shared by all checks: quiet, deterministic, importing /repo's working tree."""

import logging
import os
import platform
import sys
import warnings

REPO = os.environ.get("MC_REPO", "/repo")


def prepare():
    """imports the implementation from the working tree and silences its output"""
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    # docplex starts a process (file -b python) for every model to learn the word size of the host
    arch = platform.architecture()
    platform.architecture = lambda *_a, **_k: arch
    import qiskit_optimization  # noqa: F401

    path = os.path.abspath(qiskit_optimization.__file__)
    if not path.startswith(os.path.abspath(REPO) + os.sep):
        print("wrong implementation imported:", path)
        sys.exit(2)
    warnings.simplefilter("ignore")
