"""Binding to the code under test.  Everything is imported from MC_REPO's working tree."""
import os
import sys
import warnings

HOME = os.environ.get("MC_HOME") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("MC_REPO", "/repo"))


def bind():
    warnings.simplefilter("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import mahjong
    where = os.path.realpath(mahjong.__file__)
    assert where.startswith(REPO + os.sep), "wrong code under test: %s" % where
    quiet()


def quiet():
    import logging
    logging.disable(logging.CRITICAL)
    try:
        from loguru import logger
        logger.remove()
    except Exception:
        pass


def forget():
    """Drop every module of the code under test, so that the next import starts a fresh program."""
    for name in list(sys.modules):
        if name == "mahjong" or name.startswith("mahjong."):
            del sys.modules[name]
