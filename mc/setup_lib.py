"""Imports the library under test from the working tree of /repo."""
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')


def load():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import doatools
    here = os.path.realpath(doatools.__file__)
    if not here.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('doatools imported from %s, not from %s' % (here, REPO))
    return doatools


def reset():
    import numpy as np
    np.random.seed(0)
