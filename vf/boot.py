"""Process set-up: where the code under test and Hypothesis are imported from, and silence."""
import importlib.abc
import importlib.machinery
import os
import sys
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
ALLOWED = ('hypothesis', 'sortedcontainers', 'attr', 'attrs', '_hypothesis_ftz_detector', '_hypothesis_pytestplugin',
           '_hypothesis_globals')


class _HypFinder(importlib.abc.MetaPathFinder):
    """Loads Hypothesis (and nothing else) from the tool environment."""

    def find_spec(self, name, path, target=None):
        if name in ALLOWED:
            return importlib.machinery.PathFinder.find_spec(name, [HYP])
        return None


def setup():
    warnings.filterwarnings('ignore')
    sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa
    except ImportError:
        sys.meta_path.append(_HypFinder())
        import hypothesis  # noqa
    os.environ.setdefault('MPLBACKEND', 'agg')


class devnull_fds(object):
    """Sends file descriptors 1 and 2 to /dev/null inside the block."""

    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush()
        self.saved = [os.dup(1), os.dup(2)]
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1); os.dup2(dn, 2); os.close(dn)

    def __exit__(self, *a):
        try:
            sys.stdout.flush(); sys.stderr.flush()
        except Exception:
            pass
        os.dup2(self.saved[0], 1); os.dup2(self.saved[1], 2)
        os.close(self.saved[0]); os.close(self.saved[1])
