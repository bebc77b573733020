"""Fixed execution environment: one FFT thread, estimated plans."""
import warnings


def setup():
    import numpy as np
    from mc import fakempi
    fakempi.install()
    warnings.simplefilter('ignore')
    warnings.showwarning = lambda *a, **k: None
    np.seterr(all='ignore')
    import sporco.fft as sfft
    sfft.pyfftw_threads = 1
    sfft.pyfftw_planner_effort = 'FFTW_ESTIMATE'
    try:
        import numexpr as ne
        ne.set_num_threads(1)
    except Exception:
        pass


def without(mod, pkg):
    """A fresh import of package `pkg` made while module `mod` cannot be
    imported; sys.modules is left as it was."""
    import sys
    import importlib
    saved = {k: m for k, m in sys.modules.items()
             if k == pkg or k.startswith(pkg + '.') or k == mod or
             k.startswith(mod + '.')}
    for k in saved:
        del sys.modules[k]
    sys.modules[mod] = None
    parent, _, leaf = pkg.rpartition('.')
    try:
        new = importlib.import_module(pkg)
    finally:
        for k in [k for k in sys.modules
                  if k == pkg or k.startswith(pkg + '.') or k == mod]:
            del sys.modules[k]
        sys.modules.update(saved)
        if parent and pkg in saved:
            setattr(sys.modules[parent], leaf, saved[pkg])
    return new
