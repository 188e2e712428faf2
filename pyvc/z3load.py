"""Import z3 from the tooling venv without letting its other packages shadow the ones tf2onnx runs with."""
import sys
_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
def _load():
    try:
        import z3  # noqa
        return z3
    except ImportError:
        pass
    sys.path.insert(0, _P)
    try:
        import z3  # noqa
    finally:
        sys.path.remove(_P)
    return z3
z3 = _load()
