"""Make hypothesis importable next to the code under test, offline."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
DEPS = os.path.join(ROOT, ".deps")
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
NAMES = ["hypothesis", "_hypothesis_globals.py", "_hypothesis_ftz_detector.py",
         "sortedcontainers"]


def ensure():
    if not os.path.isfile(os.path.join(DEPS, "hypothesis", "__init__.py")):
        os.makedirs(DEPS, exist_ok=True)
        for n in NAMES:
            src, dst = os.path.join(SITE, n), os.path.join(DEPS, n)
            if os.path.exists(src) and not os.path.lexists(dst):
                try:
                    os.symlink(src, dst)
                except FileExistsError:
                    pass
    if not os.path.isfile(os.path.join(DEPS, "hypothesis", "__init__.py")):
        import glob
        import zipfile
        for pat in ("hypothesis-*-cp312-*.whl", "sortedcontainers-*.whl"):
            for w in glob.glob(os.path.join(WHEELS, pat)):
                zipfile.ZipFile(w).extractall(DEPS)
    if DEPS not in sys.path:
        sys.path.append(DEPS)


if __name__ == "__main__":
    ensure()
    import hypothesis
    print("hypothesis", hypothesis.__version__, "ready")
