"""Make `hypothesis` importable (it is not part of the repository's environment)."""

import glob
import os
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, ".deps")
WHEELS = "/opt/veriftools/wheels"
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def ensure() -> None:
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    marker = os.path.join(DEPS, "hypothesis", "__init__.py")
    if not os.path.exists(marker):
        tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
        patterns = [f"hypothesis-*-{tag}-*.whl", "sortedcontainers-*.whl"]
        wheels = [
            w
            for pattern in patterns
            for w in sorted(glob.glob(os.path.join(WHEELS, pattern)))[-1:]
        ]
        if len(wheels) == 2:
            tmp = tempfile.mkdtemp(prefix=".deps-", dir=HERE)
            for w in wheels:
                with zipfile.ZipFile(w) as z:
                    z.extractall(tmp)
            try:
                os.rename(tmp, DEPS)
            except OSError:  # somebody else was faster
                sys.path.append(tmp)
    if os.path.exists(marker):
        sys.path.append(DEPS)
    else:
        sys.path.append(SITE)
