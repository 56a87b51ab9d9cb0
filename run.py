"""Entry point of every check:  python3-vt run.py C01 [--replay FILE] [--tier quick|thorough]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") in (None, "random"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.setdefault("PYTHONWARNINGS", "ignore")
    for _k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[_k] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.harness import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
