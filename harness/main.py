import importlib
import logging
import os
import shutil
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
from common import Ctx, MachineryError  # noqa: E402


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    ctx = Ctx(pid, tier)
    try:
        import otpod

        assert os.path.realpath(otpod.__file__).startswith(REPO + "/"), otpod.__file__
        mod = importlib.import_module(pid.lower())
        rc = mod.run(ctx)
        if rc is None:
            rc = ctx.finish()
    except BaseException:
        traceback.print_exc()
        if ctx.violations:      # a self-test that needs sound records, for instance
            rc = ctx.finish()
        else:
            shutil.rmtree(ctx.scratch, ignore_errors=True)
            rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
