"""setup_cmd: nothing is installed; only confirms that what the checks need is present."""
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py = "/opt/venv/bin/python"
code = (
    f"import sys; sys.path.insert(0, {here!r})\n"
    "from pbt.env import setup_environment; setup_environment()\n"
    "import hypothesis, b_asic, apytypes, numpy, scipy; print('ok', hypothesis.__version__)\n"
)
sys.exit(subprocess.call([py, "-c", code]))
