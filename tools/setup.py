"""Checks that the tools are there and that every monitor builds."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if not shutil.which("go", path="/usr/local/bin:" + os.environ.get("PATH", "")):
    sys.exit("setup: no go toolchain")
if sys.version_info < (3, 8):
    sys.exit("setup: python too old")
env = dict(os.environ, PATH="/usr/local/bin:" + os.environ.get("PATH", ""), GOTOOLCHAIN="local")
print(subprocess.run(["go", "version"], env=env, stdout=subprocess.PIPE, text=True).stdout.strip())
