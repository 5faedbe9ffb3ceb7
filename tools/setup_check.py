"""Nothing to build: makes sure that the interpreter and the package are there"""
import os
import subprocess
import sys

PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
sys.exit(subprocess.call([PYTHON, '-c', 'import numpy, sys; assert sys.version_info >= (3, 12); '
                                        'assert __import__("os").path.isdir("/repo/scrappybara"); print("ready")']))
