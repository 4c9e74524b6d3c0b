"""setup_cmd: the checks need nothing built; make sure the interpreter and the target can be used."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
sys.exit(subprocess.run([sys.executable, os.path.join(HERE, 'run.py'), '--sanity']).returncode)
