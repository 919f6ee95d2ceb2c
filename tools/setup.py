"""setup_cmd: nothing to install; shows that the interpreter, gcc and the tree are usable."""
import os
import shutil
import subprocess
import sys
assert os.path.exists('/opt/venv/bin/python')
assert shutil.which('gcc')
assert os.path.exists('/repo/Cheetah/Template.py')
print(sys.version)
subprocess.check_call(['gcc', '--version'])
