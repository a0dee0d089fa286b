#!/opt/venv/bin/python
"""run.py <property id> [thorough]   run a check against /repo's working tree
   run.py replay <file>              run the case of a replay file again
   run.py setup                      build every variant for the current tree"""
import os, sys
if os.path.realpath(sys.prefix) != '/opt/venv' and os.path.exists('/opt/venv/bin/python'):
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.dont_write_bytecode = True
os.environ['PYTHONHASHSEED'] = '0'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, build
if sys.argv[1] == 'setup':
    for k, p in build.build(list(build.VARIANTS)).items():
        print(k, p)
    sys.exit(0)
if sys.argv[1] == 'replay':
    sys.exit(core.replay(sys.argv[2]))
sys.exit(core.main(sys.argv[1], sys.argv[2:]))
