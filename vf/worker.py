import sys
from vf.core import worker_main
worker_main(sys.argv[1], sys.argv[2])
