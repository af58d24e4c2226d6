import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
