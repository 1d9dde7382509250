import sys
from vlib import core
if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))
