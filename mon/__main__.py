import sys
from mon.runtime import main
sys.exit(main(sys.argv[1:]))
