import sys
sys.dont_write_bytecode = True
from mc import core
sys.exit(core.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
