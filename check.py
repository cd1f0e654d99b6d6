import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib")); sys.path.insert(0, here)
sys.dont_write_bytecode = True
import core
if __name__ == "__main__":
    rc = core.main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc) if False else sys.exit(rc)
