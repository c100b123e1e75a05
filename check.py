#!/opt/veriftools/pyvenv/bin/python
import os
import sys

os.environ["PYTHONWARNINGS"] = "ignore"

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

if __name__ == "__main__":
    from symx.runner import main
    sys.stdout.flush()
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
