#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--specs-only] [--dyn-only] [--only NAME]

Decides one property: generates the verification conditions from the current
source in /repo, discharges them, and runs the executable contracts.
"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import faulthandler
faulthandler.disable()
from vc import driver
if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
