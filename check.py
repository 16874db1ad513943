#!/usr/bin/env python3-vt
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lvc import driver
sys.exit(driver.main(sys.argv))
