#!/usr/bin/env python3
"""Run the check of one property:  check.py C01 [--tier quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib"))
import driver
sys.exit(driver.main(sys.argv[1:]))
