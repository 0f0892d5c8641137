#!/usr/bin/env python3
"""Entry point of all checks: check.py <property> [--tier quick|thorough]; check.py --replay <file>; check.py --list"""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import driver

if __name__ == '__main__':
    sys.exit(driver.main(sys.argv[1:]))
