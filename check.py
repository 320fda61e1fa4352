#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed n] [--replay file]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import harn, props
sys.exit(harn.main(props.PROPS, sys.argv[1:]))
