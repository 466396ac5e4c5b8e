#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--replay file]"""
import os, sys
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from mc import common, checks

if __name__ == '__main__':
    sys.exit(common.main(checks.get(sys.argv[1]), sys.argv[2:]))
