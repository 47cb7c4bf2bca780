"""setup_cmd: the tools are there, the current source loads, both sides run one harness."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import z3, cvc5
from symex import runner
runner.load_harnesses('c01')
print('z3', z3.get_version_string(), 'pyodrx at', runner.ROOT)
