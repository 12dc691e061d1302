"""Usage: run.py <property id>   (tier from VERIF_TIER or second argument)"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from checks import framework        # noqa: E402
sys.modules['checks.framework'] = framework

if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(framework.main(sys.argv[1].upper(), tier))
