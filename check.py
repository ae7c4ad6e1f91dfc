#!/usr/bin/env python3
"""check.py <property id> [thorough]: decide one property against /repo's working tree"""
import sys, os, importlib
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, 'lib'), os.path.join(here, 'checks')]
import common
if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
chk = common.Check(sys.argv[1])
try:
    importlib.import_module(sys.argv[1].lower()).main(chk)
except Exception as e:
    if not chk.violations:
        if not isinstance(e, common.ToolError):
            import traceback; traceback.print_exc()
        print('ERROR', e)
        sys.exit(2)
chk.finish()
