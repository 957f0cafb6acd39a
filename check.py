#!/usr/bin/env python3
"""check.py <property id>: decide one property of libu from /repo's current source.
Exit 0: holds on everything analysed; 1 with a VIOLATION line: broken; anything else: the check itself failed."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.dont_write_bytecode = True
import traceback
from checks import framework

if __name__ == '__main__':
    if len(sys.argv) != 2:
        print('usage: check.py <property>'); sys.exit(2)
    try:
        sys.exit(framework.main(sys.argv[1], HERE))
    except SystemExit: raise
    except BaseException:
        traceback.print_exc()
        print('CHECK-BROKEN property=%s' % sys.argv[1])
        sys.exit(3)
