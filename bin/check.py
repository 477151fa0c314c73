#!/opt/venv/bin/python
"""check.py <property>: decide one property for the code in /repo (see DESIGN.md)"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
sys.dont_write_bytecode = True
if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
    import registry
    try:
        sys.exit(registry.run(sys.argv[1]))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
