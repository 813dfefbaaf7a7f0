"""python3-vt check.py <property>"""
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    from vc import driver
    sys.exit(driver.main(sys.argv[1]))
