"""Writes spec/recorded.json, digests of the shipped calendars per year.  Run by
hand on a reviewed tree after an intended change of an exchange's dates; no
check or setup step runs it."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vc import driver   # noqa


def main():
    r = driver.real(dict(job='record'))
    if not r['ok']:
        sys.exit(r['error'])
    with open(os.path.join(HERE, 'spec', 'recorded.json'), 'w') as f:
        json.dump(r['record'], f, separators=(",", ":"), sort_keys=True)
    print('%d calendars' % len(r['record']))


if __name__ == '__main__':
    main()
