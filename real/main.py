"""Entry point of the project-interpreter side: job file in, result file out."""
import json
import os
import sys
import time
import traceback

from real import limits

sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))


def crash(e):
    """Where the code under check raised an error nobody expected; None when the
    error may be due to the stand-ins used by the job."""
    frame = traceback.extract_tb(e.__traceback__)[-1]
    repo = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + os.sep
    if os.path.realpath(frame.filename).startswith(repo) and not isinstance(
            e, (AttributeError, NameError, TypeError, ImportError, MemoryError)):
        return '%s line %d: %s: %s' % (frame.name, frame.lineno, type(e).__name__, str(e)[:200])


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    t0 = time.time()
    limits.memory()
    try:
        from real import jobs
        res = jobs.JOBS[job['job']](job)
        res['ok'] = True
    except Exception as e:
        res = dict(ok=False, error=traceback.format_exc(), crash=crash(e))
    res['wall_s'] = time.time() - t0
    with open(sys.argv[2], 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
