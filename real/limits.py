"""Limits on what the code under check may use."""
import resource
import signal


class Slow(BaseException):
    pass


def within(seconds, f):
    """f(), or Slow after so many seconds."""
    def stop(*a):
        raise Slow()
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def memory(gb=10):
    """MemoryError instead of taking the machine's memory."""
    resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
