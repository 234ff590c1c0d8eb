"""Runs a piece of the code under test with a time limit, so that a change that
makes it loop is a finding and not a hung check."""
import signal


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


class limit:
    def __init__(self, seconds=20.0):
        self.seconds = seconds

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def call(fn, seconds=20.0):
    """(result, None) or (None, exception); Hang counts as an exception."""
    try:
        with limit(seconds):
            return fn(), None
    except (Exception, Hang) as exc:
        return None, exc
