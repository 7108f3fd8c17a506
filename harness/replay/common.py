from vlib import fl, ONE  # noqa: F401


class Raised(Exception):
    def __init__(self, e):
        super().__init__(f"{type(e).__name__}: {e}")
        self.orig = e


def call(f, *a):
    """Call the code under test; an exception of its own becomes Raised."""
    try:
        return f(*a)
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        raise Raised(e)
