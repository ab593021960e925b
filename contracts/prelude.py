"""Helpers shared by the contracts (interpreted, never executed)."""


def raises(f):
    try:
        f()
    except Exception:
        return True
    return False
