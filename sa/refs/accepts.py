"""Which inputs further operations accept (interpreted, never executed)."""


def files(coincident, number, count):
    if not (coincident is True or coincident is False or coincident == "files"):
        raise ValueError("coincident")
    if number is not None:
        if number > count:
            raise ValueError("number of files")
    return True


def whitens(n, pad):
    """Something remains between the filter edges."""
    if n <= 2 * pad:
        raise ValueError("too short")
    return True


def pad(duration, rate):
    return int(duration * rate / 2)
