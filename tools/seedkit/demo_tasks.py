# the tasks of the demonstrations
import kit


class Custom(Exception):
    pass


def ident(x):
    return x


def inside(x):
    """True in a worker"""
    return kit.Pool.inside


def fail(exc, msg):
    raise exc(msg)


def fail_or(exc, msg):
    if exc is None:
        return msg
    raise exc(msg)


def the_raising_function():
    raise ValueError('deep down')


def deep(n):
    if n:
        return deep(n - 1)
    the_raising_function()
