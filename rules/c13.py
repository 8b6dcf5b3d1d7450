"""Numbers, bit vectors and strings."""
import values


def run(c):
    values.run(c)
