"""Exceptions shared by the symbolic and the concrete side."""


class SymError(Exception):
    """The code did something the encoding does not cover (inconclusive)."""
