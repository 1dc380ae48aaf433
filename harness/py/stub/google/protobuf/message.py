"""A stand-in for google.protobuf.message; see dyn.py for the messages."""


class Error(Exception):
    pass


class DecodeError(Error):
    pass


class EncodeError(Error):
    pass


class Message(object):
    """The base class of messages."""
    __slots__ = []
    DESCRIPTOR = None
