__version__ = "4.21.12"
