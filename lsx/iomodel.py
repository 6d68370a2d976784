"""libc I/O model (filled in where harnesses need it)"""


def register(E, X, reg):
    pass
