"""Static analysis of bhosale2/sopht-backend.  Pure standard library.

Nothing in this package imports or executes code from /repo: sources are read
and parsed with `ast`, and abstractly interpreted.
"""
