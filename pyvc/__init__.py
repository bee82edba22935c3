"""pyvc - a small deductive verifier for the Python/numpy subset used by welleng.

The verified text is the source in /repo, parsed on every run; nothing here
restates that code.
"""
