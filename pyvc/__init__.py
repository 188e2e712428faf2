"""pyvc: a small deductive verifier for the real Python functions of /repo."""
