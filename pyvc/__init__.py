"""pyvc: a deductive verifier for the Python subset used by expdb (see /verif/DESIGN.md)."""
