"""pyve: a small modular deductive verifier for the Python that actually runs (see ../DESIGN.md)."""
