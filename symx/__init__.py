"""Path-forking symbolic execution of the real pycid code, decided by z3."""
