"""Bounded exhaustive exploration of the real aioreactive code under a controlled event loop."""
