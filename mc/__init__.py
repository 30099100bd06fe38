"""Bounded exhaustive exploration ("model checking") of the real glass code."""
