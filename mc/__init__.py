"""Bounded exhaustive model checking of v8serialize."""
