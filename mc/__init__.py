"""Bounded exhaustive exploration (model checking) of toron's real code."""
