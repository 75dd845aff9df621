"""Bounded exhaustive exploration of rainwoodman/pmesh (see DESIGN.md)."""
