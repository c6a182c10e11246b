"""Bounded exhaustive model checking of the bgem package (see DESIGN.md)."""
