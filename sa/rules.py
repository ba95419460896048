"""Relational obligations and structural rules on the current tree (see DESIGN.md)."""
RULES = {}
