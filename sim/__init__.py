"""Deterministic simulation of jinete: see DESIGN.md."""
