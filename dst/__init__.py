"""Deterministic simulation with fault injection for b-asic (see /verif/DESIGN.md)."""
