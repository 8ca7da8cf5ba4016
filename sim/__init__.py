"""Deterministic simulation of py-bbn: see /verif/DESIGN.md."""
