"""Deterministic simulation of psrpcore sessions (see /verif/DESIGN.md)."""
