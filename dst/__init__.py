"""Deterministic simulation of pyudunits2 with fault injection (see DESIGN.md)."""
