"""Deterministic simulation of netomaton with fault injection. See DESIGN.md."""
