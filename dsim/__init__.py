"""Deterministic simulation of cocotbext-pcie (see ../DESIGN.md)."""
