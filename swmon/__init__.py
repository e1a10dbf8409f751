"""Runtime-monitoring framework for swprocess (see /verif/DESIGN.md)."""
