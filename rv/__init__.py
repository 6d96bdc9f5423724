"""Runtime monitors for robpy. See /verif/DESIGN.md."""
