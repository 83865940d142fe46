"""Runtime monitors for openscm: see /verif/DESIGN.md."""
