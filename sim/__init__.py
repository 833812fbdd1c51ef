"""A deterministic simulator for surface_potential_analysis (see DESIGN.md)."""
