"""Property-based checks for rt1_model."""
