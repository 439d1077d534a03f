"""Rules, one module per area."""
