"""Stand-in: no colour maps."""
