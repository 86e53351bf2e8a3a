"""Stand-in for the optional pathos package: maps in forked children, as pathos does."""
