"""Stand-in for the parts of astropy that the configuration package imports (astropy is not installed here)."""
