"""Stand-in for the acetimepy package (not installable offline).  Only the
surface that acetimetools.bufestimator uses is provided; see zone_processor."""
