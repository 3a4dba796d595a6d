"""Static value-graph analysis of agnpy (never imports or runs agnpy)."""
