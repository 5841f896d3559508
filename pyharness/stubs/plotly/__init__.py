"""Stand-in for plotly: the figures keep what they are given and write it as JSON."""
