"""pysym: a merging symbolic executor for Python source (see DESIGN.md)."""
