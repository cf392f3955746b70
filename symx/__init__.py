"""symx: a small symbolic executor for the Python source in /repo."""
