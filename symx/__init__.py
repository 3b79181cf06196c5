"""symx: a symbolic executor for the real orquestra-quantum Python code."""
