"""Static analysis framework for theanolm: value-flow normal forms over the Python AST."""
