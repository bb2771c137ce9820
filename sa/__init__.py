"""Path-sensitive value-flow analyser for jaeger-client-python (pure static analysis)."""
