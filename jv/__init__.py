"""jv: a deductive verifier for the JAX/Python code of jaxoplanet.

See DESIGN.md for what is extracted, what is proved and what is assumed.
"""
