"""Deterministic simulation of comb_spec_searcher."""
