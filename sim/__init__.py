"""Deterministic simulation of mplang: kernel, seams, fault injection, runner."""
