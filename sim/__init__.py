"""Deterministic simulation of TCRM runs: scheduler, seams, fixtures."""
