"""Deterministic simulation with fault injection for LIMUNIMI/SAMPLE"""
