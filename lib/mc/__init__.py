"""Bounded exhaustive exploration of pyogp.lib.base under Jython 2.7."""
