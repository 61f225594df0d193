"""C19: conversions between artigraph types and another type system (spec/Types.tla)."""
from vf import typesys


def run(check):
    typesys.run(check, "python", "pydantic")
