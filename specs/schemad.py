"""Schemata (SchemaEngine.cpp): drawing the expression that a formula cut off at a depth stands for."""
import schema
TU, HEAP = schema.TU, schema.HEAP


def contracts(X):
    return schema.make(X, "draw")
