"""wx: a static analyser for waymax.

It parses /repo's sources (never imports or runs them), resolves the program
(modules, classes, closures, dataclasses, decorators) and compiles the array
code into a hash-consed *gated value graph*: every array is a map from index
variables to a scalar node, joins are gates on conditions, and nodes are kept
in a canonical form (polynomials over atoms, decision diagrams over boolean
atoms).  Properties are queries over that graph: congruence with the documented
form, dependence (which inputs a node can read) and gating conditions.
"""
