ID = "C13"
TITLE = "Schemata group exactly the formulae that agree down to the depth"
PROOFS = [dict(spec="schema", to=24), dict(spec="schemad", to=24), dict(spec="schemam", to=24), dict(spec="schemas", to=24)]
DRIVERS = [dict(name="c13", src="c13.cpp", libs=["mwsdaemon", "mwsquery", "mwsxmlparser", "mwsdbc", "mwsindex", "mwstypes", "commonutils", "commontypes", "crc32"], budget=14)]
TRUSTED = ["clang 18 AST (vc/cast.py) and own VC generator", "std::string/stack/vector/list/map (vc/libm.py)", "z3 5.3.2, cvc5 1.1.2",
           "in decodeFormula, trees of CmmlToken are a list of nodes with parent, tag and text, in the order of their creation (newRoot, newChildNode, setTag, appendTextContent, getParentNode; their real bodies are proved in specs/tokens.py for C12)",
           "ReverseLookupTable::get (proved in specs/dictionary.py for C05)"]
ASSUMPTIONS = ["fewer than 2^31 tokens per formula, fewer than 2^32 variables in a schema", "formulae that can be encoded: at most 255 arguments, 31 named variables", "memory allocation does not fail"]
BOUNDED = ["grouping, order, limit and numbering in getSchemata and handleQuery, and the texts used as keys (hashExpr, unhashExpr): driver c13 compares whole answers with an independent account",
           "that what reduceFormula leaves is a code cut off at that depth (the precondition of decodeFormula): driver c13"]
TECHNIQUE = "contracts with recursive specification functions and step lemmas on cutting, drawing, naming and matching of schemata, extracted from the C++ (own VC generator over the clang AST, z3/cvc5)"
LEVEL_NOTE = ("reduceFormula and completeExpression are proved to keep exactly what lies above the depth (first arguments of applications always), decodeFormula to draw it with a new variable for every argument left out, decodeMeaning, isApply and "
              "getMeaning to name symbols, getSubstitutions to list the references of what is left open, in order; grouping and numbering are bounded (driver).")
PROP = {"id": ID, "title": TITLE,
 "statement": "A schema query puts its expressions into groups: two are in one group exactly if they are equal when cut off at their depth (schema_depth, or with cutoff_mode R the smallest depth that shows the same as schema_depth percent of the depth of the expression), where the first argument of an application (a tag that begins with apply) is always shown, variables, ranges and renamed identifiers count by their numbers, and nothing is shown at depth 0. Expressions that cannot be encoded are left out. There are as many schemata as groups, total says so; the answer holds the largest groups first, at most answsize of them (0: all). Each has as coverage the size of its group, as formulae the positions in the query of its expressions, in order, as tree the common part with a new variable x1, x2, ... for every argument that is left out (a single x0 for nothing), and as substitutions the xref of what the first expression of the group has in these places, in order (none below the first child of an apply, none where xref is missing).",
 "quantifier": {"over": ["inputs"], "text": "every list of expressions, depth, cutoff mode and size"},
 "why_tests_cant": "The tests look at two lists of formulae with fixed depth; the shapes of expressions, depths and groupings are unbounded.",
 "anchors": {"files": ["src/mws/query/SchemaEngine.cpp", "src/mws/daemon/SchemaQueryHandler.cpp", "src/mws/index/ExpressionEncoder.cpp"],
   "mechanism": [{"name": "cutting off", "where": "SchemaEngine::reduceFormula, completeExpression"}, {"name": "drawing", "where": "SchemaEngine::decodeFormula"}, {"name": "grouping", "where": "SchemaEngine::getSchemata"}, {"name": "substitutions", "where": "SchemaQueryHandler::getSubstitutions"}]}}
