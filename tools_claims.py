TRUST = " Trusts TLC, rustc, the harness driver and the Python concretisation/abstraction; bounded by the constants named in DESIGN.md."
NA = {}
CLAIMS = {
 "P01": ("TLA+ server model explored by TLC; generated sessions replayed on the real server, recorded traces validated by TLC",
         "All reachable model states/transitions for 2 documents; tours + random walks replayed on the real main loop." + TRUST),
 "P02": ("TLA+ server model explored by TLC; generated sessions replayed on the real server, recorded traces validated by TLC",
         "Exhaustive sync transitions for 2-3 documents, 2-3 texts, 2 versions." + TRUST),
 "P03": ("TLA+ server model explored by TLC; answers abstracted to (text, version) and traces validated by TLC",
         "Every query in every document state at sampled positions; the analysis library is the oracle for content (checked by P07-P19)." + TRUST),
 "P04": ("TLA+ server model (command/resolve/answer actions) explored by TLC; sessions replayed, traces validated by TLC",
         "All command/argument/capability/manifest combinations of the model." + TRUST),
 "P05": ("TLA+ server model (language version, fuel, manifests) explored by TLC; sessions replayed, traces validated by TLC",
         "All interleavings of updates, migrations and manifest changes for 2 documents." + TRUST),
}
CLAIMS["P06"] = ("TLA+ text/position model: TLC enumerates every text over a glyph alphabet and its position tables; each replayed on the real server in all three encodings",
         "Every text up to the bound, every offset and out-of-range position, all three encodings and their negotiation." + TRUST)
CLAIMS["P20"] = ("TLA+ handshake model: TLC enumerates capability offers and the required announcement; each offer replayed on the real initialize handshake",
         "Every offer in the bounded universe of capability shapes." + TRUST)

CLAIMS["P07"] = ("TLA+ contract model: TLC enumerates contracts with their exact diagnostics (invariants relate them to the declarative rule); each program replayed on the real analyser",
         "Every contract in the bounded universes of structure, selectors and paths, plus random larger ones." + TRUST)
CLAIMS["P09"] = ("TLA+ signature model: TLC enumerates edits of correct signatures with their exact diagnostics; each program replayed on the real analyser",
         "Every combination of up to two signature edits in nine contexts, plus random combinations." + TRUST)

CLAIMS["P10"] = ("TLA+ trait definition/implementation models: TLC enumerates definitions and implementation edits with their exact diagnostics; each program replayed on the real analyser",
         "Every definition and implementation in the bounded universes, incl. path forms of the trait, plus random larger ones." + TRUST)
CLAIMS["P11"] = ("TLA+ chain extension model: TLC enumerates extensions with their exact diagnostics; each program replayed on the real analyser",
         "Every extension in the bounded universes of ids, items, error code forms and codec implementations (sampled replay in the quick tier)." + TRUST)

CLAIMS["P12"] = ("TLA+ placement, environment and event field models: TLC enumerates annotated programs with their exact diagnostics (invariant: reported iff ink! forbids the placement); each program replayed on the real analyser",
         "Every annotation on every item kind in every scope, random combinations of two and three, path/import/impl forms of environments." + TRUST)

CLAIMS["P08"] = ("TLA+ attribute model: TLC enumerates attribute groups with their exact diagnostics (invariant: reported iff the declarative rule is broken); each replayed on the real analyser on varying items",
         "Every argument x value form, every pair of arguments and attributes, random larger groups, in both ink! versions." + TRUST)

CLAIMS["P14"] = ("TLA+ suggestion model: TLC enumerates items with scopes, present attributes and cursor places and the exact set of suggestions; each replayed on the real analyser, accepted and re-analysed",
         "Every item kind x scope x attribute (pairs sampled in the quick tier) with prefixes and cursor places, in both ink! versions." + TRUST)

CLAIMS["P19"] = ("TLA+ description model: TLC enumerates items with attributes and, per cursor place, the exact hover text, inlay hints and signatures; each replayed on the real analyser",
         "Every item kind x scope x attribute (pairs sampled in the quick tier) and every cursor place in them, in both ink! versions." + TRUST)

CLAIMS["P13"] = ("TLA+ repair model: quickfix sessions recorded from the real analyser on the programs that the other specifications enumerate; TLC validates every step against its title and checks that every session ends (liveness)",
         "Programs sampled from the exhaustive enumerations of P07-P12, every quickfix of them; all sessions up to a bound on texts per program, plus long random sessions." + TRUST)

CLAIMS["P15"] = ("TLA+ migration and manifest models: TLC enumerates ink! 4 files and manifests with their exact migrated form (invariants: complete, idempotent, lossless); each replayed on the real migration and compared token by token",
         "Every expression form in every context, attribute sequences, events, chain extensions, end-to-end tests and manifest shapes (sampled in the quick tier), plus random files." + TRUST)
CLAIMS["P16"] = ("TLA+ extraction model: TLC enumerates contract files with events, sibling directories and manifests with the exact result of extracting an event; each replayed through the real extractEvent command and compared token by token",
         "Every event form (legacy/stand-alone, arguments, documentation, fields, names), selection and directory state of the bounded universe (sampled in the quick tier)." + TRUST)
CLAIMS["P18"] = ("TLA+ models of project names and of files under construction: TLC enumerates names with their outcome and sequences of insertions (invariants: no name or id twice, one contract, one storage, selectors fit, nothing new missing); every step is replayed through the real actions, completions and diagnostics",
         "Names of up to 3-4 pieces over all character classes and keywords; every file of up to 3 members and 1-2 insertions per scope, random histories of 5 insertions over all scopes." + TRUST)
CLAIMS["P17"] = ("TLA+ model of editing histories and import graphs: TLC enumerates texts; every query is asked on them in several orders and instances, and the recorded answers are checked by TLC against the specification of a total, in-bounds, deterministic analysis",
         "All single edits of 10 programs, all pairs of fragments, random histories of 8 edits, import graphs of 1 and up to 6 declarations (sampled in the quick tier), all kinds of queries at sampled positions; the recorded part is checked by TLC, the rest by the same predicate in the harness." + TRUST)
CLAIMS["P05"] = ("TLA+ server model (language version, fuel, manifests) and manifest model (requirements, sources, workspaces, directories) explored by TLC; sessions replayed, traces validated by TLC",
         "All interleavings of updates, migrations and manifest changes for 2 documents; every requirement form and chain of manifests in the bounded universe." + TRUST)
