#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the list stays readable)."""
import json, os
P = []
L = "crates/lsp-server/src/"
A = "crates/analyzer/src/analysis/"
I = "crates/ir/src/"


def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append(d)


p("P01", "Every request gets exactly one answer and the server survives",
  "In any session the language server answers every request exactly once, with the request's own id, before handling the next message: unsupported methods, malformed parameters, unopened documents, positions outside the document and failing commands all get the defined error or empty result. No request, valid notification, unknown notification or stray response stops the server, and only requests are ever answered. `shutdown` followed by `exit` (or a bare `exit`) ends the session cleanly.",
  ["histories", "inputs"], "all finite sequences of client messages (documents opened, changed, closed in any order; every request kind with good, malformed and out-of-range arguments)",
  "The suite drives one open and one completion through the loop; it cannot sample message sequences, malformed parameters per method, or positions that only exist in another version of the document.",
  [L + "dispatch.rs", L + "dispatch/routers/request.rs", L + "dispatch/handlers/request.rs", L + "translator/from_lsp.rs"],
  [("message loop", L + "dispatch.rs: main loop and dispatcher"), ("request routing", L + "dispatch/routers/request.rs"), ("position translation", L + "translator/from_lsp.rs")],
  ["messages exchanged over the connection"])
p("P02", "Published diagnostics always match the latest text and version",
  "After every open or change of a Rust document the client receives, for that document only, the diagnostics of exactly the text just sent (the last change wins) tagged with the version just sent. Closing an open document clears its diagnostics once; messages about other languages, unopened documents or empty changes publish nothing. Documents never influence each other's diagnostics.",
  ["histories"], "all interleavings of open/change/close/save over several documents, texts, versions and language ids",
  "Tests send one open for one document; stale text, wrong version, missing clears and cross-document leaks need histories with re-opens, multi-part changes and several documents.",
  [L + "dispatch.rs", L + "memory.rs", L + "dispatch/actions.rs", L + "dispatch/handlers/notification.rs"],
  [("document store and change set", L + "memory.rs"), ("snapshot refresh and publication", L + "dispatch.rs: change processing"), ("diagnostics notification", L + "dispatch/actions.rs")],
  ["textDocument/publishDiagnostics notifications"])
p("P03", "Answers depend only on current text, ink! version and position",
  "Completion, hover, code action, inlay hint and signature help answers equal what the analysis yields for the document's current text and language version at the requested position or range, translated completely and in order for the client's capabilities. Earlier texts, other documents and earlier requests never show through. A closed or never opened document yields an empty result.",
  ["histories", "configurations", "inputs"], "all histories of edits and queries over several documents and all client capability combinations (encoding, snippets, label offsets, active parameter, lazy edits)",
  "Handler tests call one handler on one fresh snapshot with one capability set.",
  [L + "dispatch/handlers/request.rs", L + "translator/to_lsp.rs", L + "dispatch.rs", "crates/analyzer/src/analysis.rs"],
  [("request handlers", L + "dispatch/handlers/request.rs"), ("result translation", L + "translator/to_lsp.rs")],
  ["responses to textDocument/* requests"])
p("P04", "Commands and lazy edits follow the client's capabilities",
  "A successful project creation or event extraction becomes an empty response followed by one workspace edit request if the client can apply file creations (and otherwise the plain result); a successful migration always becomes an empty response followed by one workspace edit touching exactly the source file and its manifest. Resolving a code action returns the same action with the edit filled in, and only a client's answer to a project creation edit makes the server open the new file. Missing or invalid arguments, unopened documents, absent or unreadable manifests and ranges without an event yield one error response and no edit.",
  ["histories", "configurations"], "all sequences of commands, resolves and client replies over capability combinations, document states and manifest states",
  "Integration tests run each command once, on the happy path, for a couple of capability sets.",
  [L + "dispatch.rs", L + "dispatch/handlers/command.rs", L + "dispatch/handlers/request.rs", L + "utils.rs"],
  [("command response conversion", L + "dispatch.rs: command responses"), ("command handlers", L + "dispatch/handlers/command.rs"), ("capability checks", L + "utils.rs")],
  ["responses, workspace/applyEdit and window/showDocument requests"])
p("P05", "Each document is analysed for the ink! version its project declares",
  "A newly opened document is analysed for the ink! version declared by the nearest manifest at or above its directory (following a workspace-inherited dependency to the workspace manifest): version 5 if the requirement's major version is 5 or `*` or the dependency is only a path or git source, otherwise version 4, which is also the default when nothing can be determined. The version stays fixed while the document is open, except that after any migration attempt the next two document updates read it again; re-opening reads it again.",
  ["histories", "configurations"], "all manifest shapes and locations, and all histories of open/change/close/migrate with manifest changes in between",
  "Tests use two fixed fixture manifests; requirement syntaxes, workspace inheritance, directory depth and re-detection after migration are not sampled.",
  [L + "dispatch.rs", L + "utils.rs"],
  [("version detection", L + "dispatch.rs: project version parsing"), ("manifest lookup", L + "utils.rs"), ("re-detection budget", L + "dispatch.rs: change processing")],
  ["language dependent diagnostics published for the document"])
p("P06", "Positions round-trip exactly in UTF-8, UTF-16 and UTF-32",
  "For every text and every character boundary, the position reported to the client in the negotiated encoding counts preceding lines and code units of that encoding, and translating it back yields the same place. A character beyond the end of a line means the end of that line; lines that do not exist, positions inside a character and inverted ranges are rejected with an error, never misplaced. UTF-8 or UTF-32 (whichever the client lists first) is used if offered, else UTF-16.",
  ["inputs", "configurations"], "all texts (1-4 byte characters, CR/LF, empty lines, no final newline), all positions and all offered encoding lists",
  "The translation test uses one fixed text with a few positions.",
  [L + "translator/from_lsp.rs", L + "translator/to_lsp.rs", L + "utils.rs"],
  [("position to offset", L + "translator/from_lsp.rs"), ("offset to position", L + "translator/to_lsp.rs"), ("encoding negotiation", L + "utils.rs")],
  ["positions in requests and results"])
p("P07", "Contracts are accepted iff structure and selectors are valid",
  "For every contract, diagnostics require exactly one storage, at least one constructor and one message, an inline module, and report each extra storage, and every constructor or message whose selector (explicit, or derived from namespace, trait and name) repeats that of an earlier one of the same kind. At most one wildcard selector per kind is accepted; in ink! 5 a wildcard message (not constructor) requires exactly one other message whose selector is the reserved complement, and the complement is only accepted together with a wildcard message. Well-formed contracts get none of these diagnostics, and at most one contract per file is accepted.",
  ["programs"], "all contracts built from up to several storages, constructors and messages across inherent, namespaced and trait impls with any selector arguments, for both ink! versions",
  "Fixtures cover a few duplicates and one wildcard combination each; the combinations of kinds, impl blocks, namespaces, selectors and versions are not sampled.",
  [A + "diagnostics/contract.rs", A + "diagnostics/file.rs", I + "selector.rs"],
  [("contract rules", A + "diagnostics/contract.rs"), ("selector computation", I + "selector.rs")],
  ["diagnostics of a source text"])
p("P08", "ink! attributes have known names, fitting values and allowed combinations",
  "The ink! attributes of an item, whatever the item, are accepted iff every macro and argument is a known one, each argument has a value of exactly the kind it takes in that ink! version, no macro or argument is repeated across the item's attributes, and they appear together only in combinations the version allows, complete and with the primary attribute and argument first. Each violation yields an error (a warning for unknown names) located at the offending attribute or argument, and accepted attributes get no such diagnostic.",
  ["programs", "inputs"], "all attribute lists of up to several attributes with up to several arguments and values of any literal kind, on every item kind, for both ink! versions",
  "Fixtures list a few valid and invalid attributes per argument; they do not cross argument kinds, values, order, duplication, item kinds and versions.",
  [A + "diagnostics/common.rs", I + "attrs.rs", I + "args.rs", I + "attrs/meta.rs", A + "utils.rs"],
  [("generic attribute diagnostics", A + "diagnostics/common.rs"), ("argument grammar", I + "attrs/meta.rs and meta parser"), ("allowed siblings", A + "utils.rs")],
  ["diagnostics of a source text"])
p("P09", "Callable signatures are accepted iff they meet the ink! rules",
  "A constructor, message or trait/chain extension function is reported for exactly the signature rules it breaks: generics, constness, asyncness, unsafety, explicit ABI, variadics, visibility, receiver (required by reference or forbidden), self-returning or missing return type. Storage and event structs (visibility, and for events generics) and ink! impl blocks (`default`, `unsafe`, generic parameters, generic self type) are likewise reported exactly for the rules they break.",
  ["programs"], "all combinations of modifiers, visibility, generics, receivers and return types for each callable or struct kind, in both ink! versions",
  "Fixtures break one rule at a time in a few spellings.",
  [A + "diagnostics/common.rs", A + "diagnostics/contract/constructor.rs", A + "diagnostics/message.rs", A + "diagnostics/contract/storage.rs", A + "diagnostics/event.rs"],
  [("fn invariants", A + "diagnostics/common.rs"), ("constructor and message rules", A + "diagnostics/contract/constructor.rs, message.rs")],
  ["diagnostics of a source text"])
p("P10", "Trait definitions and their implementations agree",
  "A trait definition is reported exactly for what it may not contain (non-methods, non-message methods, default bodies, wildcard selectors, no message at all, generics, supertraits, unsafety, missing visibility). An implementation of a trait definition is reported exactly for each missing method, each foreign item, and each method whose message flags, argument values, parameters or return type differ from the declaration.",
  ["programs"], "all pairs of trait definitions and implementations with up to several methods, any flags and signatures, in both ink! versions",
  "Fixtures cover a handful of hand-written trait/impl pairs.",
  [A + "diagnostics/trait_definition.rs", A + "diagnostics/contract/ink_impl.rs"],
  [("trait definition rules", A + "diagnostics/trait_definition.rs"), ("impl conformity", A + "diagnostics/contract/ink_impl.rs")],
  ["diagnostics of a source text"])
p("P11", "Chain extensions are accepted iff ids and error code are valid",
  "A chain extension is reported exactly when it lacks or repeats its error code type, contains anything but functions and that type, has a function without an id, repeats a function id, or (in ink! 5) lacks its own extension id; functions must carry the id argument of the language version. The error code must be a plain associated type (no generics or bounds, with a default) naming a custom type in the file that implements `FromStatusCode`, and it and custom types in function signatures must implement (by derive or impl) the SCALE codec traits. Extensions meeting these rules get none of these diagnostics.",
  ["programs"], "all chain extensions with up to several functions, ids in any notation and associated items, in both ink! versions",
  "Fixtures list a few traits per rule.",
  [A + "diagnostics/chain_extension.rs"],
  [("chain extension rules", A + "diagnostics/chain_extension.rs")], ["diagnostics of a source text"])
p("P12", "ink! annotations are accepted exactly where ink! allows them",
  "ink! annotations are accepted exactly on the items and in the scopes ink! allows for the language version (legacy events inside contracts, stand-alone events anywhere, topics only on event fields, storage items only on data types, tests only on functions, callables only in the root of impl blocks). An environment argument must denote a type of the file implementing `ink::env::Environment` or ink!'s default environment; event fields carry no `cfg`, and no identifier starts with `__ink_`. Each violation is reported at the offending item and correct placements are not.",
  ["programs"], "all placements of these annotations on every item kind in every scope (file, contract, plain module, impl, function body), in both ink! versions",
  "Fixtures check a few placements per annotation.",
  [A + "diagnostics/event.rs", A + "diagnostics/storage_item.rs", A + "diagnostics/ink_test.rs", A + "diagnostics/ink_e2e_test.rs", A + "diagnostics/contract.rs"],
  [("scope rules", A + "diagnostics/contract.rs, common.rs"), ("item rules", A + "diagnostics/event.rs, storage_item.rs, ink_test.rs")],
  ["diagnostics of a source text"])
p("P13", "Quickfixes repair what they claim and repeated fixing terminates",
  "Applying any offered quickfix to the text it was computed for gives well-formed, non-overlapping edits that change exactly what its title says (the named attribute, argument, keyword, item, ... and nothing else) and a text that parses no worse, in which the diagnostic it was offered for is gone from that item. Applying offered quickfixes one after another, in any order where no item carries conflicting ink! attributes, ends with no quickfix left.",
  ["programs", "histories"], "all ill-formed programs of the other properties' domains, every quickfix of every diagnostic, and all sequences of quickfixes",
  "Fixtures compare edit text for single diagnostics; they never apply the edits and re-analyse.",
  [A + "diagnostics/common.rs", A + "actions.rs", A + "text_edit.rs", A + "diagnostics/contract.rs"],
  [("quickfix composition", A + "diagnostics/*"), ("edit formatting", A + "text_edit.rs")],
  ["quickfix edits and diagnostics of the edited text"])
p("P14", "Suggested attributes are exactly those valid at the cursor",
  "Completions and code actions for ink! attributes offer exactly the attribute macros and arguments which the language version allows for the kind of item, its nearest enclosing ink! annotated item and the attributes already present, none twice; items outside any ink! scope get every argument their kind allows. Accepting one gives a text in which exactly that attribute or argument is added, with no additional unknown, duplicate, conflicting or out-of-scope attribute diagnostic. Flattening an item's attributes keeps every argument.",
  ["programs", "inputs"], "all item kinds with any already present attributes, any partially typed prefix, in both ink! versions",
  "Fixtures list suggestions for selected snippets; they never accept them and re-analyse.",
  [A + "completions.rs", A + "actions/attr.rs", A + "actions/item.rs", A + "utils.rs"],
  [("completions", A + "completions.rs"), ("code actions", A + "actions/attr.rs, item.rs"), ("validity filters", A + "utils.rs")],
  ["completion items and code actions"])
p("P15", "Migration to ink! 5 is complete, valid and idempotent",
  "Migrating any ink! 4 source gives non-overlapping edits whose result parses, keeps every event, chain extension function id, derive and unrelated line, and contains no legacy event, id argument or derive form that ink! 5 replaces; migrating the result changes nothing more. The manifest is rewritten to depend on ink! 5 without the codec dependencies and features it replaces, keeping everything else.",
  ["programs", "configurations"], "all ink! 4 sources with any number of events, chain extensions and derive attribute shapes, and all manifest shapes",
  "Fixtures migrate a few snippets per construct.",
  [A + "migrate.rs", A + "migrate/host_fn.rs", A + "migrate/e2e_test.rs", L + "dispatch/handlers/command.rs"],
  [("source migration", A + "migrate.rs"), ("manifest migration", L + "dispatch/handlers/command.rs")],
  ["migration edits"])
p("P16", "Event extraction moves an event into its own package without loss",
  "Extracting an event removes exactly that struct from the contract, imports it from the new crate at the top of the enclosing module, and creates a package whose source is the same struct (documentation, other attributes, fields) as a stand-alone event that keeps its anonymous or signature topic argument. The package gets a lower-case hyphenated name derived from the event's name in a directory that does not exist yet, and the contract's manifest gains exactly that path dependency; a range not on an event gives an error.",
  ["programs", "inputs", "configurations"], "all events (legacy and stand-alone, any arguments, names, fields, comments), any selection in the file, any existing sibling directories and manifest shapes",
  "Tests extract a few events once.",
  [A + "extract.rs", L + "dispatch/handlers/command.rs"],
  [("extraction", A + "extract.rs"), ("package naming and manifest edit", L + "dispatch/handlers/command.rs")],
  ["extractEvent results"])
p("P17", "Analysis is total, in bounds and deterministic on any text",
  "For any text, however malformed, and any position or range in it, no analysis query fails or crashes, every reported range and edit lies inside the text on character boundaries, and edits of one action never overlap. Asking again, in any order, gives the same answers.",
  ["inputs", "histories"], "all texts (token soups, truncations, unbalanced and nested attributes, multi-byte characters), all positions and all query orders, in both ink! versions",
  "Tests only use hand-written, mostly well-formed snippets.",
  ["crates/analyzer/src/analysis.rs", I + "attrs/meta.rs", A + "utils.rs", A + "text_edit.rs", I + "tree"],
  [("attribute parsing", I + "attrs/meta.rs and parser"), ("tree navigation", I + "tree, " + A + "utils.rs"), ("edit formatting", A + "text_edit.rs")],
  ["every analysis query"])
p("P18", "Generated projects and snippets are valid ink! code",
  "A project is created iff its name starts with a letter, continues with letters, digits, underscores or hyphens, and gives identifiers which are not keywords; its source parses without diagnostics and differs between projects only in the names of the contract and its storage, its manifest names the package (and so the crate) like the contract and requires the same ink! version. The code actions and completions at file level and in a contract, impl block, trait definition, chain extension, event or test module offer exactly the ink! entities which can still be added there; accepting one removes nothing, adds exactly that entity (as plain text or as a snippet), never reuses the name or id of a sibling, and leaves no diagnostics but those for entities still missing, over any sequence of insertions.",
  ["inputs", "programs", "histories"], "all names, both ink! versions, all insertion contexts with any names and ids already taken, any sequence of insertions",
  "Tests create one or two project names and compare a few snippets.",
  ["crates/analyzer/src/codegen.rs", A + "actions/entity.rs", A + "text_edit/common.rs", A + "completions.rs", L + "dispatch/handlers/command.rs"],
  [("project templates", "crates/analyzer/src/codegen.rs"), ("entity snippets", A + "text_edit/common.rs, actions/entity.rs"), ("entity completions", A + "completions.rs")],
  ["generated files and edits"])
p("P19", "Hover, inlay hints and signature help describe the focused argument",
  "Hover text appears exactly on ink! attribute macros, arguments and their parts and describes the one under the cursor; an inlay hint appears exactly once on each argument that takes a value, names the type that argument takes in that language version and context, and only within the requested range. Signature help appears exactly inside ink! attribute argument lists, lists the parameters valid for that attribute and version and marks the one under the cursor as active.",
  ["programs", "inputs"], "all attributes with any arguments and cursor positions, in both ink! versions",
  "Fixtures check a few cursor positions per attribute.",
  [A + "hover.rs", A + "inlay_hints.rs", A + "signature_help.rs"],
  [("hover", A + "hover.rs"), ("inlay hints", A + "inlay_hints.rs"), ("signature help", A + "signature_help.rs")],
  ["hover, inlay hint and signature help results"])
p("P20", "Negotiated server capabilities match what the client offered",
  "The initialize result announces exactly the implemented features (full document sync with open/close and save, hover, completion, code actions, inlay hints, signature help and the three commands) and a position encoding the client can use. Code action kinds are announced as the server's kinds the client lists (in the server's order, with lazy resolution), or plainly supported when the client lists none in common.",
  ["configurations"], "all client capability sets",
  "Tests check the default and a few capability sets through helper functions, not the negotiated result.",
  [L + "initialize.rs", L + "utils.rs"],
  [("server capabilities", L + "initialize.rs"), ("capability intersection", L + "utils.rs")],
  ["initialize response"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
