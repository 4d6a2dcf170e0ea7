"""What every check consists of. See check.py for the kinds of steps."""

# Which module validates which kind of recording.
TRACE_MODULES = {"buffer": "TraceBuffer", "workspace": "TraceWorkspace", "tokens": "TraceTokens"}

UNDO = ["undo", "undo.group", "undo.none"]
REDO = ["redo", "redo.group", "redo.none"]

# How many executions of each suite are recorded.
THOROUGH = 4000
# Those of texts that have more of something than 16 bits can count.
FEW, SOME = 6, 60
# Seconds that an operation may take.
PATIENCE, MORE_PATIENCE = 20, 100


def generate(module, config, *options):
    return ("generate", module, config, options)


def options(suites):
    large = any(word in suites for word in ("huge", "throng"))
    return [f"suites={suites}", "seed={seed}", f"patience={MORE_PATIENCE if large else PATIENCE}"]


def drive(suites, count):
    return ("drive", "drive", "TraceBuffer", options(suites), count)


def workspaces(suites, count):
    return ("drive", "workspaces", "TraceWorkspace", options(suites), count)


def tokens(suites, count):
    return ("drive", "tokens", "TraceTokens", options(suites), count)


def generate_ws(config):
    return ("generate", "GenWorkspace", config, ("workspaces=1",))


def design(module, *without):
    """Models of the design, with everything it takes, and without each of these."""
    return [("model", module, module + "Deep")] + [("refute", module, f"{module}Without{w}") for w in without]


GAP = design("GapBuffer", "Whole", "Backwards", "End", "Beyond")
TOKENS = design("TokenIteratorImpl", "All", "Trim", "Rest", "Carry", "Reset", "Clusters", "Break")
CHECKOUT = design("WorkspaceImpl", "Checkin", "Placeholder", "Current", "Discard", "Vacate", "Behind", "Shown", "Counter")
STACKS = design("HistoryImpl", "Offsets", "Close", "Hold", "Open", "Split", "Drop", "Clear")
FILES = "files=1"
# Paths and syntax definitions, as used by the workspace specification.
WORLD = ("reference", "world", "world.json")
# Grapheme clusters, as understood by the specification.
SEGMENTS = ("segments",)
ORDER, EDITS, WSFILES, SYNTAX = "GenWorkspaceOrder", "GenWorkspaceEdits", "GenWorkspaceFiles", "GenWorkspaceSyntax"

PLAN = {
    "T01": {
        "facts": ["insert", "delete"],
        "quick": [SEGMENTS, generate("GenText", "GenTextQuick"), generate("GenText", "GenTextDirectQuick"),
                  drive("edit,gap,everything,large", 300), drive("huge", FEW)],
        "thorough": [*GAP, SEGMENTS, generate("GenText", "GenTextDeep"), generate("GenText", "GenTextDirectDeep"),
                     drive("edit,gap,everything,history,large,long", THOROUGH), drive("huge", SOME)],
    },
    "T02": {
        "facts": ["bounds", "goto", "read", "insert", "delete", "lines"],
        "quick": [SEGMENTS, generate("GenText", "GenTextQuick"), generate("GenText", "GenTextDirectQuick"),
                  drive("positions,gap,large", 300), drive("huge,huge-queries", FEW)],
        "thorough": [*GAP, SEGMENTS, generate("GenText", "GenTextDeep"), generate("GenText", "GenTextDirectDeep"),
                     drive("positions,gap,large", THOROUGH), drive("huge,huge-queries", SOME)],
    },
    "T03": {
        "facts": ["read"],
        "quick": [SEGMENTS, generate("GenText", "GenTextQuick"), generate("GenText", "GenTextDirectQuick"),
                  drive("read,gap,large-queries", 400), drive("huge-queries", FEW)],
        "thorough": [SEGMENTS, generate("GenText", "GenTextDeep"), generate("GenText", "GenTextDirectDeep"),
                     drive("read,gap,large-queries", THOROUGH), drive("huge-queries", SOME)],
    },
    "T04": {
        "facts": ["insert.oob", "delete.oob", "delete.clamp", "total", "bounds", "read", "goto"],
        "quick": [SEGMENTS, generate("GenText", "GenTextOutQuick"), generate("GenText", "GenTextDirectQuick"),
                  drive("oob,gap,large", 400), drive("huge", FEW)],
        "thorough": [SEGMENTS, generate("GenText", "GenTextOutDeep"), generate("GenText", "GenTextDirectDeep"),
                     drive("oob,gap,everything,large,large-queries", THOROUGH), drive("huge", SOME)],
    },
    "A01": {
        "facts": ["order", "range", "linerange", "distance"],
        "quick": [SEGMENTS, generate("GenValues", "GenValuesQuick"), drive("values,large-queries", 200), drive("huge-queries", FEW)],
        "thorough": [SEGMENTS, generate("GenValues", "GenValuesDeep"), drive("values,large-queries", THOROUGH), drive("huge-queries", SOME)],
    },
    "L01": {
        "facts": ["iterate", "lines", "bounds"],
        "quick": [generate("GenValues", "GenValuesQuick"), drive("lines,large-queries", 500), drive("huge-queries", FEW)],
        "thorough": [generate("GenValues", "GenValuesDeep"), drive("lines,large-queries", THOROUGH), drive("huge-queries", SOME)],
    },
    "H01": {
        "facts": UNDO,
        "quick": [generate("GenHistory", "GenHistoryQuick", FILES), drive("history,history-files,everything,long,long-files,large,marathon,marathon-group", 250), drive("huge", FEW), drive("marathon-far", 1)],
        "thorough": [*STACKS, generate("GenHistory", "GenHistoryDeep", FILES), drive("history,history-files,everything,long,long-files,large,marathon,marathon-group", THOROUGH), drive("huge", SOME), drive("marathon-far", 4)],
    },
    "H02": {
        "facts": REDO,
        "quick": [generate("GenHistory", "GenHistoryQuick", FILES), drive("history,history-files,everything,long,long-files,large,marathon,marathon-group", 250), drive("huge", FEW), drive("marathon-far", 1)],
        "thorough": [*STACKS, generate("GenHistory", "GenHistoryDeep", FILES), drive("history,history-files,everything,long,long-files,large,marathon,marathon-group", THOROUGH), drive("huge", SOME), drive("marathon-far", 4)],
    },
    "H03": {
        "facts": UNDO + REDO + ["group"],
        "quick": [generate("GenHistory", "GenHistoryQuick", FILES), drive("groups,groups-files,long,marathon,marathon-group", 350)],
        "thorough": [*STACKS, generate("GenHistory", "GenHistoryDeep", FILES), drive("groups,groups-files,long,marathon,marathon-group", THOROUGH)],
    },
    "H04": {
        "facts": ["modified"],
        "quick": [generate("GenHistory", "GenHistoryQuick", FILES), generate("GenFiles", "GenFilesQuick", FILES),
                  drive("flag,groups-files,everything,long-files,marathon,marathon-group", 250), drive("huge-files", FEW)],
        "thorough": [*STACKS, generate("GenHistory", "GenHistoryDeep", FILES), generate("GenFiles", "GenFilesDeep", FILES),
                     drive("flag,groups-files,everything,long-files,marathon,marathon-group", THOROUGH), drive("huge-files", SOME)],
    },
    "F01": {
        "facts": ["open", "save", "save.text", "save.disk", "disk", "reload", "path"],
        "quick": [generate("GenFiles", "GenFilesQuick", FILES), drive("files,flag,large-files", 350), drive("huge-files", FEW)],
        "thorough": [generate("GenFiles", "GenFilesDeep", FILES), drive("files,flag,large-files", THOROUGH), drive("huge-files", SOME)],
    },
    "F02": {
        "facts": ["save.fail", "reload.fail", "open.fail", "modified", "path", "id", "syntax", "save", "reload", "open"]
                 + UNDO + REDO,
        "quick": [generate("GenFiles", "GenFilesQuick", FILES), drive("faults,large-files", 600), drive("huge-files", FEW)],
        "thorough": [generate("GenFiles", "GenFilesDeep", FILES), drive("faults,large-files", THOROUGH * 2), drive("huge-files", SOME)],
    },
    "F03": {
        "facts": ["replace", "cursor.replace", "notify.replace", "reload", "id", "syntax", "path", "modified"] + UNDO + REDO,
        "quick": [generate("GenFiles", "GenFilesQuick", FILES), drive("replace,large,large-files", 600), drive("huge,huge-files", FEW)],
        "thorough": [generate("GenFiles", "GenFilesDeep", FILES), drive("replace,large,large-files", THOROUGH * 2), drive("huge,huge-files", SOME)],
    },
    "C01": {
        "facts": ["goto", "move", "move.vertical"],
        "quick": [SEGMENTS, generate("GenCursor", "GenCursorQuick"), drive("cursor,large-queries", 500), drive("huge-queries", FEW)],
        "thorough": [SEGMENTS, generate("GenCursor", "GenCursorDeep"), drive("cursor,vertical,large-queries", THOROUGH), drive("huge-queries", SOME)],
    },
    "C02": {
        "facts": ["move.vertical"],
        "quick": [generate("GenCursor", "GenCursorQuick"), drive("vertical,sticky,cursor,large-queries", 400), drive("huge-queries", FEW)],
        "thorough": [generate("GenCursor", "GenCursorDeep"), drive("vertical,sticky,cursor,large-queries", THOROUGH), drive("huge-queries", SOME)],
    },
    "C03": {
        "facts": ["cursor.edit", "cursor.undo", "cursor.save", "cursor.group", "cursor.query", "save.fail", "reload.fail"],
        "quick": [generate("GenHistory", "GenHistoryQuick", FILES), drive("still,everything,long-files", 350)],
        "thorough": [generate("GenHistory", "GenHistoryDeep", FILES), generate("GenFiles", "GenFilesDeep", FILES),
                     drive("still,everything,long-files", THOROUGH)],
    },
    "N01": {
        "facts": ["notify.edit", "notify.undo", "notify.replace", "notify.quiet"],
        "quick": [generate("GenHistory", "GenHistoryQuick", FILES), drive("notify,everything,long-files,large,marathon,marathon-group", 350), drive("huge", FEW)],
        "thorough": [generate("GenHistory", "GenHistoryDeep", FILES), generate("GenFiles", "GenFilesDeep", FILES),
                     drive("notify,everything,long-files,large,marathon,marathon-group", THOROUGH), drive("huge", SOME)],
    },
    "S01": {
        "facts": ["search"],
        "quick": [SEGMENTS, generate("GenText", "GenTextQuick"), drive("search,large-queries", 600), drive("huge-queries", FEW)],
        "thorough": [SEGMENTS, generate("GenText", "GenTextDeep"), drive("search,large-queries", THOROUGH * 2), drive("huge-queries", SOME)],
    },
    "K01": {
        "facts": ["tokens"],
        "quick": [generate("GenTokens", "GenTokensQuick", "tokens=1"), tokens("tokens,tokens-own,tokens-large", 400), tokens("tokens-huge", 2)],
        "thorough": [*TOKENS, generate("GenTokens", "GenTokensDeep", "tokens=1"), tokens("tokens,tokens-own,tokens-large", THOROUGH), tokens("tokens-huge", 8)],
    },
    "K02": {
        "facts": ["scopes", "tokens.again"],
        "quick": [generate("GenTokens", "GenTokensQuick", "tokens=1"), tokens("tokens,tokens-own,tokens-large", 400), tokens("tokens-huge", 2)],
        "thorough": [*TOKENS, generate("GenTokens", "GenTokensDeep", "tokens=1"), tokens("tokens,tokens-own,tokens-large", THOROUGH), tokens("tokens-huge", 8)],
    },
    "W01": {
        "facts": ["order"],
        "quick": [generate_ws(ORDER + "Quick"), WORLD, workspaces("ws-order,ws-ident,ws-crowd", 150), workspaces("ws-throng", 4)],
        "thorough": [*CHECKOUT, generate_ws(ORDER + "Deep"), generate_ws(WSFILES + "Deep"), WORLD, workspaces("ws-order,ws-ident,ws-reopen,ws-crowd", THOROUGH), workspaces("ws-throng", 60)],
    },
    "W02": {
        "facts": ["isolated"],
        "quick": [generate_ws(EDITS + "Quick"), WORLD, workspaces("ws-isolate,ws-crowd", 250), workspaces("ws-throng", 4)],
        "thorough": [*CHECKOUT, generate_ws(EDITS + "Deep"), generate_ws(WSFILES + "Deep"), WORLD, workspaces("ws-isolate,ws-reopen,ws-crowd", THOROUGH), workspaces("ws-throng", 60)],
    },
    "W03": {
        "facts": ["ident"],
        "quick": [generate_ws(ORDER + "Quick"), WORLD, workspaces("ws-ident,ws-order,ws-crowd", 150), workspaces("ws-throng", 4)],
        "thorough": [*CHECKOUT, generate_ws(ORDER + "Deep"), generate_ws(EDITS + "Deep"), WORLD, workspaces("ws-ident,ws-order,ws-isolate,ws-crowd", THOROUGH), workspaces("ws-throng", 60)],
    },
    "W04": {
        "facts": ["reopen"],
        "quick": [generate_ws(WSFILES + "Quick"), WORLD, workspaces("ws-reopen,ws-crowd", 300), workspaces("ws-throng", 4)],
        "thorough": [*CHECKOUT, generate_ws(WSFILES + "Deep"), generate_ws(ORDER + "Deep"), WORLD, workspaces("ws-reopen,ws-crowd", THOROUGH * 2), workspaces("ws-throng", 60)],
    },
    "W05": {
        "facts": ["listing"],
        "quick": [generate_ws(WSFILES + "Quick"), generate_ws(SYNTAX + "Quick"), WORLD, workspaces("ws-listing,ws-crowd", 300), workspaces("ws-throng", 4)],
        "thorough": [*CHECKOUT, generate_ws(WSFILES + "Deep"), generate_ws(SYNTAX + "Deep"), WORLD, workspaces("ws-listing,ws-crowd", THOROUGH * 2), workspaces("ws-throng", 60)],
    },
    "W06": {
        "facts": ["syntax"],
        "quick": [generate_ws(SYNTAX + "Quick"), WORLD, workspaces("ws-syntax", 200)],
        "thorough": [generate_ws(SYNTAX + "Deep"), WORLD, workspaces("ws-syntax", THOROUGH)],
    },
}
