"""Why a property of the catalogue has no check."""
NA = {
    "P12": "Not encoded, because there is no tree on which it could hold: extraction accepts URIs with text left over, a trailing placeholder is not validated, long patterns are cut, and the plain and the optimised implementation differ for nested braces and for empty optional integers; making them agree is a rewrite, not a small repair (DESIGN.md, defects seen and left).",
    "P24": "Not encoded: closing and replacing connections runs in a maintenance thread and a health-check thread that share an idle list across unlocks, and nodes come from two allocators; the taking operation can return a socket it has just closed, and the repair is a rewrite of that loop rather than a small fix (DESIGN.md, defects seen and left).",
    "P28": "The event store disagrees with the property (an unknown last event id replays everything, event ids of different streams collide) and the header does not say what is intended; there is no current behaviour to hold it to (DESIGN.md, defects seen and left).",
    "P29": "The parsers drop what follows a complete event or response in the same piece, by the design of their calling interface; the property fails on the current tree and the repair changes that interface (DESIGN.md, defects seen and left).",
    "P32": "The cache identifies a schema by a 32-bit hash of its text, hands out entries that a later call may free, and keeps parsed schemas in the arena of the thread that added them, which is reset after each message; making the property true needs a different key, other memory and reference counts, not a small repair (DESIGN.md, defects seen and left).",
    "P34": "Decided where it matters as part of the other properties: every harness asserts after each operation that all locks are released exactly once (P08, P09, P10, P16, P17, P18, P22, P25, P26, P27, P31, P35). It is not claimed separately because the connection pool it also names is not encoded.",
}
