TECH = {"default": "TLA+ specification model-checked with TLC; recorded histories of the real code (seeded and generated from the specification) validated against it by TLC"}
LEVEL_NOTE["default"] = "The specification is checked exhaustively within small constants; conformance is decided by TLC on every recorded history of the real code (seeded random plans and plans generated from the specification), so the assurance about the code is for the histories explored. Trusts the driver's recording, the compiler and TLC."
NA = {}
NOTES = "TLA+ with TLC throughout; see DESIGN.md."
