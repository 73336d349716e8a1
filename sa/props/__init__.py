"""property id -> (module, function, title)"""
REGISTRY = {
    "M01": ("board_machine", "m01", "mouse automaton"),
    "M02": ("board_machine", "m02", "click counters"),
    "M03": ("board_machine", "m03", "game state transitions"),
    "M04": ("board_machine", "m04", "finished game absorbs"),
    "M05": ("board_machine", "m05", "flag toggling"),
    "M06": ("board_machine", "m06", "chording rule"),
    "M07": ("board_machine", "m07", "mine layout immutable in play"),
    "M08": ("board_machine", "m08", "opening a cell"),
    "M09": ("board_machine", "m09", "win test"),
    "M10": ("board_machine", "m10", "reset is fresh"),
    "M11": ("board_machine", "m11", "solved 3BV"),
    "M12": ("board_machine", "m12", "step result code"),
    "M13": ("sequence", "m13", "sequences of operations"),
    "V01": ("video", "v01", "result metadata locked"),
    "V02": ("video", "v02", "figures readable only when they exist"),
    "V03": ("video", "v03", "figures come from the right record"),
    "V04": ("video", "v04", "derived figures"),
    "V05": ("video", "v05", "figures at the end of a game"),
    "V06": ("video", "v06", "game clock"),
    "V07": ("video", "v07", "recording a game"),
    "V08": ("video", "v08", "path length"),
    "V09": ("video", "v09", "replay navigation"),
    "V10": ("video", "v10", "taking a board"),
    "V11": ("evf", "v11", "reading an EVF file"),
    "V12": ("evf", "v12", "writing an EVF file"),
    "V13": ("evf", "v13", "audit decision"),
    "V14": ("evf", "v14", "saving never overwrites"),
    "V15": ("evf", "v15", "analysing a replay"),
    "V16": ("evf", "v16", "figures of an analysed replay"),
    "U01": ("utilities", "u01", "opening rule"),
    "S01": ("boards", "s01", "encoded boards"),
    "S02": ("boards", "s02", "board statistics are remembered"),
    "S03": ("boards", "s03", "board analysis is remembered"),
    "V17": ("grids", "v17", "end-of-game display"),
    "A01": ("grids", "a01", "board statistics"),
    "V18": ("foreign", "v18", "reading an AVF file"),
    "V19": ("foreign", "v19", "reading an RMV file"),
    "V20": ("clone", "v20", "reading an MVF file"),
    "V21": ("panics", "v21", "malformed files"),
    "V22": ("remarks", "v22", "remarks on guesses"),
    "V23": ("remarks", "v23", "remarks on the mouse path"),
    "V24": ("remarks", "v24", "textbook FL"),
    "V25": ("remarks", "v25", "probabilities during replay"),
    "B01": ("bindings", "b01", "Python functions"),
    "B02": ("bindings", "b02", "Python objects"),
    "B03": ("bindings", "b03", "JavaScript package"),
    "A02": ("mines", "a02", "laying mines"),
    "A03": ("solvable", "a03", "solvable boards"),
    "A04": ("chording", "a04", "good chords"),
    "A05": ("chording", "a05", "probabilities on the board"),
    "A06": ("solving", "a06", "putting the engines together"),
    "A08": ("openings", "a08", "chances of openings"),
    "A07": ("recognition", "a07", "legalising recognised boards"),
}
