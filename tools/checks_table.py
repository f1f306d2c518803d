NOTES = ("Every check runs against /repo's working tree (pure Python, nothing to build), in-process or from a throw-away copy. "
         "Search engine: vf/draw.py (recorded choice sequences, shrinking) and vf/runner.py. Findings: known_findings.json.")
EX = "model-based property testing: generated boards, answers compared with a full enumeration by an independent reference model, shrinking to a replay file"
SM = "small boards (complete enumeration of the answer space); larger boards are covered by C10"
RL = "small boards (complete answer space) plus single generated cases on larger boards"
TECH = {
 "C01": ("property-based testing: independent link codec as reference model, round trip of generated boards",
         "random boards up to 20x20 with margins; reference is an independent codec of the link format"),
 "C02": ("property-based testing: generated answers stored into generated boards; independent codec and round-trip oracle",
         "random boards and answers; reference is an independent codec of the link format"),
 "C03": (EX, SM), "C04": (EX, SM), "C05": (EX, SM), "C06": (EX, SM), "C07": (EX, SM),
 "C08": ("model-based property testing: generated boards solved under several limits, list length and distinctness against the reference model's count", SM),
 "C15": ("property-based testing: rule text from generated parameters; every colouring accepted by the solver compared with a flood-fill reference, shrinking", RL),
 "C16": ("property-based testing: rule text from generated parameters; accepted colourings and divisions compared with an independent shape classifier, shrinking", RL),
 "C17": ("property-based testing: rule text from generated parameters; accepted grids compared with the plain reading of the rule, shrinking", RL),
 "C18": ("property-based testing: rule text from generated parameters; accepted drawings compared with a backtracking enumeration, shrinking", RL),
 "C19": ("property-based testing: generated border sets, rooms compared with a union-find reference; metamorphic relation (x marks change nothing) on every room puzzle", "boards up to 16x16; three random start orders per board"),
 "C09": ("metamorphic property testing: marks of an answer added to generated and shipped boards must filter the answers exactly; shrinking", "small generated boards of every puzzle type, and the shipped example boards (up to 20x20)"),
 "C10": ("metamorphic property testing: generated and shipped boards turned, mirrored and moved, answers compared after turning back; shrinking", "small generated boards of every puzzle type, and the shipped example boards (up to 20x20)"),
 "C11": ('stateful property testing: generated request sequences (and sequences of rule-function calls) in one process, every result compared with a fresh forked process; shrinking',
         'sequences of up to 8 requests / 12 calls, all puzzle types'),
 "C12": ('generative fuzzing of the running server: generated well-formed, rejected and malformed requests, status and body compared with the solver in-process; shrinking',
         'real server on a loopback port from a scratch copy; boards up to 20x20'),
 "C14": ('property-based testing: generated boards, answer limits and time limits cutting the search; every returned list compared with an independent exhaustive run of the same program; shrinking',
         'in-process and over HTTP; boards from 2x2 to the shipped examples; time limits 0.01-2 s'),
 "C13": ('property-based testing: legal generated boards of every puzzle type get one forbidden thing from a table of input rules per type; oracle: the request ends in a ValueError with an explanation; shrinking',
         'about 130 puzzle types, 33 kinds of forbidden input, both layers; places and kinds of clues per type are written down in the check'),
 "C20": ('property-based testing: generated solver folders (plug-in files, names, metadata, import orders) loaded in fresh processes; advertised examples, options and defaults as requests in both forms; oracle: the generated folder, acceptance and the declared metadata; shrinking',
         "133 puzzle types, all board-link examples; web-link (puzz.link) examples need the page's own importer, which is not in the repository"),
 "C22": ("property-based testing: generated boards solved under several drawn option sets in one process; oracle: independent reference rules parameterised by the options, plus metamorphic relations for heyawake's fast mode; shrinking",
         '15 puzzle types with options, all values and combinations on small boards'),
 "C23": ('property-based testing (differential): the same generated request in processes with other hash seeds, thread counts and random states, in-process and over HTTP; oracle: equal answer sets; shrinking',
         'all puzzle types, 1-8 threads; answer limit 60 in-process, 10 over HTTP'),
 "C21": ("property-based testing (differential): generated boards, rejected and damaged ones, and shipped examples solved by the page's own scripts and bundled Python files (stand-in browser) and by the server; oracle: same set of answers or the same explanation; bundle metadata invariants; shrinking",
         'all puzzle types; node with stand-ins for DOM, penpa-edit and PyScript; clingo native instead of WebAssembly'),
 "C24": ("property-based testing (stateful, model-based): generated histories of user actions and network responses played on the page's own scripts in node with a stand-in DOM; oracle: a reference state machine of the page; shrinking",
         'the DOM, penpa-edit, the network and clingo are stand-ins; real answers go through the page in C21'),
 "C25": ('stateful property-based testing: generated histories of starts, deployments, kills at any file operation and source changes, compared with a single start or deployment in a fresh copy; generated request paths against the set of page files',
         'kills come from a sitecustomize of the check (audit hook on file operations, cut text writes); -d (auto-reload) is not started'),
}
