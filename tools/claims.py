TRUST = " Trusted: the harness's own model and generator (harness/src), proptest, rustc; bounded to generated cases."
CLAIMS = {
"C01": ("model-based property testing: random edit histories of the piece table against a plain string", "Every observer (text, length, emptiness, sub-ranges) is compared with a String after each edit of generated histories." + TRUST),
"C02": ("model-based property testing: random edit histories, line index and coordinates against a split of the text", "All lines, and all or sampled offsets, compared with an independent grapheme/line model after each edit." + TRUST),
"C03": ("model-based property testing: random edit/undo/redo histories against a model of text versions", "Needs the guarded hooks to reach replace/undo/redo, which are crate-private." + TRUST),
"C11": ("stateful property testing of the server process over Unix and TCP sockets: histories of connections, batches of lines, resets and quits against the answers and messages each connection must get", "Real processes and sockets; each failure is replayed up to 8 times to confirm it." + TRUST),
"C12": ("property-based round-trip testing and structured garbage generation for the JSON-RPC library", "Round trips of every message kind, classification of shapes and of broken JSON." + TRUST),
"C13": ("property-based and exhaustive round-trip testing of key events", "All characters x all modifiers x all named keys enumerated, sequences and junk generated." + TRUST),
"C14": ("property-based testing of session names against an address model", "Names generated from grammar and junk, sockets created in a scratch directory." + TRUST),
"C15": ("property-based testing of the menu search against a specification of matches and order", "Candidates and words generated over a small confusable alphabet, incl. regex metacharacters and case folding." + TRUST),
"C17": ("stateful property testing of the client connection against a model, over generated server lines", "Line histories of notifications, responses and malformed lines, interleaved with menu calls." + TRUST),
"C21": ("stateful property testing of the recency map against a list model", "Random operation histories." + TRUST),
"C22": ("property-based testing of short names against their specification over generated path sets", "Sets of paths sharing components." + TRUST),
"C23": ("model-based property testing of the terminal client in a pseudo terminal: generated sizes, server messages, keys and resizes; a terminal emulator compared with a model of the screen, and the requests with those expected", "The real program in a real pseudo terminal, against a fake server." + TRUST),
"C24": ("property testing of the program as a process: generated inputs, command lines and fake-server lines; differential against the editor itself, relay and trace models", "Real processes; standalone is compared with the editor run in a process of the same arguments." + TRUST),
"C18": ("stateful property testing of the shared library, loaded and driven through its C functions against a fake server", "Struct layouts written by hand from the C header; menu entries and lens lines have no accessor in the interface." + TRUST),
"C25": ("property testing of the generator: generated descriptions; the source generated is compiled with types counting their releases and every function of it called", "Real compiler and linker; the formatter started on the written file is kept from running." + TRUST),
"C04": ("stateful model-based property testing of the editor: histories of openings and of changes on disk, each view compared with the files", "Sequences of requests to the real Editor, checked against a reference model after each step." + TRUST),
"C05": ("stateful model-based property testing of the editor: histories of moves by keys and scripts against moves computed on the characters of the text", "Sequences of requests to the real Editor, checked against a reference model after each step." + TRUST),
"C06": ("stateful model-based property testing of the editor: histories of moves, deletions, rewrites and reloads by several clients; every selection checked", "Sequences of requests to the real Editor, checked against a reference model after each step." + TRUST),
"C07": ("stateful model-based property testing of the editor: histories of edits and moves, and line ranges rendered directly, against a rendering computed from the string", "Sequences of requests to the real Editor, checked against a reference model after each step." + TRUST),
"C08": ("stateful model-based property testing of the editor: histories of opening, composing and deleting views by several clients against a model of views and buffers", "Sequences of requests to the real Editor, checked against a reference model after each step." + TRUST),
"C09": ("stateful model-based property testing of the editor: lines of every kind in states reached by random histories; form, id and code of the answer", "Sequences of requests to the real Editor, checked against a reference model after each step." + TRUST),
"C10": ("stateful model-based property testing of the editor: histories by several clients; what each was sent against its up-to-date view and the expected messages", "Sequences of requests to the real Editor, checked against a reference model after each step." + TRUST),
"C16": ("stateful model-based property testing of the editor: histories of menus opened, searched and chosen from, against what exists and the corresponding request", "Sequences of requests to the real Editor, checked against a reference model after each step." + TRUST),
"C19": ("stateful model-based property testing of the editor: histories of lists of keys by several clients against a model of modes", "Sequences of requests to the real Editor, checked against a reference model after each step." + TRUST),
"C20": ("stateful model-based property testing of the editor: generated scripts with faults against a model of the script interface", "Sequences of requests to the real Editor, checked against a reference model after each step." + TRUST),
}
NOT_CLAIMED = {}
