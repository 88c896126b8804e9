ENUM = "explicit-state exploration, every explored state replayed on the real code"
TECH["G01"] = TECH["G02"] = TECH["G03"] = ("explicit-state exploration of the grammar model; the real generator and parser run on every accepted state",
  "model_checking", "Every accepted program of the explored worlds and every derivation up to a size is printed, read back and compared; nothing is sampled.")
TECH["G04"] = ("explicit-state exploration of the grammar model; the real generator runs on every accepted state and the reference model reads the lines of its output",
  "model_checking", "Every line of the pretty text of every accepted program of the explored worlds and of every derivation up to a size is compared with the layout the reference tree of that text asks for.")
TECH["T01"] = TECH["T02"] = ("explicit-state exploration of the grammar model; the real traversal runs on every accepted state and, for T02, under every single refused node",
  "model_checking", "The visited sequence is compared with the tree as serde shows it, a path through the code that shares nothing with the traversal.")
TECH["T03"] = ("explicit-state exploration of the grammar model; on every accepted state the real traversal runs with a visitor that changes every node, one that changes it back, and one that refuses each node in turn",
  "model_checking", "What the visits left in each node is compared with the tree as serde shows it; the tree at the end is compared with the one at the start.")
TECH["A01"] = ("explicit-state exploration of the grammar model; the real serialiser runs on every accepted state",
  "model_checking", "Every tree of the explored space is written to JSON and read back.")
TECH["P11"] = ("explicit-state exploration of every nesting of context constructs in lock-step with the real parser",
  "model_checking", "Every nesting of the context constructs up to the stated depth around every probe is a state; the reference model's verdict and tree are compared in each.")
TECH["P13"] = ("explicit-state exploration of a reference grammar model in lock-step with the real parser",
  "model_checking", "As for the grammar properties, comparing every node's range, with every program also moved behind multi-byte and multi-line text.")
_lex = "explicit-state exploration of the reference lexer over every string of the stated pieces, the real token reader run on each"
for _id, _what in {
  "L01": "Every string over the alphabets up to the stated length is split by the real reader and by the reference lexer and the token sequences are compared.",
  "L02": "As for L01, comparing every range.",
  "L03": "Every string of numeric characters up to the stated length, in every position the grammar tells apart.",
  "L04": "Every string of string-literal pieces up to the stated length.",
  "L05": "Every string of template and regular-expression pieces up to the stated length.",
  "L06": "Every string of white space, line terminator and comment pieces between tokens up to the stated length."}.items():
    TECH[_id] = (_lex, "model_checking", _what)
TECH["L07"] = ("explicit-state exploration of reader operation histories", "model_checking",
  "Every history of peek, consume, rewind and re-read up to the stated depth runs on the real reader and on a model that reads the tokens afresh.")
TECH["P01"] = ("explicit-state exploration of token strings and nestings, the real parser run on every state", "model_checking",
  "Every string of the stated words up to the stated length, and every nesting of construct pairs, is parsed at every entry point and its error rendered.")
TECH["P15"] = ("explicit-state exploration of token strings, the real parser and error emitter run on every state", "model_checking",
  "Every rejected string of the explored space is rendered, and the place in the rendering is recomputed from the text by an independent reader of the message.")
TECH["P14"] = ("explicit-state exploration of programs and layout placements, the real parser run on every state", "model_checking",
  "Every layout element in every gap between two tokens (and in all gaps at once) of every explored program is a state; the reference grammar decides whether the gap matters.")
TECH["P16"] = ("explicit-state exploration of the grammar model; every part, embedding, pair and mode of every state run on the real parser", "model_checking",
  "Every statement and expression of every explored program is parsed on its own, put into every construct, joined with every other and read as script and as module.")
TECH["A02"] = ("exhaustive enumeration of texts and contexts against the grammar's tables", "model_checking",
  "Every text over the operator characters and over the letters up to a length, and every one-change neighbour of every member, is converted in every family.")
TECH["M01"] = ("explicit-state exploration of line sequences and edit histories on a reference document model, replayed on the real code", "model_checking",
  "Every sequence of lines up to the stated length and every history of up to two edits is run on the reference document and on the real one.")
TECH["C01"] = ("exhaustive enumeration of command lines, file names and sources, each run as a process", "model_checking",
  "Every combination of the command lines, names and sources is executed and compared with the library called directly.")
