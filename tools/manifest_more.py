STORE = "Exhaustive step-level model of saving (two writers, failures, readers); the real store code runs generated histories on an in-memory LMDB stand-in (several handles, reopening, failures, writer threads) and every recorded history is validated against the same contract. LMDB itself is assumed to keep its documented promises."
G = " Generated inputs: exhaustive for short ones, weighted random beyond; every recorded call is judged by the TLA+ semantics, whose own laws TLC checks on all small inputs and against deliberately wrong variants."
T.update({
 "A01": (OR, "model_checking", "Text codec." + G),
 "A02": (OR, "model_checking", "Parser, printer, tokenizer, replacement." + G),
 "A03": (OR, "model_checking", "Evaluator with all built-in functions and macros." + G),
 "A04": (OR, "model_checking", "Stacks of scopes, their grouping and overlaps." + G),
 "A05": (OR, "model_checking", "Every built-in function. Padding to between 1 MB and what memory can hold is not exercised." + G),
 "A06": (OR, "model_checking", "Encoders; every result is also evaluated back in the specification." + G),
 "A07": (OR, "model_checking", "Configuration lists built, printed, reread and looked up." + G),
 "F01": (OR, "model_checking", "Fixed-size values of nine widths." + G),
 "F02": (OR, "model_checking", "Eight integer types." + G),
 "K01": (OR, "model_checking", "The calls of one run are judged together as a history; cryptography is taken to be ideal." + G),
 "K02": (OR, "model_checking", "The calls of one run are judged together as a history; cryptography is taken to be ideal; low Argon2 costs." + G),
 "P01": (OR, "model_checking", "Packets built from generated fields, and chains of copies and header changes over every in-memory form." + G),
 "P02": (OR, "model_checking", "Byte streams: valid, truncated at every point, altered, and adversarial headers; what hashing and signature checking say is established apart from the code under test." + G),
 "P03": (OR, "model_checking", "Spaces in all their forms, and the expressions over them." + G),
 "Q02": (OR, "model_checking", "Sets of rules of every integer width, queries of up to eight statements over every field in every spelling, their printed forms, and options." + G),
 "Q01": (OR, "model_checking", "A step-level model of the tree walk with its jumps is checked on all small stores and queries. Stores of generated packets on an in-memory LMDB stand-in are queried in every mode and direction." + G),
 "Q03": (OR, "model_checking", "A step-level model of the counters is checked on all small stores and limits. Stores of generated packets on an in-memory LMDB stand-in are queried in every mode and direction." + G),
 "S01": (MT, "model_checking", STORE),
 "S02": (MT, "model_checking", STORE + " Errors and crashes are injected at every kind of step of the write transaction."),
 "S03": (MT, "model_checking", STORE),
})
