S = "Decides the executions it produces, nothing more; seeded by VERIF_SEED and deterministic per seed. "
CLAIMS = {
 "C01": ("runtime monitoring: random layouts of a document model, parse result compared with the model",
         S + "Trusts the independent model, its renderer and its decoding rules."),
 "C02": ("runtime monitoring: uniquely marked comments tracked through parsing and formatting",
         S + "Trusts the renderer; comments are put only where the subset allows them."),
 "C03": ("runtime monitoring: format/parse round trip of every accepted text, under generated and mutated texts",
         S + "Compares the library's trees with their own equality."),
 "C04": ("runtime monitoring: formatted texts of several layouts of one model compared with each other",
         S + "Trusts the renderer to write the same document in each layout."),
 "C05": ("runtime monitoring: panic, overflow, stack and location monitors under hostile texts in a supervised process",
         S + "Built with overflow checks and debug assertions; worker stacks of 8 MB; nesting up to 60."),
 "C06": ("runtime monitoring: conservation of characters between accepted text and formatted text",
         S + "Independent of what the parser understood; white space and indentation indicators are left out."),
 "C07": ("runtime monitoring: fault injection into accepted documents, each must be rejected",
         S + "Trusts the list of faults to be faults; each is checked to be the only reason for rejection."),
 "C08": ("runtime monitoring: decoded scalars compared with an independent decoder",
         S + "Trusts the model's own folding, escape and chomping rules (differentially checked against PyYAML while developing)."),
 "C09": ("runtime monitoring: split and join of random strings, width monitor",
         S + "Strings of up to a dozen words and line breaks."),
 "C10": ("runtime monitoring: generated and mutated path texts against an independent path reader",
         S + "Trusts the reader written from the property."),
 "C11": ("runtime monitoring: query results compared with an independent selection over the recorded tree",
         S + "Trusts the reference selection; worlds of a few dozen nodes."),
 "C12": ("runtime monitoring: tree before and after each insertion compared with a reference edit",
         S + "Trusts the reference edits over the projected tree."),
 "C13": ("runtime monitoring: tree before and after each removal, renaming and wrapping compared with a reference edit",
         S + "Trusts the reference edits over the projected tree."),
 "C14": ("runtime monitoring: tree before and after each move compared with a reference edit, conservation of values",
         S + "Trusts the reference edits over the projected tree."),
 "C15": ("runtime monitoring: tree before and after each regrouping compared with a reference edit, conservation of entries",
         S + "Trusts the reference edits over the projected tree."),
 "C16": ("runtime monitoring: histories of edits, each state formatted and parsed back",
         S + "Comments are compared by order, not by place."),
 "C17": ("runtime monitoring: tree before and after prettifying compared entry by entry, decoded string by decoded string",
         S + "Trusts the projection to the model and its decoding rules."),
 "C18": ("runtime monitoring: prettified trees formatted, parsed and prettified again",
         S + "Compares the library's trees with their own equality, and data with the projection."),
 "C19": ("runtime monitoring: serde round trip in memory over types made at run time and derived types",
         S + "Trusts serde; types made at run time use the same data model calls as derived ones."),
 "C20": ("runtime monitoring: serde round trip through formatted text, typed and untyped",
         S + "Trusts serde; the untyped reading is watched for strings that change kind."),
 "C21": ("runtime monitoring: typed and untyped reading compared with an independent reader of scalar texts and shapes",
         S + "Trusts the reference classification written from the property."),
 "C22": ("runtime monitoring: reading with references compared with reading the document with each reference replaced",
         S + "Trusts the reference resolution over the model."),
 "C23": ("runtime monitoring: recorded calls of visitors and mappers compared with a walk over the model",
         S + "Trusts the projection to the model."),
 "C24": ("runtime monitoring: parser step counter and allocation counter against a polynomial bound, with growing families",
         S + "Steps are counted by pest's call limit; memory by a counting allocator in the harness."),
 "C25": ("runtime monitoring: differential histories across orders, threads, callbacks and processes; ThreadSanitizer, AddressSanitizer and Miri",
         S + "Schedules are the machine's own with random delays, and Miri's seeded ones; data races need a sanitizer build, whose absence the evidence would show."),
 "C26": ("runtime monitoring: allocation counter and parser step counter against a polynomial bound, over growing paths, edits and values",
         S + "Memory is counted by an allocator in the harness, steps by pest's call limit; work that allocates nothing is not measured."),
}
NOT_APPLICABLE = {}
