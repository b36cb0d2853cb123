DER = {
    "C23": "derived code of random structs run against an object built by hand",
    "C24": "derived code of random structs run against a field-by-field reference reading",
    "C25": "compiler diagnostics of random structs, with controls implemented by hand",
    "C26": "compiler diagnostics of random declarations that have to be rejected, with controls",
    "C27": "templates of quote! run inside the compiler, against the tokens they describe",
    "C28": "json_parse run inside the compiler on random declarations, against an independent reading of the tokens",
    "C31": "queries answered inside the compiler for random attribute lists, against the lists that were written",
    "C32": "types and parts of declarations parsed alone inside the compiler, against an independent reading of the tokens",
}
pend = []
