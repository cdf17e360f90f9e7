"""Changes of the specification that the replay must notice."""
# (module, what, replacement, model, environment, mode)
MUTANTS = [
    ("Lines", "s[i + 1] \\in {SP, TAB}", "s[i + 1] \\in {SP}", "MC_Fold", {"N": "1"}, "compare"),
    ("Lines", "IF i > 1 /\\ s[i - 1] = CR THEN {i - 1} ELSE {}", "{}", "MC_Near", {"N": "1", "SET": "breaks", "WIDTH": "narrow"}, "compare"),
    ("Reader", 'S("VERSION:3.0"), ', "", "MC_Reader", {"N": "4", "ALPHABET": "once", "EMIT": "decode"}, "compare"),
    ("Reader", 'IF line.t = <<>> THEN "SkipBlank"', 'IF FALSE THEN "SkipBlank"', "MC_Compose", {"N": "2"}, "compare"),
    ("Reader", '/\\ ~Taken(rd.cur, o.p)', '', "MC_Reader", {"N": "5", "ALPHABET": "once", "EMIT": "decode"}, "compare"),
    ("Reader", 'NextBeginAfter(lines, b + 1)', 'r.at', "MC_Reader", {"N": "5", "ALPHABET": "wide", "EMIT": "iter"}, "compare"),
    ("Reader", 'SelectSeq(props, LAMBDA p : p.s = s)', 'Reverse(SelectSeq(props, LAMBDA p : p.s = s))', "MC_Reader", {"N": "5", "ALPHABET": "wide", "EMIT": "decode"}, "compare"),
    ("ContentLine", 'IF v.st = "err" /\\ ~cfg.strict THEN acc ELSE', 'IF FALSE THEN acc ELSE', "MC_Params", {"N": "1", "POOL": "all"}, "compare"),
    ("ContentLine", 'old \\o l.v', 'l.v', "MC_Params", {"N": "2", "POOL": "small"}, "compare"),
    ("ContentLine", 'IF slot # "ADR" THEN Fail(acc) ELSE', 'IF FALSE THEN Fail(acc) ELSE', "MC_Params", {"N": "1", "POOL": "all"}, "compare"),
    ("ContentLine", 'IF pv.v = S("UTF-8") THEN acc', 'IF Len(pv.v) = 5 THEN acc', "MC_Near", {"N": "1", "SET": "params", "WIDTH": "narrow"}, "compare"),
    ("ContentLine", 'IF Len(parts) < 7 THEN Bad', 'IF Len(parts) < 6 THEN Bad', "MC_Near", {"N": "1", "SET": "values", "WIDTH": "narrow"}, "compare"),
    ("ContentLine", 'IF n.st = "ok" /\\ n.v = <<48>> THEN Bad', 'IF FALSE THEN Bad', "MC_Near", {"N": "1", "SET": "values", "WIDTH": "narrow"}, "compare"),
    ("ContentLine", 'ELSE IF vt = <<>> THEN TextOrUri(val) ELSE Bad\n         [] holds = "photo"', 'ELSE IF vt = <<>> THEN V("ok", "text", <<val>>) ELSE Bad\n         [] holds = "photo"', "MC_Routing", {"N": "1"}, "compare"),
    ("Text", 'Escapable == {BSL, 110, 78, COMMA, SEMI}', 'Escapable == {BSL, 110, COMMA, SEMI}', "MC_Text", {"N": "3", "SET": "values"}, "compare"),
    ("Text", 'esc |-> c = BSL /\\ ~st.esc', 'esc |-> c = BSL', "MC_Text", {"N": "3", "SET": "values"}, "compare"),
    ("Text", 'IF r.esc THEN Append(r.out, BSL) ELSE r.out', 'r.out', "MC_Text", {"N": "3", "SET": "values"}, "compare"),
    ("Text", 'IF Len(all) > n - 1 THEN SubSeq(all, 1, n - 1) ELSE all', 'all', "MC_Text", {"N": "3", "SET": "values"}, "compare"),
    ("Chars", 'IsControl(c) == (c < 32 /\\ c # TAB) \\/ c = 127', 'IsControl(c) == c < 32 /\\ c # TAB', "MC_Text", {"N": "2", "SET": "wide"}, "compare"),
    ("Temporal", '(y % 100 # 0) \\/ (y % 400 = 0)', 'y % 100 # 0', "MC_Temporal", {"N": "3", "SET": "days", "EMIT": "read"}, "compare"),
    ("Temporal", 'IF h <= 23 /\\ m <= 59 THEN Ok(OffText', 'IF h <= 23 /\\ m <= 60 THEN Ok(OffText', "MC_Temporal", {"N": "3", "SET": "zones", "EMIT": "read"}, "compare"),
    ("Temporal", 'IF h = 0 /\\ m = 0 THEN PLUS ELSE sign', 'IF h = 0 THEN PLUS ELSE sign', "MC_Temporal", {"N": "3", "SET": "zones", "EMIT": "read"}, "compare"),
    ("Temporal", '[] sh = ShM  -> MkDate(0, N2(s, 3), 1)', '[] sh = ShM  -> MkDate(0, 1, N2(s, 3))', "MC_Temporal", {"N": "4", "SET": "digits", "EMIT": "read"}, "compare"),
    ("Temporal", '[] sh = S("--99")   -> MkTime(0, 0, N2(s, 3))', '[] sh = S("--99")   -> MkTime(0, N2(s, 3), 0)', "MC_Temporal", {"N": "4", "SET": "digits", "EMIT": "read"}, "compare"),
    ("Values", 'MinI64 == S("9223372036854775808")', 'MinI64 == S("9223372036854775807")', "MC_Values", {"N": "2"}, "print"),
    ("Values", 'S("muse"), ', 'S("musf"), ', "MC_Values", {"N": "2"}, "print"),
    ("Values", 'IF r.st = "ok" /\\ r.v = <<48>> THEN Err ELSE r', 'r', "MC_Params", {"N": "1", "POOL": "all"}, "compare"),
    ("Values", 'Ok(Lower(scheme) \\o', 'Ok(scheme \\o', "MC_Near", {"N": "1", "SET": "values", "WIDTH": "narrow"}, "compare"),
    ("Values", 'ELSE IF StartsWith(l, S("x-")) THEN', 'ELSE IF StartsWith(s, S("x-")) THEN', "MC_Params", {"N": "1", "POOL": "all"}, "compare"),
    ("Schema", '<<"UID", "texturi">>', '<<"UID", "uri">>', "MC_Routing", {"N": "1"}, "compare"),
    ("Schema", '"PRODID", "REV", "UID"}', '"PRODID", "UID"}', "MC_Reader", {"N": "5", "ALPHABET": "once", "EMIT": "decode"}, "compare"),
    ("Schema", '"TITLE",\n   "ROLE"', '"TITLE", "PRODID",\n   "ROLE"', "MC_Params", {"N": "1", "POOL": "all"}, "compare"),
    ("Schema", 'LET u == Upper(name) IN\n  IF u \\in DOMAIN NamesByText', 'LET u == name IN\n  IF u \\in DOMAIN NamesByText', "MC_Names", {"N": "1"}, "compare"),
    ("Builder", 'IF slot \\in Once THEN Without(card, slot) ELSE card', 'card', "MC_Builder", {"N": "2"}, "compare"),
    ("Builder", '<<"fburl", "FBURL", "uri">>', '<<"fburl", "CALURI", "uri">>', "MC_Builder", {"N": "2"}, "compare"),
    ("Photos", 'IF c = PLUS THEN 62 ELSE 63', 'IF c = PLUS THEN 63 ELSE 62', "MC_Photo", {"N": "2", "SET": "bytes"}, "compare"),
    ("Photos", 'IF p.t # "text" \\/ Upper(Jpeg) \\notin types THEN "no"', 'IF p.t # "text" THEN "no"', "MC_Photo", {"N": "2", "SET": "marks"}, "compare"),
    ("Photos", 'IF n % 4 # 0 \\/', 'IF FALSE \\/', "MC_Photo", {"N": "2", "SET": "base64"}, "compare"),
    ("Reader", '/\\ card[k].x = <<S("group")>>', '', "MC_Cards", {"N": "2", "EMIT": "validate"}, "compare"),
]
