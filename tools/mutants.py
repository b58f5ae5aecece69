#!/usr/bin/env python3
"""List small mechanical changes to /repo's sources.
   mutants.py REPO > list.jsonl      (file, line, old line(s), new line)"""
import re, sys, json, os
repo = sys.argv[1]
files = ["src/lexer.rs", "src/parse.rs", "src/parse/iter.rs", "src/token.rs", "src/ast.rs", "src/ast/builder.rs",
         "src/ast/builder/default_builder.rs", "src/ast/builder/empty_builder.rs"]
out, seen = [], set()
def emit(f, i, old, new, kind):
    if old == new: return
    key = (f, i, new)
    if key in seen: return
    seen.add(key)
    out.append({"id": len(out), "file": f, "line": i + 1, "old": old, "new": new, "kind": kind})
TOK = ["Newline", "ParenOpen", "ParenClose", "CurlyOpen", "CurlyClose", "SquareOpen", "SquareClose", "Bang", "Tilde", "Pound", "Star",
       "Question", "Backslash", "Percent", "Dash", "Equals", "Plus", "Colon", "At", "Caret", "Slash", "Comma", "Pipe", "OrIf", "Dollar",
       "Backtick", "SingleQuote", "DoubleQuote", "Amp", "AndIf", "Semi", "DSemi", "Less", "LessAnd", "LessGreat", "DLess", "DLessDash",
       "Great", "GreatAnd", "DGreat", "Clobber"]
SW = [("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "),
      (" + ", " - "), (" - ", " + "), ("+= ", "-= "), ("-= ", "+= "), ("true", "false"), ("false", "true"), ("is_none()", "is_some()"), ("is_some()", "is_none()"),
      ("is_empty()", "len() == 1"), (".peek()", ".peek().filter(|_| false)"), ("Some(", "None.or(Some("), ("break;", "continue;"),
      ("continue;", "break;"), ("return Ok(None)", "continue"), (".rev()", ""), ("vec![]", "Vec::new()"),
      ("AndOr::And", "AndOr::Or"), ("LoopKind::While", "LoopKind::Until"), ("SeparatorKind::Semi", "SeparatorKind::Newline"),
      ("SeparatorKind::Newline", "SeparatorKind::Semi"), ("SeparatorKind::Other", "SeparatorKind::Newline"), ("start_pos", "self.iter.pos()"),
      ("pos()", "pos"), (".push(", ".insert(0, "), ("any(", "all("), ("all(", "any("), ("is_alphabetic", "is_alphanumeric"), ("is_whitespace", "is_ascii_whitespace"),
      ("is_digit(10)", "is_numeric()"), ("unwrap_or(", "unwrap_or_default_("), ("(**self).", "(**self)."), ("to_owned()", "to_owned()"),
      (".skip_whitespace()", ".linebreak()"), (".linebreak()", ".skip_whitespace()"), ("trim_start", "trim"), ("Parameter::At", "Parameter::Star"), ("u8", "i8"), ("u16", "u8"), ("u32", "u16")]
for f in files:
    src = open(os.path.join(repo, f)).read()
    k = src.find("#[cfg(test)]")
    lines = src.split("\n")
    last = src[:k].count("\n") if k >= 0 else len(lines)
    for i, l in enumerate(lines[:last]):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use"): continue
        code = l.split("//")[0] if '"' not in l else l
        for a, b in SW:
            for m in re.finditer(re.escape(a), code):
                n = l[:m.start()] + b + l[m.end():]
                if b.startswith("None.or"): continue
                emit(f, i, l, n, f"swap {a.strip()}->{b.strip()}")
        # ints
        for m in re.finditer(r"(?<![\w.\"])(\d+)(?![\w\"])", code):
            v = int(m.group(1))
            for w in {v + 1, max(v - 1, 0)}:
                emit(f, i, l, l[:m.start()] + str(w) + l[m.end():], "int")
        # delete statement
        if s.endswith(";") and not s.startswith(("let ", "return", "}", "pub ", "fn ", "type ", ")", "mod ", "const ", "static ")) :
            emit(f, i, l, l[:len(l) - len(s)] + "();" , "delete")
        # delete single-line arm
        if re.search(r"=>.*,$", s) and not s.startswith("_ ") and not s.startswith("|"):
            emit(f, i, l, "", "arm")
            m = re.match(r"^(\s*.*?)( =>)", l)
            if m and " if " not in m.group(1): emit(f, i, l, m.group(1) + " if false" + l[m.end(1):], "armfalse")
        if re.search(r"=> \{$", s) and not s.startswith("_ ") and " if " not in s:
            m = re.match(r"^(\s*.*?)( =>)", l)
            if m: emit(f, i, l, m.group(1) + " if false" + l[m.end(1):], "armfalse")
        m = re.match(r"^(\s*.*?) if (.*) => (.*)$", l)
        if m:
            emit(f, i, l, f"{m.group(1)} => {m.group(3)}", "guard off")
            emit(f, i, l, f"{m.group(1)} if !({m.group(2)}) => {m.group(3)}", "guard not")
        # conditions
        m = re.match(r"^(\s*(?:\} else )?)(if|while) (?!let )(.*) \{$", l)
        if m:
            emit(f, i, l, f"{m.group(1)}{m.group(2)} !({m.group(3)}) {{", "not")
            if m.group(2) == "if": emit(f, i, l, f"{m.group(1)}if true || ({m.group(3)}) {{", "iftrue")
            emit(f, i, l, f"{m.group(1)}{m.group(2)} false && ({m.group(3)}) {{", "iffalse")
        # drop a negation
        for m in re.finditer(r"(?<![=!\w])!(?=[a-z(])", code):
            emit(f, i, l, l[:m.start()] + l[m.end():], "neg")
        # alternatives
        if re.match(r"^\s*\|", l):
            if "=>" in l: emit(f, i, l, re.sub(r"^(\s*)\|.*?=>", r"\1=>", l), "alt")
            else: emit(f, i, l, "", "alt")
        elif " | " in code and "=>" in code:
            head, tail = l.split("=>", 1)
            alts = head.split(" | ")
            for j in range(len(alts)):
                h = " | ".join(alts[:j] + alts[j+1:])
                if not h.startswith(" "): h = " " * (len(l) - len(l.lstrip())) + h
                emit(f, i, l, h.rstrip() + " =>" + tail, "alt")
        elif " | " in code:
            parts = l.split(" | ")
            for j in range(1, len(parts)):
                emit(f, i, l, " | ".join(parts[:j] + parts[j+1:]) if j < len(parts)-1 else " | ".join(parts[:j]) + ("" if not s.endswith(",") else ","), "alt")
        # tokens
        for m in re.finditer(r"(?<![\w:])(" + "|".join(TOK) + r")(?![\w(])", code):
            if m.group(1) in ("Newline", "Plus", "Pipe") and "Vec<" in l: continue
            for step in (1, 7):
                n = TOK[(TOK.index(m.group(1)) + step) % len(TOK)]
                emit(f, i, l, l[:m.start()] + n + l[m.end():], "token")
        # list elements on a line
        for m in re.finditer(r"&\[([^\[\]]+)\]", code):
            el = [e.strip() for e in m.group(1).split(",") if e.strip()]
            if len(el) > 1:
                for j in range(len(el)):
                    emit(f, i, l, l[:m.start(1)] + ", ".join(el[:j] + el[j+1:]) + l[m.end(1):], "elem")
        # chars and strings
        for m in re.finditer(r"'(\\?.)'", code):
            emit(f, i, l, l[:m.start()] + "'~'" + l[m.end():], "char")
        for m in re.finditer(r'(?<!\w)"([^"\\]{1,12})"', l):
            if "expect" in l or "panic" in l: continue
            emit(f, i, l, l[:m.start()] + '"' + m.group(1) + 'x"' + l[m.end():], "str")
        # `?` dropped error handling, builder args
        m = re.match(r"^(\s*)let (\w+) = (.*)\?;$", l)
        # swap two args
        for m in re.finditer(r"\((\w+), (\w+)\)", code):
            emit(f, i, l, l[:m.start()] + f"({m.group(2)}, {m.group(1)})" + l[m.end():], "args")
        # emptied argument
        for m in re.finditer(r"(?<=[(, ])(\w*comments\w*)(?=[,)])", code):
            if "fn " in l: continue
            emit(f, i, l, l[:m.start()] + "{ let _ = " + m.group(1) + "; Vec::new() }" + l[m.end():], "emptied")
        if re.match(r"^\s*(\w*comments?),$", l):
            w = s[:-1]
            emit(f, i, l, l.replace(w, w + ": Default::default()") , "emptied")
    # adjacent statements swapped
    for i in range(last - 1):
        a, b = lines[i], lines[i + 1]
        if a.strip().endswith(";") and b.strip().endswith(";") and not a.strip().startswith(("use", "type", "//", "}", "pub", "fn")) and len(a) - len(a.lstrip()) == len(b) - len(b.lstrip()) and not b.strip().startswith(("use", "type", "}", ")")):
            emit(f, i, a, None, "order")
            out[-1]["new"] = b; out[-1]["next"] = a
for o in out: print(json.dumps(o))
