//! Reference meanings of scalars, written from the YAML 1.2 productions (never from the parser).

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum T { C(char), W(char), Br, Esc }

/// Flow line folding (7.3): `None` where the grammar gives no meaning.
pub fn fold(ts: &[T]) -> Option<String> {
    let (mut out, mut ws) = (String::new(), String::new());
    let mut i = 0;
    while i < ts.len() {
        match ts[i] {
            T::C(c) => { out.push_str(&ws); ws.clear(); out.push(c); i += 1; }
            T::W(c) => { ws.push(c); i += 1; }
            T::Br => {
                ws.clear();
                let mut n = 0;
                while i < ts.len() { match ts[i] { T::Br => n += 1, T::W(_) => {} _ => break } i += 1; }
                if i < ts.len() && ts[i] == T::Esc { return None; }
                if n == 1 { out.push(' ') } else { for _ in 1..n { out.push('\n') } }
            }
            T::Esc => {
                out.push_str(&ws); ws.clear();
                i += 1;
                while i < ts.len() { match ts[i] { T::Br => out.push('\n'), T::W(_) => {} _ => break } i += 1; }
                if i < ts.len() && ts[i] == T::Esc { return None; }
            }
        }
    }
    out.push_str(&ws);
    Some(out)
}

/// Tokens of a single quoted body (`''` is a quote). `None`: not a body.
pub fn single(body: &str) -> Option<Vec<T>> {
    let mut v = vec![];
    let cs: Vec<char> = body.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '\'' => { if cs.get(i + 1) != Some(&'\'') { return None; } v.push(T::C('\'')); i += 1; }
            '\r' => { if cs.get(i + 1) == Some(&'\n') { i += 1; } v.push(T::Br); }
            '\n' => v.push(T::Br),
            ' ' | '\t' => v.push(T::W(cs[i])),
            c => v.push(T::C(c)),
        }
        i += 1;
    }
    Some(v)
}

/// Tokens of a double quoted body. Escapes per 5.7.
pub fn double(body: &str) -> Option<Vec<T>> {
    let mut v = vec![];
    let cs: Vec<char> = body.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '"' => return None,
            '\r' => { if cs.get(i + 1) == Some(&'\n') { i += 1; } v.push(T::Br); }
            '\n' => v.push(T::Br),
            ' ' | '\t' => v.push(T::W(cs[i])),
            '\\' => {
                i += 1;
                let c = *cs.get(i)?;
                match c {
                    '\r' => { if cs.get(i + 1) == Some(&'\n') { i += 1; } v.push(T::Esc); }
                    '\n' => v.push(T::Esc),
                    'x' | 'u' | 'U' => {
                        let n = match c { 'x' => 2, 'u' => 4, _ => 8 };
                        let mut val: u64 = 0;
                        for _ in 0..n { i += 1; val = val * 16 + cs.get(i)?.to_digit(16)? as u64; }
                        v.push(T::C(char::from_u32(u32::try_from(val).ok()?)?));
                    }
                    c => v.push(T::C(simple_escape(c)?)),
                }
            }
            c => v.push(T::C(c)),
        }
        i += 1;
    }
    Some(v)
}

pub fn simple_escape(c: char) -> Option<char> {
    Some(match c {
        '0' => '\0', 'a' => '\x07', 'b' => '\x08', 't' | '\t' => '\t', 'n' => '\n', 'v' => '\x0B', 'f' => '\x0C', 'r' => '\r', 'e' => '\x1B',
        ' ' => ' ', '"' => '"', '/' => '/', '\\' => '\\', 'N' => '\u{85}', '_' => '\u{A0}', 'L' => '\u{2028}', 'P' => '\u{2029}',
        _ => return None,
    })
}

/// Is `body` (whole) one plain scalar in this context, and which text does it denote?
pub fn plain(body: &str, flow: bool) -> Option<String> {
    let cs: Vec<char> = body.chars().collect();
    if cs.is_empty() { return None; }
    let white = |c: char| c == ' ' || c == '\t' || c == '\n' || c == '\r';
    let flowi = |c: char| matches!(c, ',' | '[' | ']' | '{' | '}');
    let first = cs[0];
    if white(first) || white(*cs.last().unwrap()) { return None; }
    if matches!(first, ',' | '[' | ']' | '{' | '}' | '#' | '&' | '*' | '!' | '|' | '>' | '\'' | '"' | '%' | '@' | '`') { return None; }
    if matches!(first, '?' | ':' | '-') {
        // inside flow collections '?' and ':' are always read as indicators here
        if flow && first != '-' { return None; }
        match cs.get(1) { None => return None, Some(&c) => if white(c) || flow && flowi(c) { return None; } }
    }
    let mut v = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        let prev_white = i > 0 && white(cs[i - 1]);
        if c == ':' && cs.get(i + 1).map_or(true, |&n| white(n) || flow && flowi(n)) { return None; }
        if c == '#' && prev_white { return None; }
        if flow && flowi(c) { return None; }
        match c {
            '\r' => { if cs.get(i + 1) == Some(&'\n') { i += 1; } v.push(T::Br) }
            '\n' => v.push(T::Br),
            ' ' | '\t' => v.push(T::W(c)),
            c => v.push(T::C(c)),
        }
        i += 1;
    }
    for l in body.split(['\n', '\r']) { if l.starts_with("---") || l.starts_with("...") { return None; } }
    fold(&v)
}

/// Block scalar content (8.1). `lines` are the raw lines after the header; returns the text and how many lines belong to it.
/// `None`: not well formed, or no meaning given.
pub fn block(lines: &[&str], base: usize, folded: bool, chomp: Option<char>, explicit: Option<usize>, final_break: bool) -> Option<(String, usize)> {
    let spaces = |l: &str| l.bytes().take_while(|b| *b == b' ').count();
    let blank = |l: &str| l.bytes().all(|b| b == b' ');
    let indent = match explicit {
        Some(e) => base + e,
        None => {
            let mut lead = 0;
            let mut found = None;
            for l in lines { if blank(l) { lead = lead.max(l.len()); } else { found = Some(spaces(l)); break; } }
            match found {
                // leading empty lines must not be indented deeper than the first content line
                // (a tab right behind the detected indentation is refused by design)
                Some(n) if n > base => { if lead > n || lines.iter().find(|l| !blank(l)).map_or(false, |l| l[n..].starts_with('\t')) { return None; } n }
                _ => {
                    // no content: only empty lines; indentation is the deepest of them
                    lead.max(base + 1)
                }
            }
        }
    };
    // take lines
    let mut content: Vec<Option<&str>> = vec![];
    let mut used = 0;
    for l in lines {
        if blank(l) && l.len() <= indent { content.push(None); }
        else if spaces(l) >= indent { content.push(Some(&l[indent..])); }
        else if blank(l) { content.push(Some(&l[indent..])); }
        else { break; }
        used += 1;
    }
    let last = content.iter().rposition(|l| l.is_some());
    let ended = used < lines.len() || final_break; // does the last taken line end in a break?
    let (body, trailing) = match last { Some(k) => (&content[..=k], content.len() - 1 - k), None => (&content[..0], content.len()) };
    let mut out = String::new();
    let more = |s: &str| s.starts_with(' ') || s.starts_with('\t');
    if !folded {
        for (i, l) in body.iter().enumerate() { if i > 0 { out.push('\n'); } out.push_str(l.unwrap_or("")); }
    } else {
        let mut prev: Option<&str> = None;
        let mut empties = 0;
        for l in body {
            match l {
                None => empties += 1,
                Some(s) => {
                    match prev {
                        None => for _ in 0..empties { out.push('\n') },
                        Some(p) => {
                            if more(p) || more(s) { for _ in 0..empties + 1 { out.push('\n') } }
                            else if empties == 0 { out.push(' ') }
                            else { for _ in 0..empties { out.push('\n') } }
                        }
                    }
                    out.push_str(s);
                    prev = Some(s);
                    empties = 0;
                }
            }
        }
    }
    // chomping; a last line without a line break ends at the end of input
    let breaks = if last.is_some() { 1 + trailing } else { trailing };
    let breaks = if ended { breaks } else { breaks.saturating_sub(1) };
    match chomp {
        Some('-') => {}
        Some('+') => for _ in 0..breaks { out.push('\n') },
        _ => if last.is_some() && breaks > 0 { out.push('\n') },
    }
    Some((out, used))
}
