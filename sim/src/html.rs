//! Just enough HTML reading to find img tags and ids in rendered output.
#[derive(Debug, Clone, PartialEq)]
pub enum Seg { Text(String), Img(Vec<(String, String)>) }

pub fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&#39;", "'").replace("&amp;", "&")
}
fn attributes(body: &str) -> Vec<(String, String)> {
    let b = body.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        while i < b.len() && (b[i].is_ascii_whitespace() || b[i] == b'/') { i += 1; }
        let st = i;
        while i < b.len() && b[i] != b'=' && !b[i].is_ascii_whitespace() && b[i] != b'/' { i += 1; }
        if st == i { break; }
        let name = body[st..i].to_string();
        let mut val = String::new();
        if i < b.len() && b[i] == b'=' {
            i += 1;
            if i < b.len() && (b[i] == b'"' || b[i] == b'\'') {
                let q = b[i];
                i += 1;
                let st = i;
                while i < b.len() && b[i] != q { i += 1; }
                val = body[st..i].to_string();
                i += 1;
            } else {
                let st = i;
                while i < b.len() && !b[i].is_ascii_whitespace() { i += 1; }
                val = body[st..i].to_string();
            }
        }
        out.push((name, val));
    }
    out.sort();
    out
}
pub fn segments(html: &str) -> Vec<Seg> {
    let mut out = vec![];
    let mut rest = html;
    while let Some(p) = rest.find("<img") {
        let after = &rest[p + 4..];
        let mut end = None;
        let mut q = None;
        for (i, c) in after.char_indices() {
            match (q, c) {
                (None, '"') | (None, '\'') => q = Some(c),
                (Some(x), c) if x == c => q = None,
                (None, '>') => { end = Some(i); break; }
                _ => {}
            }
        }
        let Some(e) = end else { break };
        out.push(Seg::Text(rest[..p].to_string()));
        out.push(Seg::Img(attributes(&after[..e])));
        rest = &after[e + 1..];
    }
    out.push(Seg::Text(rest.to_string()));
    out
}
pub fn imgs(html: &str) -> Vec<Vec<(String, String)>> {
    segments(html).into_iter().filter_map(|s| if let Seg::Img(a) = s { Some(a) } else { None }).collect()
}
pub fn attr<'a>(a: &'a [(String, String)], n: &str) -> Option<&'a str> { a.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str()) }
/// (src, width/height if the tag carries them)
pub fn dims(a: &[(String, String)]) -> Result<Option<(i64, i64)>, String> {
    match (attr(a, "width"), attr(a, "height")) {
        (None, None) => Ok(None),
        (Some(w), Some(h)) => match (w.parse(), h.parse()) {
            (Ok(w), Ok(h)) => Ok(Some((w, h))),
            _ => Err(format!("size attributes are not integers: width={w:?} height={h:?}")),
        },
        (w, h) => Err(format!("only one size attribute: width={w:?} height={h:?}")),
    }
}
/// Compares a render with lookup on against the same render with lookup off: nothing may differ
/// except size attributes added to img tags.
pub fn only_sizes_added(off: &str, on: &str) -> Result<(), String> {
    let (a, b) = (segments(off), segments(on));
    if a.len() != b.len() { return Err(format!("different number of images: {} without lookup, {} with", a.len() / 2, b.len() / 2)); }
    for (x, y) in a.iter().zip(&b) {
        match (x, y) {
            (Seg::Text(s), Seg::Text(t)) => if s != t { return Err(format!("text differs: {s:?} without lookup, {t:?} with")) },
            (Seg::Img(s), Seg::Img(t)) => {
                let mut t2 = t.clone();
                for kv in s { match t2.iter().position(|x| x == kv) { Some(i) => { t2.remove(i); } None => return Err(format!("image attribute {kv:?} lost or changed")) } }
                if let Some(x) = t2.iter().find(|(k, _)| k != "width" && k != "height") { return Err(format!("image gained attribute {x:?}")); }
                if !t2.is_empty() { dims(&t2)?; }
            }
            _ => return Err("different structure".into()),
        }
    }
    Ok(())
}
pub fn ids(html: &str) -> Vec<String> {
    let mut v = vec![];
    let mut rest = html;
    while let Some(p) = rest.find(" id=\"") {
        rest = &rest[p + 5..];
        let e = rest.find('"').unwrap_or(rest.len());
        v.push(rest[..e].to_string());
        rest = &rest[e..];
    }
    v
}
pub const PLACEHOLDER: &str = "QqQ7";
/// `reference` was rendered with the placeholder token; finds the token that turns it into `actual`.
/// Ok(None): no token shows and the texts agree.
pub fn match_token(reference: &str, actual: &str) -> Result<Option<String>, ()> {
    let pieces: Vec<&str> = reference.split(PLACEHOLDER).collect();
    let n = pieces.len() - 1;
    if n == 0 { return if reference == actual { Ok(None) } else { Err(()) }; }
    let fixed: usize = pieces.iter().map(|p| p.len()).sum();
    if actual.len() < fixed || (actual.len() - fixed) % n != 0 { return Err(()); }
    let l = (actual.len() - fixed) / n;
    let tok = actual.get(pieces[0].len()..pieces[0].len() + l).ok_or(())?;
    if pieces.join(tok) == actual { Ok(Some(tok.to_string())) } else { Err(()) }
}
