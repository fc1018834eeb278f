//! Documents. Label, alias, footnote and list pools are small and shared on purpose: state that
//! survives from one document to another changes what a later document renders to.
use crate::rng::Rng;

pub const WORDS: [&str; 40] = [
    "alpha", "beta", "gamma", "river", "stone", "Window", "cloud's", "paper", "engine", "ABC", "NATO", "HTML5", "don't", "'88", "10x20", "5' x 6\"", "naïve", "мир",
    "日本", "...", "--", "-", "&", "a&b", "&amp;", "&copy;", "(c)", "(TM)", "[1/2]", "TLA(three letters)", "\"quoted\"", "'single'", "<b>bold</b>", "<i>", "x < y", "1 > 0", "e.g.", "$1", "50%", "path/to",
];
pub const ALIASES: [&str; 4] = ["home", "docs", "hobix", "a1"];
pub const NOTES: [&str; 5] = ["n1", "n2", "myref", "zeta", "alpha"];
pub const HOSTS: [&str; 5] = ["http://a.example/", "https://b.example:8080/", "http://127.0.0.1/", "https://xn--e1afmkfd.example/", "http://c.example/deep/"];

fn w(r: &mut Rng) -> String { r.pick(&WORDS).to_string() }
fn words(r: &mut Rng, lo: i64, hi: i64) -> String {
    (0..r.range(lo, hi)).map(|_| inline(r, 0)).collect::<Vec<_>>().join(" ")
}
fn attrs(r: &mut Rng) -> String {
    match r.below(9) {
        0 => "(cls)".into(),
        1 => "(cls#id1)".into(),
        2 => "{color:red}".into(),
        3 => "[fr]".into(),
        4 => "(#id2)[en]{margin:0}".into(),
        _ => String::new(),
    }
}
/// What stands in code: a word, or a listing long enough for its end to be overlooked.
fn code(r: &mut Rng) -> String {
    if r.chance(3, 5) { return w(r); }
    let mut t = String::new();
    for i in 0..r.range(3, 24) {
        if i > 0 { t += *r.pick(&[" ", " ", " ", "\n", "\n    "]); }
        t += *r.pick(&["let", "x1", "=", "foo(2)", "return", "a.b", "#define", "if", "{", "}", "\"s\"", "0x1f", "&mut", "<T>", "==", "// note"]);
    }
    t.replace("==", "=")
}
pub fn url(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "/relative/page".into(),
        10 => "file:///etc/motd".into(),
        11 => "tel:+1-2-3".into(),
        12 => "sftp://h.example/x".into(),
        13 => "data:text/plain,x".into(),
        1 => "../up?x=1#frag".into(),
        2 => r.pick(&ALIASES).to_string(),
        3 => "mailto:joe@example.com".into(),
        4 => "javascript:alert(1)".into(),
        5 => "http://example.com/a(b)c?q[]=1&r=2".into(),
        6 => "https://Example.COM:443/%7Ejoe/é".into(),
        7 => "ftp://files.example/x".into(),
        _ => format!("http://example.com/p{}", r.below(9)),
    }
}
pub fn inline(r: &mut Rng, depth: u32) -> String {
    if depth > 6 { return w(r); }
    match r.below(34) {
        0 => format!("*{}*", inline(r, depth + 1)),
        1 => format!("_{}_", inline(r, depth + 1)),
        2 => format!("**{}**", w(r)),
        3 => format!("__{}__", inline(r, depth + 1)),
        4 => format!("-{}-", w(r)),
        5 => format!("+{}+", inline(r, depth + 1)),
        6 => format!("^{}^", w(r)),
        7 => format!("~{}~", w(r)),
        8 => format!("%{}{}%", attrs(r), inline(r, depth + 1)),
        9 => format!("??{}??", w(r)),
        10 => format!("@{}@", code(r).replace('@', "")),
        11 => format!("<code>{}</code>", code(r)),
        12 => format!("=={}==", code(r)),
        13 => format!("<notextile>{} *x*</notextile>", code(r)),
        14 | 15 | 16 => format!("\"{}{}\":{}", attrs(r), inline(r, depth + 1).replace('"', ""), url(r)),
        17 => format!("\"{}(title)\":{}", w(r).replace('"', ""), r.pick(&ALIASES)),
        18 => format!("[\"{}\":{}]", w(r).replace('"', ""), url(r)),
        19 => "\"$\":http://example.com/self".into(),
        20 | 21 => format!("{}[{}{}]", w(r), r.range(1, 4), if r.chance(1, 5) { "!" } else { "" }),
        22 | 23 => format!("{}[{}#{}{}]", w(r), if r.chance(1, 6) { "(c)" } else { "" }, r.pick(&NOTES), if r.chance(1, 6) { "!" } else { "" }),
        24 => "!pic.png!".into(),
        25 => format!("!{}{}/img/x{}.gif(alt text)!", r.pick(&["<", ">", "=", ""]), r.pick(&["", "(cls)"]), r.below(4)),
        26 => format!("!small.png!:{}", url(r)),
        29 => format!("!{}!", url(r)),
        30 => format!("{}({})", r.pick(&["ABC", "TLA", "NATO"]), w(r)),
        27 => "<!-- comment *x* -->".into(),
        28 => format!("[*{}*]{}", w(r), w(r)),
        _ => w(r),
    }
}
pub fn block(r: &mut Rng) -> String {
    match r.below(40) {
        0 => format!("h{}{}. {}", r.range(1, 6), attrs(r), words(r, 1, 4)),
        1 => format!("p{}{}. {}", r.pick(&["", "<", ">", "=", "<>", "(", "))"]), attrs(r), words(r, 1, 5)),
        2 => format!("bq{}.{} {}", attrs(r), if r.chance(1, 3) { ":http://cite.example/" } else { "" }, words(r, 1, 5)),
        3 => format!("bq.. {}", words(r, 1, 3)),
        4 => format!("bc. {}\n\tline <two> & *three*", if r.chance(1, 2) { code(r) } else { words(r, 1, 3) }),
        5 => format!("bc(ruby).. {}", words(r, 1, 2)),
        6 => format!("pre. {}\n  indented", if r.chance(1, 2) { code(r) } else { words(r, 1, 2) }),
        7 => format!("pre.. {}", words(r, 1, 2)),
        8 => format!("notextile. {} <b>*x*</b>", code(r)),
        9 => format!("###. hidden {}", w(r)),
        10 | 11 => format!("fn{}{}. {}", r.range(1, 4), r.pick(&["", "^", "(cls)", "#myid"]), words(r, 1, 4)),
        12 | 13 => format!("note#{}{}. {}", r.pick(&NOTES), r.pick(&["", "!", "^", "*"]), words(r, 1, 4)),
        14 | 15 => format!("notelist{}{}{}{}.", r.pick(&["", "(cls)"]), r.pick(&["", ":1", ":A", ":§", ":α"]), r.pick(&["", "^", "!"]), r.pick(&["", "+"])),
        16 | 17 => format!("[{}]{}", r.pick(&ALIASES), if r.chance(1, 5) { "/local/target".to_string() } else { format!("http://target{}.example/", r.below(4)) }),
        18 => { let n = r.range(1, 4); list(r, "#", n) }
        19 => { let n = r.range(1, 4); list(r, "*", n) }
        20 | 21 => { let m = r.pick(&["#_", "#3", "#12"]).to_string(); let n = r.range(1, 3); let l = list(r, "#", n); l.replacen('#', &m, 1) }
        22 => format!("# {}\n## {}\n## {}\n# {}", w(r), inline(r, 1), w(r), w(r)),
        23 => format!("* {}\n*# {}\n*#_ {}\n** {}", w(r), w(r), inline(r, 1), w(r)),
        24 => format!("; {}\n: {}\n: {}", w(r), w(r), inline(r, 1)),
        25 => format!("- {} := {}\n- {} := {}", w(r), words(r, 1, 2), w(r), w(r)),
        26 => format!("- {} :=\n{}\nsecond line =:", w(r), words(r, 1, 2)),
        27 | 28 => table(r),
        29 => format!("<div>{}</div>", words(r, 1, 2)),
        30 => format!("<div class=\"x\">\n{}\n</div>", w(r)),
        31 => format!(" {}", words(r, 1, 3)),
        32 => format!("<custom>{}</custom>", w(r)),
        33 => format!("{}\n{}\n{}", words(r, 1, 3), words(r, 1, 3), w(r)),
        34 => "---".into(),
        35 | 36 => format!("<pre>{} & <x></pre>", code(r)),
        _ => words(r, 2, 8),
    }
}
fn list(r: &mut Rng, m: &str, n: i64) -> String {
    (0..n).map(|_| format!("{m} {}", words(r, 1, 3))).collect::<Vec<_>>().join("\n")
}
fn table(r: &mut Rng) -> String {
    let mut t = String::new();
    match r.below(4) { 0 => t += "table(cls). A summary\n", 1 => t += "table{width:50%}.\n|=. A caption\n", 2 => t += "|^.\n", _ => {} }
    let cols = r.range(1, 3);
    for i in 0..r.range(1, 3) {
        t += "|";
        for _ in 0..cols { t += &format!("{}{}|", if i == 0 && r.chance(1, 3) { "_. " } else { *r.pick(&["", "", "", "=. ", "\\2. ", "/2. ", "(c). "]) }, words(r, 1, 2).replace('|', "/").replace('\n', " ")); }
        t += "\n";
    }
    t.trim_end().to_string()
}
pub fn doc(r: &mut Rng, lo: i64, hi: i64) -> Vec<String> { (0..r.range(lo, hi)).map(|_| block(r)).collect() }

/// A text people wrote: one of the inputs of the project's own fixtures, or a piece of one.
pub fn corpus(r: &mut Rng) -> Vec<String> {
    static DOCS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let docs = DOCS.get_or_init(|| serde_json::from_str(include_str!("../corpus.json")).expect("corpus"));
    let d: Vec<&str> = r.pick(docs).split("\n\n").collect();
    let n = r.range(1, 8).min(d.len() as i64) as usize;
    let at = r.idx(d.len() - n + 1);
    d[at..at + n].iter().map(|b| b.to_string()).collect()
}
/// The corpus is built before any run forks, so that every run starts from the same heap.
pub fn warm() { corpus(&mut Rng::new(1)); }

/// A short block whose rendering shows the parser's token, or otherwise depends on carried state.
pub fn telltale(r: &mut Rng) -> String {
    match r.below(12) {
        0 | 1 => format!("word[{}] and again[{}]", r.range(1, 3), r.range(1, 3)),
        2 => format!("fn{}. unreferenced {}", r.range(1, 3), w(r)),
        3 => format!("see[#{}] and[#{}]", r.pick(&NOTES), r.pick(&NOTES)),
        4 => "notelist+.".into(),
        5 => "notelist.".into(),
        6 => format!("#_ continued\n#_ {}", w(r)),
        7 => format!("\"link\":{}", r.pick(&ALIASES)),
        8 => format!("!{}!", r.pick(&ALIASES)),
        9 => "*_+~%-deep-%~+_* ABC (tm)".into(),
        10 => "=={raw}== @code@ <code>x</code>".into(),
        _ => format!("note#{}. {}", r.pick(&NOTES), w(r)),
    }
}
/// A document the current code cannot take: an expression gives up on it and the render unwinds,
/// in the middle of whatever structure surrounds the text.
pub fn natural_panic(r: &mut Rng) -> String {
    let t = format!("{}x", "_a _b ".repeat(600));
    match r.below(10) {
        0 => t,
        1 => format!("* one\n* {t}\n* three"),
        2 => format!("|a|{t}|\n|c|d|"),
        3 => format!("fn1. {t}"),
        4 => format!("note#n1. {t}"),
        5 => format!("\"{t}\":http://x.example/"),
        6 => format!("<div>{t}</div>"),
        7 => format!("h2. *bold* =={{raw}}== \"l\":http://x.example/ {t}"),
        8 => format!("#_ continued\n# {t}"),
        _ => format!("bq.. quoted\n\n{t}"),
    }
}

fn full_attrs(r: &mut Rng) -> String {
    let mut parts = vec!["(c1 c2#i1)", "{color:red;margin:1px}", "[fr]", "=", "((", ")", "<>", ">"];
    let mut s = String::new();
    for _ in 0..r.range(1, 4) { let i = r.idx(parts.len()); s += parts.remove(i); }
    s
}
/// Small complete documents that exercise one structure in depth.
pub fn rich(r: &mut Rng) -> Vec<String> {
    let a = full_attrs(r);
    let n = |r: &mut Rng| r.pick(&NOTES).to_string();
    let v: Vec<String> = match r.below(27) {
        26 => many(r),
        22 => vec!["a '\"' b «\"» c ‹\"x› d „\"y“ e ‚‘ f ‘’ g ”“ h (\") i [\"z] j {} k \"\"\" l »« m ›‹ n '\"word' o".into(), format!("{} \"{}\" ", w(r), w(r))],
        23 => vec!["!x.png(it's a \"quote\")! \"l(it's)\":/rel?a=1#frag \"m\":page#sec \"n\":/a#b#c%zz \"o\":#top \"p\":?q=é \"q\":http://[bad \"r\":/sp%20ace?x=%zz#é".into(), "\"s\":http://x.example/?q=\"t\"&u='v' \"w\":page#".into()],
        24 => vec!["&#x41; &#65; &quot;x&quot; &#39; &bogus &ampx &notit; &#0; &#xD800; &#13;".into(), "note#n1. t".into(), format!("notelist:{}.", r.pick(&["&", "0", "~", "{", "&#9824;"])), "w[#n1] x[#n1]".into(), "notelist:&#945;.".into()],
        25 => vec!["\"\"Open the door\"\":/a \"one \"two\" three\":/b [\"c\":/c] (\"d\":/d) \"e\":/e, \"f\":/f!? \"g\":/g[1] \"h\":http://h.example/(x) \"i\":/i</b> \"j:k\":/j".into(), "<br>raw</br>".into(), "<table><tr><td>x</td></tr></table>".into(), "  <p>indented</p>".into()],
        16 => { let k = r.range(3, 60); vec![(0..k).map(|i| format!("w[#n{}]", i % 3)).collect::<Vec<_>>().join(" "), "note#n0. zero".into(), "note#n1. one".into(), "notelist:a.".into(), format!("notelist:{}.", r.pick(&["z", "Z", "9", "x+"]))] }
        17 => { let k = r.range(5, 40); let mut v = vec![(1..k).map(|i| format!("w[{i}]")).collect::<Vec<_>>().join(" ")]; v.extend((1..k).map(|i| format!("fn{i}. text {i}"))); v }
        18 => vec!["# a\n## b\n### c\n#### d\n##### e\n# f\n#* g\n#** h\n*** i\n* j".into(), "#_ k\n##_ l\n#_3 m".into(), format!("*{a} x\n;; y\n:: z")],
        19 => { let (k, c) = (r.range(2, 12), r.range(1, 5)); vec![format!("table{a}.\n") + &(0..k).map(|i| format!("{}|{}", if i % 3 == 0 { format!("{a}. ") } else { String::new() }, (0..c).map(|j| format!("{}c{i}{j}|", r.pick(&["", "_. ", "=. ", "(k). ", "^. ", "~>. "]))).collect::<String>())).collect::<Vec<_>>().join("\n"), "|a|\n| * x\n* y |\n||".into()] }
        20 => vec!["[one]http://one.example/\n[two]file:///two\n[three]tel:3\n[four]/four".into(), "\"a\":one \"b\":two \"c\":three \"$\":four !one! !two!:three \"$\":two".into(), "\"x\":file:///y \"x\":data:z \"x\":SFTP://q.example/ \"x\":HTTP://Q.example \"x\"://r.example/ \"x\":gopher://s.example/".into()],
        21 => { let mut v = corpus(r); v.extend(corpus(r)); v }
        0 => vec![format!("first[#{}] second[#{}] third[#{}] again[#{}!] (see[(x)#{}])", n(r), n(r), n(r), n(r), n(r)), format!("note#n1. text {}", inline(r, 1)), "note#n2(c#d)^. second".into(), "note#myref!. third".into(), "note#zeta*. never referenced".into(), "note#alpha. also not".into(), format!("notelist{}.", r.pick(&["", "+", ":A+", "^+", "(cls)[en]:§!", ":1^"])), format!("notelist{}.", r.pick(&["", "+", ":b"]))],
        1 => vec!["a[1] b[2] c[3] d[1] e[2!] f[9]".into(), format!("fn1{a}. one"), "fn2^. two".into(), "fn3(c#own). three".into(), "fn4. four".into()],
        2 => vec![format!("#5{a} five\n# six"), "interlude".into(), "#_ seven\n## inner\n##_ inner cont\n# eight".into(), "#_ nine".into(), format!("*{a} a\n*(x) b\n** c")],
        3 => vec![format!("table{a}. summary text\n|=(cap). The caption\n|:\\2. 50 |(c). 20 |\n|^{a}. \n|_. H1|_(c). H2|\n|~.\n|f1|f2|\n|-.\n|{}|\\2{a}. y|\n{a}. |/2. a|^. b|~. c|", inline(r, 1))],
        4 => vec!["[home]http://home.example/x?a=1&b=2\n[docs]/local/docs".into(), "\"h\":home \"d(title)\":docs \"$\":home !home! !pic.png!:docs \"hobix\":hobix".into(), format!("\"{a}t(tt)\":home")],
        5 => vec![format!("p{a}. {}", words(r, 1, 3)), format!("h3{a}. head"), format!("bq{a}.:http://c.example/ quote"), format!("%{a}span% *{a}b* _{a}i_ !{a}x.png(alt)! \"{a}l\":/x")],
        6 => vec![format!("bc{a}.. code <b>\n\nmore code"), "p. para".into(), format!("pre{a}.. pre <i>\n\n more"), "bq.. q1\n\nq2".into(), "notextile.. <b>raw</b>\n\n*raw*".into(), "p. end".into()],
        7 => vec![format!("- term{} := def one\n- other := def *two*\n- block :=\nline 1\nline 2 =:", a), "; t1\n: d1\n; t2\n: d2\n: d3".into()],
        8 => vec!["<div class=\"c\">\n\n*para*\n\n</div>".into(), "<pre>\n*x* & <y>\n</pre>".into(), "<!-- comment -->".into(), "<custom-tag>text</custom-tag>".into(), "<p>already \"l\":/x</p>".into(), "<script>alert('x')</script>".into(), "<img src=\"x.png\" onerror=\"y\"> <a href=\"javascript:z\">t</a>".into()],
        9 => vec!["\"He said 'no'...\" -- it's 5' x 6\" in '99 - 10x20 (c)(r)(tm) [1/2] [o] [+/-] 3/4".into(), "TLA(Three Letter) ABC NASA HTML5 ÉCOLE XÿZ a.b ABCs".into()],
        10 => vec!["*_a_ +b+ -c- ^d^ ~e~ %f% ??g?? __h__ **i** @j@* [*k*]l [_m_]".into(), "*one _two +three -four ~five ^six^ five~ four- three+ two_ one*".into()],
        11 => vec!["###. a comment".into(), "###.. longer\n\nstill".into(), "p. shown".into(), "hr below\n\n---\n\n***".into()],
        12 => vec!["line one\nline two<br>three<br />\nfour\n five".into(), "* l1\nl1b\n* l2 <br>\nx".into(), "<ul>\n<li>x</li>\n</ul>".into()],
        13 => vec!["\"a\":http://x.example/?q=(b) (\"c\":http://y.example/) [\"d\":http://z.example/] \"e\":http://w.example/.".into(), "\"f \"g\" h\":/h \"i\":mailto:a@b.example \"$\":tel:123 \"j\":javascript:x".into(), "\"\":/empty \"k\":\"l\":/m".into()],
        14 => vec!["x&y &amp; &copy; &#169; &bogus; < > \" '".into(), "<b>bold</b> <i title='a\"b'>it</i> <br/> </unopened>".into(), "a < b > c <d".into()],
        _ => vec!["=={raw *x*}== <notextile>*y*</notextile> @co<de@ <code>*z*</code> <kbd>k</kbd>".into(), "notextile. *n* <b>".into(), "bc(lang#id). if (a < b) { *p }".into(), "@a@ @b@ ==c== ==d==".into()],
    };
    v
}
/// Markup for an image at `u`, in one of the places an image may stand.
pub fn image(r: &mut Rng, u: &str) -> String {
    let core = match r.below(10) {
        0 => format!("!{u}!"),
        1 => format!("!{u}(a title)!"),
        2 => format!("!>{u}!"),
        3 => format!("!(cls){u}!"),
        4 => format!("!{{border:1px}}{u}(alt)!"),
        5 => format!("!<{u}!:{}", r.pick(&["http://link.example/", "http://link.example/full.png", "https://link.example/a.jpg?w=1", "/local/full.gif", "HTTP://link.example/B.PNG"])),
        6 => format!("!={u}!"),
        7 => format!("!{u}({})!{}", r.pick(&["http://alt.example/x.png", "alt \"q\" & <b>", "ALT(x"]), r.pick(&["", ":/p", ":http://link.example/c.webp"])),
        _ => format!("!{u}!"),
    };
    match r.below(20) {
        0 => format!("|a|{core}|\n|b|c|"),
        1 => format!("* item {core}\n* other"),
        2 => format!("# one\n# {core}"),
        3 => format!("h2. {core}"),
        4 => format!("bq. {core} quoted"),
        5 => format!("word[1]\n\nfn1. {core}"),
        6 => format!("- term := {core}"),
        7 => format!("\"!{u}!\":http://link.example/x"),
        8 => format!("text before {core} text after"),
        9 => format!("p(cls). {core}"),
        10 => format!("*bold* {core} _em_ \"l\":http://z.example/ \"m\":http://z.example/m.png"),
        11 => format!("bq.. {core}\n\nmore\n\np. end"),
        12 => format!("<div>\n\n{core}\n\n</div>"),
        13 => format!("|_. h|{core}|\n|=. c|\n\n; t\n: {core}"),
        14 => format!("\"a\":home =={{x}}== @c@ {core} \"b\":home\n\n[home]http://h.example/"),
        15 => format!("#5 five\n# {core}\n\n#_ next"),
        _ => core,
    }
}

/// Blocks that all dwell on one construct: renders meet in the same code, over and over.
pub const THEMES: u64 = 14;
pub fn theme(r: &mut Rng, kind: u64) -> Vec<String> {
    // plain words make for renders that spend most of their time in the construct itself
    let plain = r.chance(2, 3);
    let n = if plain { r.range(3, 12) } else { r.range(2, 6) };
    let words = |r: &mut Rng, a: i64, b: i64| if plain { w(r) } else { words(r, a, b) };
    let inline = |r: &mut Rng, d: u32| if plain { w(r) } else { inline(r, d) };
    (0..n).map(|i| match kind {
        0 => { let m = *r.pick(&["#", "*", "##", "#_", "*#"]); (0..r.range(1, 6)).map(|_| format!("{m} {}", words(r, 1, 3))).collect::<Vec<_>>().join("\n") }
        1 => match r.below(5) { 0 | 3 | 4 => (0..r.range(1, 4)).map(|_| format!("; {}\n: {}", w(r), inline(r, 1))).collect::<Vec<_>>().join("\n"), 1 => format!("- {} := {}\n- {} := {}", w(r), words(r, 1, 2), w(r), w(r)), _ => format!("- {} :=\n{}\nnext =:", w(r), w(r)) },
        2 => table(r),
        3 => format!("\"{}\":{} [\"{}\":{}] \"$\":{}", w(r).replace('"', ""), url(r), w(r).replace('"', ""), url(r), url(r)),
        4 => match r.below(3) { 0 => format!("note#{}. {}", r.pick(&NOTES), inline(r, 1)), 1 => format!("notelist{}.", r.pick(&["", "+", ":A", "^"])), _ => format!("a[#{}] b[#{}!]", r.pick(&NOTES), r.pick(&NOTES)) },
        5 => if i % 2 == 0 { format!("w[{}] x[{}!] y[{}]", r.range(1, 3), r.range(1, 3), r.range(1, 3)) } else { format!("fn{}. {}", r.range(1, 3), inline(r, 1)) },
        6 => format!("*{}* _{}_ -{}- +{}+ %{}{}% ~{}~ ^{}^ ??{}??", inline(r, 3), inline(r, 3), w(r), inline(r, 3), attrs(r), w(r), w(r), w(r), w(r)),
        7 => match r.below(4) { 0 => format!("bc{}. {} <x>", attrs(r), w(r)), 1 => format!("@{}@ <code>{}</code>", w(r), w(r)), 2 => format!("pre. {}", w(r)), _ => format!("<pre>{}</pre>", code(r)) },
        8 => format!("!{}! !/rel/x{}.png({})! !p.png!:{}", url(r), r.below(5), w(r), url(r)),
        9 => words(r, 3, 12),
        10 => match r.below(4) { 0 => format!("<div>{}</div>", w(r)), 1 => format!("=={}== <notextile>{}</notextile>", w(r), w(r)), 2 => format!("<b>{}</b> <!-- {} --> <i>", w(r), w(r)), _ => format!("notextile. <p>{}</p>", w(r)) },
        11 => format!("h{}{}. {}", r.range(1, 6), full_attrs(r), w(r)),
        12 => match r.below(3) { 0 => format!("bq{}. {}", full_attrs(r), words(r, 1, 3)), 1 => format!("bq.:http://cite{}.example/ {}", r.below(5), w(r)), _ => format!("p{}. {}", full_attrs(r), w(r)) },
        _ => if i % 2 == 0 { format!("[{}]http://t{}.example/", r.pick(&ALIASES), r.below(4)) } else { format!("\"x\":{} !{}! \"$\":{}", r.pick(&ALIASES), r.pick(&ALIASES), r.pick(&ALIASES)) },
    }).collect()
}
/// One structure with more members than anyone counts on.
pub fn many(r: &mut Rng) -> Vec<String> {
    let k = r.logu(5, 150) as i64;
    let mut v = vec![];
    let mut ids: Vec<i64> = (1..=k).collect();
    for i in (1..ids.len()).rev() { let j = r.idx(i + 1); ids.swap(i, j); }
    match r.below(10) {
        0 => { // notes, most of them never referred to
            v.push(format!("see[#m{}] and[#m{}!]", r.range(1, k), r.range(1, k)));
            for i in &ids { v.push(format!("note#m{i}. note {i} {}", w(r))); }
            v.push(format!("notelist{}.", r.pick(&["+", ":A+", "^+", "!+"])));
        }
        1 => { // notes, referred to in another order than they are given
            v.push(ids.iter().map(|i| format!("w[#m{i}]")).collect::<Vec<_>>().join(" "));
            for i in 1..=k { v.push(format!("note#m{i}{}. note {i}", r.pick(&["", "^", "!"]))); }
            v.push(format!("notelist{}.", r.pick(&["", ":a", "+", ":α^"])));
        }
        2 => { v.push(ids.iter().map(|i| format!("w[{i}]")).collect::<Vec<_>>().join(" ")); for i in 1..=k { v.push(format!("fn{i}. text {i}")); } }
        3 => { v.push(ids.iter().map(|i| format!("[al{i}]http://al{i}.example/")).collect::<Vec<_>>().join("\n")); v.push((1..=k).map(|i| format!("\"t{i}\":al{i}")).collect::<Vec<_>>().join(" ")); }
        4 => v.push(ids.iter().map(|i| format!("\"l{i}\":http://l{i}.example/?a={i}&b")).collect::<Vec<_>>().join(" ")),
        5 => { let m = *r.pick(&["#", "*", "#_", ";"]); v.push(ids.iter().map(|i| format!("{m} item {i}")).collect::<Vec<_>>().join("\n")); v.push("#_ on".into()); }
        6 => { let c = r.range(1, 6); v.push(ids.iter().map(|i| format!("|{}", (0..c).map(|j| format!("c{i}.{j}|")).collect::<String>())).collect::<Vec<_>>().join("\n")); }
        7 => v.push(ids.iter().map(|i| format!("AB{}(meaning {i}) *b{i}* @c{i}@ =={{r{i}}}==", char::from(b'A' + (i % 26) as u8))).collect::<Vec<_>>().join(" ")),
        8 => for i in &ids { v.push(format!("p(c{i}#i{i}). %(k{i})para% {i} !x{i}.png!")); },
        _ => { let d = k.min(60) as usize; v.push(format!("{} deep", "#".repeat(d.min(9)))); v.push(format!("{}x{}", "*_".repeat(d), "_*".repeat(d))); v.push(format!("{}x{}", "<div>".repeat(d), "</div>".repeat(d))); }
    }
    v
}
/// The next version of a document: nearly the same text, as a rule of the same length.
pub fn edited(r: &mut Rng, doc: &[String]) -> Vec<String> {
    let mut d = doc.to_vec();
    if d.is_empty() { return d; }
    for _ in 0..r.range(1, 3) {
        let at = r.idx(d.len());
        match r.below(10) {
            0 if d.len() > 1 => { d.remove(at); }
            1 => { let j = r.idx(d.len()); d.swap(at, j); }
            2 => { let x = w(r); d[at].push(' '); d[at].push_str(&x); }
            k => {
                // letters and digits become others, markup stays
                let places: Vec<(usize, char)> = d[at].char_indices().filter(|(_, c)| c.is_ascii_alphanumeric()).collect();
                if places.is_empty() { continue; }
                // late in the block more often than early
                let p = if k < 6 { r.idx(places.len()) } else { places.len() - 1 - r.idx(places.len().min(8)) };
                let (i, c) = places[p];
                let n = match c { '0'..='9' => (b'0' + (c as u8 - b'0' + 1 + r.below(9) as u8) % 10) as char, 'a'..='z' if k == 5 => c.to_ascii_uppercase(), 'a'..='z' => (b'a' + (c as u8 - b'a' + 1 + r.below(25) as u8) % 26) as char, _ if k == 5 => c.to_ascii_lowercase(), _ => (b'A' + (c as u8 - b'A' + 1 + r.below(25) as u8) % 26) as char };
                d[at].replace_range(i..i + 1, n.encode_utf8(&mut [0; 4]));
            }
        }
    }
    d
}
/// A large page of simple text.
pub fn bulk(r: &mut Rng, most: u64) -> String {
    let size = r.logu(8_000, most) as usize;
    let para = r.range(30, 2000) as usize;
    let mut s = String::with_capacity(size + 64);
    let mut n = 0;
    while s.len() < size {
        s += *r.pick(&["lorem ", "ipsum ", "dolor ", "sit ", "amet ", "consectetur "]);
        n += 1;
        if n % para == 0 { s += "\n\n"; }
    }
    s
}
