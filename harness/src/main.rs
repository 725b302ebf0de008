mod dump;
mod out;

use lib_ruby_parser::source::{Comment, CommentType, Decoder, DecoderResult, InputError, MagicCommentKind};
use lib_ruby_parser::*;
use out::{esc, Out};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    (0..b.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("bad hex"))
        .collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jbytes(b: &[u8]) -> String {
    let mut o = String::new();
    esc(b, &mut o);
    jstr(&o)
}

struct Opts {
    m: HashMap<String, String>,
}
impl Opts {
    fn new(s: &str) -> Self {
        let mut m = HashMap::new();
        for kv in s.split(',') {
            if kv.is_empty() {
                continue;
            }
            match kv.split_once('=') {
                Some((k, v)) => m.insert(k.to_string(), v.to_string()),
                None => m.insert(kv.to_string(), String::new()),
            };
        }
        Opts { m }
    }
    fn get(&self, k: &str) -> Option<&str> {
        self.m.get(k).map(|s| s.as_str())
    }
}

fn decoder(o: &Opts, log: Arc<Mutex<Vec<String>>>) -> Option<Decoder> {
    let kind = o.get("dec")?.to_string();
    if kind == "none" {
        return None;
    }
    Some(Decoder::new(Box::new(move |enc: String, input: Vec<u8>| {
        log.lock().unwrap().push(format!("{}:{}", enc, hex(&input)));
        match kind.as_str() {
            "id" => DecoderResult::Ok(input),
            "err" => DecoderResult::Err(InputError::DecodingError("boom".into())),
            "unsup" => DecoderResult::Err(InputError::UnsupportedEncoding(enc)),
            // reference decoder: every byte >= 0x80 becomes its two-byte UTF-8 (latin1)
            "latin1" => {
                let mut out = vec![];
                for b in input {
                    if b < 0x80 {
                        out.push(b)
                    } else {
                        out.push(0xc0 | (b >> 6));
                        out.push(0x80 | (b & 0x3f));
                    }
                }
                DecoderResult::Ok(out)
            }
            "drop" => DecoderResult::Ok(input.into_iter().filter(|b| *b < 0x80).collect()),
            "empty" => DecoderResult::Ok(vec![]),
            other => {
                if let Some(h) = other.strip_prefix("const:") {
                    DecoderResult::Ok(unhex(h))
                } else {
                    DecoderResult::Ok(input)
                }
            }
        }
    })))
}

fn tokens_json(tokens: &[Token]) -> String {
    let mut s = String::from("[");
    for (i, t) in tokens.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!(
            "[{},{},{},{}]",
            jstr(t.token_name()),
            jbytes(t.token_value.as_raw()),
            t.loc.begin,
            t.loc.end
        ));
    }
    s.push(']');
    s
}

fn comments_json(cs: &[Comment]) -> String {
    let v: Vec<String> = cs
        .iter()
        .map(|c| {
            format!(
                "[{},{},{}]",
                c.location.begin,
                c.location.end,
                match c.kind {
                    CommentType::Inline => "\"inline\"",
                    CommentType::Document => "\"document\"",
                    CommentType::Unknown => "\"unknown\"",
                }
            )
        })
        .collect();
    format!("[{}]", v.join(","))
}

fn lc(p: Option<(usize, usize)>) -> String {
    match p {
        Some((l, c)) => format!("[{},{}]", l, c),
        None => "null".to_string(),
    }
}

fn one(o: &Opts, src: Vec<u8>) -> String {
    let views = o.get("v").unwrap_or("a").to_string();
    let has = |c: char| views.contains(c);
    let log = Arc::new(Mutex::new(vec![]));
    let mut fields: Vec<String> = vec![];

    if o.get("api") == Some("env") {
        // script over StaticEnvironment: S=extend_static D=extend_dynamic U=unextend d<name>=declare q<name>=query
        let env = StaticEnvironment::new();
        let script = String::from_utf8(src).unwrap();
        let mut res = String::new();
        for w in script.split(' ') {
            if w.is_empty() {
                continue;
            }
            match &w[..1] {
                "S" => env.extend_static(),
                "D" => env.extend_dynamic(),
                "U" => env.unextend(),
                "d" => env.declare(&w[1..]),
                "q" => res.push(if env.is_declared(&w[1..]) { '1' } else { '0' }),
                _ => panic!("bad script"),
            }
        }
        return format!("\"q\":{}", jstr(&res));
    }
    if o.get("api") == Some("rw") {
        let w = String::from_utf8(src).unwrap();
        return format!("\"rw\":{}", reserved_word(w.as_bytes()).is_some());
    }
    if o.get("api") == Some("input") {
        // DecodedInput as a user builds it
        let mut input = lib_ruby_parser::source::DecodedInput::named(o.get("name").unwrap_or("n"));
        input.update_bytes(src.clone());
        input_view(&input, &src, &mut fields);
        return fields.join(",");
    }
    if o.get("api") == Some("sum") {
        summary(o, &src, &mut fields, o.get("sum").unwrap_or(""));
        return fields.join(",");
    }
    if o.get("api") == Some("lex") {
        let mut lexer = Lexer::new(src, "(eval)".to_string(), decoder(o, log));
        if let Some(d) = o.get("decl") {
            for n in d.split(':') {
                lexer.static_env.declare(n);
            }
        }
        if let Some(st) = o.get("state") {
            lexer.lex_state.set(st.parse().unwrap());
        }
        let toks = lexer.tokenize_until_eof();
        return format!("\"t\":{}", tokens_json(&toks));
    }

    let options = ParserOptions {
        buffer_name: o.get("name").unwrap_or("(eval)").to_string(),
        decoder: decoder(o, log.clone()),
        record_tokens: o.get("rec") != Some("0"),
    };
    let parser = Parser::new(src.clone(), options);
    if let Some(d) = o.get("decl") {
        for n in d.split(':') {
            parser.static_env.declare(n);
        }
    }
    let r = if o.get("api") == Some("validate") {
        parser.do_parse_with_state_validation()
    } else {
        parser.do_parse()
    };
    if has('a') || has('l') {
        let mut out = Out { want_locs: has('l'), ..Default::default() };
        match &r.ast {
            Some(n) => dump::dump(n, &mut out),
            None => out.nil(),
        }
        if has('a') {
            fields.push(format!("\"x\":{}", jstr(&out.x)));
        }
        if has('l') {
            if !has('o') {
                out.locs.sort();
            }
            let v: Vec<String> = out
                .locs
                .iter()
                .map(|(t, f, b, e)| format!("\"{}.{}@{}-{}\"", t, f, b, e))
                .collect();
            fields.push(format!("\"L\":[{}]", v.join(",")));
        }
    }
    if has('t') {
        fields.push(format!("\"t\":{}", tokens_json(&r.tokens)));
    }
    if has('d') {
        let v: Vec<String> = r
            .diagnostics
            .iter()
            .map(|d| {
                format!(
                    "[{},{},{},{},{}]",
                    if d.is_error() { "\"error\"" } else if d.is_warning() { "\"warning\"" } else { "\"?\"" },
                    jstr(&format!("{:?}", d.message)),
                    d.loc.begin,
                    d.loc.end,
                    jstr(&d.render_message())
                )
            })
            .collect();
        fields.push(format!("\"d\":[{}]", v.join(",")));
    }
    if has('r') {
        let v: Vec<String> = r
            .diagnostics
            .iter()
            .map(|d| match d.render(&r.input) {
                Some(s) => jstr(&s),
                None => "null".into(),
            })
            .collect();
        fields.push(format!("\"r\":[{}]", v.join(",")));
    }
    if has('c') {
        fields.push(format!("\"c\":{}", comments_json(&r.comments)));
    }
    if has('m') {
        let v: Vec<String> = r
            .magic_comments
            .iter()
            .map(|m| {
                format!(
                    "[\"{}\",{},{},{},{}]",
                    match m.kind {
                        MagicCommentKind::Encoding => "encoding",
                        MagicCommentKind::FrozenStringLiteral => "frozen_string_literal",
                        MagicCommentKind::WarnIndent => "warn_indent",
                        MagicCommentKind::ShareableConstantValue => "shareable_constant_value",
                    },
                    m.key_l.begin,
                    m.key_l.end,
                    m.value_l.begin,
                    m.value_l.end
                )
            })
            .collect();
        fields.push(format!("\"m\":[{}]", v.join(",")));
    }
    if has('i') {
        let bytes = r.input.bytes.clone();
        input_view(&r.input, &bytes, &mut fields);
    }
    if has('b') {
        fields.push(format!("\"b\":\"{}\"", hex(&r.input.bytes)));
        let l = log.lock().unwrap();
        let v: Vec<String> = l.iter().map(|s| jstr(s)).collect();
        fields.push(format!("\"dl\":[{}]", v.join(",")));
    }
    if has('n') {
        fields.push(format!("\"n\":{}", r.input.bytes.len()));
    }
    fields.join(",")
}

/// One parse: everything a caller can read from its result, and the ranges that do not lie in the input.
struct Seen {
    text: Vec<(&'static str, String)>,
    outside: Vec<String>,
    tree: bool,
    error: bool,
    idle: bool,
    tokens: usize,
}
fn parse_seen(o: &Opts, src: &[u8], name: &str, rec: bool, validate: bool) -> Seen {
    let log = Arc::new(Mutex::new(vec![]));
    let parser = Parser::new(
        src.to_vec(),
        ParserOptions { buffer_name: name.to_string(), decoder: decoder(o, log.clone()), record_tokens: rec },
    );
    if let Some(d) = o.get("decl") {
        for n in d.split(':') {
            parser.static_env.declare(n);
        }
    }
    let r = if validate { parser.do_parse_with_state_validation() } else { parser.do_parse() };
    let n = r.input.bytes.len();
    let mut outside = vec![];
    // in text, no range may begin or end inside a character
    let text = std::str::from_utf8(&r.input.bytes).ok();
    let mut see = |what: &str, b: usize, e: usize| {
        let splits = text.map_or(false, |t| !(t.is_char_boundary(b) && t.is_char_boundary(e)));
        if (b > e || e > n || splits) && outside.len() < 4 {
            outside.push(format!("{}@{}-{}", what, b, e));
        }
    };
    let mut out = Out { want_locs: true, ..Default::default() };
    match &r.ast {
        Some(n) => dump::dump(n, &mut out),
        None => out.nil(),
    }
    for (t, f, b, e) in &out.locs {
        see(&format!("{}.{}", t, f), *b, *e);
    }
    for t in &r.tokens {
        see(&format!("token {}", t.token_name()), t.loc.begin, t.loc.end);
    }
    for d in &r.diagnostics {
        see(&format!("diagnostic {:?}", d.message), d.loc.begin, d.loc.end);
    }
    for c in &r.comments {
        see("comment", c.location.begin, c.location.end);
    }
    for m in &r.magic_comments {
        see("magic key", m.key_l.begin, m.key_l.end);
        see("magic value", m.value_l.begin, m.value_l.end);
    }
    let error = r.diagnostics.iter().any(|d| d.is_error());
    let text = vec![
        ("tree", out.x.clone()),
        ("ranges", out.locs.iter().map(|(t, f, b, e)| format!("{}.{}@{}-{} ", t, f, b, e)).collect()),
        ("diagnostics", format!("{:?}", r.diagnostics)),
        ("comments", comments_json(&r.comments)),
        ("magic comments", format!("{:?}", r.magic_comments)),
        ("input", hex(&r.input.bytes)),
        ("decoder calls", format!("{:?}", log.lock().unwrap())),
        ("tokens", tokens_json(&r.tokens)),
    ];
    Seen {
        text,
        outside,
        tree: r.ast.is_some(),
        error,
        idle: r.tokens.iter().all(|t| matches!(t.token_name(), "tNL" | "tSEMI" | "EOF")),
        tokens: r.tokens.len(),
    }
}

/// What must hold for every input: nothing outside the input (oob), rejection is reported (silent), options
/// and earlier parses change nothing (diff), no leftover state after an accepted program (left).
fn summary(o: &Opts, src: &[u8], fields: &mut Vec<String>, only: &str) {
    let p = parse_seen(o, src, "(eval)", true, false);
    let strs = |v: &[String]| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
    fields.push(format!("\"oob\":[{}]", strs(&p.outside)));
    fields.push(format!("\"silent\":{}", !p.tree && !p.error && !p.idle));
    fields.push(format!("\"acc\":{}", !p.error));
    if only.contains('6') {
        let mut diff = vec![];
        for (name, rec, what) in [("(eval)", true, "again"), ("(eval)", false, "unrecorded"), ("a/b.rb", true, "renamed"), ("", false, "unnamed, unrecorded")] {
            if what == "again" {
                // something else happens in between
                let _ = parse_seen(o, b"def m(a, ...) = a.each { _1 + b = %w[c #{d}] }; <<~A; /(?<x>y)/ =~ z\n  #{@a}\nA\n", "other", true, false);
            }
            let q = parse_seen(o, src, name, rec, false);
            for (a, b) in p.text.iter().zip(q.text.iter()) {
                if a.0 == "tokens" && !rec {
                    if q.tokens != 0 {
                        diff.push(format!("{}: tokens recorded", what));
                    }
                } else if a.1 != b.1 {
                    diff.push(format!("{}: {}", what, a.0));
                }
            }
        }
        fields.push(format!("\"diff\":[{}]", strs(&diff)));
    }
    if only.contains('v') {
        let mut left = String::new();
        if !p.error && o.get("decl").is_none() {
            if catch_unwind(AssertUnwindSafe(|| parse_seen(o, src, "(eval)", true, true))).is_err() {
                left = PANIC.with(|p| p.borrow().clone());
            }
        }
        fields.push(format!("\"left\":{}", jstr(&left)));
    }
}

fn input_view(input: &lib_ruby_parser::source::DecodedInput, bytes: &[u8], fields: &mut Vec<String>) {
    let v: Vec<String> = input
        .lines
        .iter()
        .map(|l| format!("[{},{},{},{},{}]", l.start, l.end, l.line_end(), l.len(), l.ends_with_eof))
        .collect();
    fields.push(format!("\"lines\":[{}]", v.join(",")));
    let mut v = vec![];
    let mut v2 = vec![];
    let mut v3 = vec![];
    for p in 0..=bytes.len() + 1 {
        v.push(lc(input.line_col_for_pos(p)));
        if p <= bytes.len() {
            let loc = Loc { begin: p, end: bytes.len() };
            v2.push(match loc.expand_to_line(input) {
                Some((l, loc)) => format!("[{},{},{}]", l, loc.begin, loc.end),
                None => "null".into(),
            });
        }
        let loc = Loc { begin: p, end: p + 1 };
        v3.push(match loc.source(input) {
            Some(s) => jbytes(s.as_bytes()),
            None => "null".into(),
        });
    }
    fields.push(format!("\"lc\":[{}]", v.join(",")));
    fields.push(format!("\"xl\":[{}]", v2.join(",")));
    fields.push(format!("\"src\":[{}]", v3.join(",")));
    fields.push(format!("\"bytes\":\"{}\"", hex(input.as_shared_bytes())));
    if bytes.len() <= 16 {
        // every range, its text and a diagnostic rendered there
        let mut v = vec![];
        let mut v2 = vec![];
        for b in 0..=bytes.len() + 1 {
            for e in 0..=bytes.len() + 1 {
                let loc = Loc { begin: b, end: e };
                v.push(match loc.source(input) {
                    Some(s) => format!("[{},{},{}]", b, e, jbytes(s.as_bytes())),
                    None => format!("[{},{},null]", b, e),
                });
                if b <= e {
                    let d = lib_ruby_parser::Diagnostic {
                        level: if (b + e) % 2 == 0 { ErrorLevel::Error } else { ErrorLevel::Warning },
                        message: lib_ruby_parser::DiagnosticMessage::NumericLiteralWithoutDigits {},
                        loc,
                    };
                    v2.push(match d.render(input) {
                        Some(s) => format!("[{},{},{}]", b, e, jbytes(s.as_bytes())),
                        None => format!("[{},{},null]", b, e),
                    });
                }
            }
        }
        fields.push(format!("\"sub\":[{}]", v.join(",")));
        fields.push(format!("\"rd\":[{}]", v2.join(",")));
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: rbh IN OUT [threads] [hang_seconds]");
        std::process::exit(2);
    }
    let threads: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(8);
    let hang: u64 = args.get(4).map(|s| s.parse().unwrap()).unwrap_or(30);
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
    let f: Box<dyn BufRead> = Box::new(std::io::BufReader::new(
        std::fs::File::open(&args[1]).expect("open input"),
    ));
    let lines: Arc<Vec<String>> = Arc::new(f.lines().map(|l| l.expect("utf8")).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let t0 = Instant::now();
    let starts: Arc<Vec<(AtomicU64, AtomicUsize)>> =
        Arc::new((0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicUsize::new(0))).collect());
    let results: Arc<Mutex<Vec<(usize, String)>>> = Arc::new(Mutex::new(vec![]));
    let outpath = args[2].clone();
    // Progress file so that an abort (stack overflow) can be attributed to the cases in flight.
    let mut handles = vec![];
    for t in 0..threads {
        let (lines, next, starts, results) = (lines.clone(), next.clone(), starts.clone(), results.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut local = vec![];
                    loop {
                        let base = next.fetch_add(64, Ordering::SeqCst);
                        if base >= lines.len() {
                            break;
                        }
                        for i in base..(base + 64).min(lines.len()) {
                            starts[t].1.store(i, Ordering::SeqCst);
                            starts[t].0.store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                            let mut p = lines[i].splitn(3, '\t');
                            let id = p.next().unwrap_or("");
                            let opts = Opts::new(p.next().unwrap_or(""));
                            let src = unhex(p.next().unwrap_or(""));
                            let res = match catch_unwind(AssertUnwindSafe(|| one(&opts, src))) {
                                Ok(s) => s,
                                Err(_) => PANIC.with(|p| format!("\"panic\":{}", jstr(&p.borrow()))),
                            };
                            local.push((i, format!("{}\t{{{}}}", id, res)));
                        }
                    }
                    starts[t].0.store(u64::MAX, Ordering::SeqCst);
                    results.lock().unwrap().extend(local);
                })
                .unwrap(),
        );
    }
    {
        let (starts, lines, outpath) = (starts.clone(), lines.clone(), outpath.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = t0.elapsed().as_millis() as u64;
            for (s, i) in starts.iter() {
                let st = s.load(Ordering::SeqCst);
                if st != u64::MAX && now > st + hang * 1000 {
                    let i = i.load(Ordering::SeqCst);
                    let id = lines[i].split('\t').next().unwrap_or("").to_string();
                    let mut f = std::fs::File::create(&outpath).unwrap();
                    writeln!(f, "{}\t{{\"hang\":true}}", id).unwrap();
                    std::process::exit(3);
                }
            }
        });
    }
    for h in handles {
        h.join().unwrap();
    }
    let mut r = std::mem::take(&mut *results.lock().unwrap());
    r.sort_by_key(|x| x.0);
    let mut f = std::io::BufWriter::new(std::fs::File::create(&outpath).unwrap());
    for (_, s) in r {
        writeln!(f, "{}", s).unwrap();
    }
}
