//! Replays behaviours of the specification on graphql-parser.
//!
//! stdin: one job per line, {"id":n,"rep":r,"src":[code points],"req":[[request,...],...]}, the
//! notation of GqlMachine.tla.  stdout: one line per job, the outcomes in the same notation.
mod build;
mod dump;
mod json;
mod nodes;

use dump::D;
use graphql_parser::query as q;
use graphql_parser::schema as s;
use graphql_parser::query::consume_definition;
use graphql_parser::{minify_query, parse_query, parse_schema, Style};
use json::J;
use q::Text;
use std::borrow::Cow;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::str::FromStr;

enum Tree<'a, T: Text<'a>> {
    None,
    Q(q::Document<'a, T>),
    S(s::Document<'a, T>),
}

impl<'a, T: Text<'a>> Tree<'a, T> {
    fn dump(&self) -> String {
        let mut d = D::new(false);
        match self {
            Tree::None => d.out.push_str("[]"),
            Tree::Q(x) => d.qdoc(x),
            Tree::S(x) => d.sdoc(x),
        }
        d.out
    }
    fn format(&self, st: &Style) -> String {
        match self {
            Tree::None => String::new(),
            Tree::Q(x) => x.format(st),
            Tree::S(x) => x.format(st),
        }
    }
    fn nodes(&self) -> String {
        let mut w = nodes::Walk { out: vec![] };
        let (shown, formatted) = match self {
            Tree::None => (String::new(), String::new()),
            Tree::Q(x) => {
                w.qdoc(x);
                (x.to_string(), x.format(&Style::default()))
            }
            Tree::S(x) => {
                w.sdoc(x);
                (x.to_string(), x.format(&Style::default()))
            }
        };
        let mut out = format!("[\"nodes\",{},[", shown == formatted);
        for (i, n) in w.out.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            write!(out, "[\"{}\",{},{},", n.kind, codes(&n.text), n.node).unwrap();
            match &n.back {
                Ok(b) => write!(out, "[\"ok\",{}]]", b).unwrap(),
                Err(e) => write!(out, "[\"err\",{}]]", codes(e)).unwrap(),
            }
        }
        out.push_str("]]");
        out
    }
}

/// how two trees compare, and a copy with its original
fn same<'a, T: Text<'a> + Clone + PartialEq>(a: &Tree<'a, T>, b: &Tree<'a, T>) -> String {
    fn four<X: PartialEq + Clone>(a: &X, b: &X) -> [bool; 4] {
        let copy = a.clone();
        [a == b, b == a, !(a != b), copy == *a]
    }
    let (r, copy) = match (a, b) {
        (Tree::Q(x), Tree::Q(y)) => (four(x, y), Tree::Q(x.clone()).dump()),
        (Tree::S(x), Tree::S(y)) => (four(x, y), Tree::S(x.clone()).dump()),
        _ => return "[\"none\"]".to_string(),
    };
    format!("[\"same\",{:?},{}]", r, copy == a.dump())
}

/// the rank of each position, and how it shows
fn order(list: &[J]) -> String {
    let pos: Vec<graphql_parser::Pos> = list
        .iter()
        .map(|p| graphql_parser::Pos { line: p.arr()[0].num() as usize, column: p.arr()[1].num() as usize })
        .collect();
    let ranks: Vec<usize> = pos.iter().map(|p| pos.iter().filter(|q| *q < p).count()).collect();
    let above: Vec<usize> = pos.iter().map(|p| pos.iter().filter(|q| q.cmp(&p).is_gt()).count()).collect();
    let equal: Vec<usize> = pos.iter().map(|p| pos.iter().filter(|q| *q == p).count()).collect();
    let shown: Vec<String> = pos.iter().map(|p| codes(&p.to_string())).collect();
    format!("[\"order\",{:?},{:?},{:?},[{}]]", ranks, above, equal, shown.join(","))
}

fn codes(t: &str) -> String {
    let mut d = D::new(false);
    d.text(t);
    d.out
}

/// the position in an error message, as "line,column", and the message
fn error(msg: &str) -> String {
    let pos = msg
        .split("Parse error at ")
        .nth(1)
        .and_then(|r| r.split('\n').next())
        .and_then(|lc| {
            let (l, c) = lc.split_once(':')?;
            Some((l.trim().parse::<usize>().ok()?, c.trim().parse::<usize>().ok()?))
        });
    match pos {
        Some((l, c)) => format!("[\"err\",[{},{}],{}]", l, c, codes(msg)),
        None => format!("[\"err\",[],{}]", codes(msg)),
    }
}

fn parse<'a, T: Text<'a>>(start: &str, text: &'a str) -> Result<Tree<'a, T>, String> {
    if start == "QDoc" {
        parse_query::<T>(text).map(Tree::Q).map_err(|e| e.to_string())
    } else {
        parse_schema::<T>(text).map(Tree::S).map_err(|e| e.to_string())
    }
}
fn parse_static(start: &str, text: &str) -> Result<Tree<'static, String>, String> {
    Ok(match parse::<String>(start, text)? {
        Tree::Q(x) => Tree::Q(x.into_static()),
        Tree::S(x) => Tree::S(x.into_static()),
        Tree::None => Tree::None,
    })
}

fn read_all<'a, T: Text<'a>>(src: &'a str) -> String {
    let mut list = String::new();
    let mut rest = src;
    loop {
        match consume_definition::<T>(rest) {
            Ok((d, after)) => {
                let mut dump = D::new(false);
                dump.qdef(&d);
                let off = src.len().wrapping_sub(after.len());
                let suffix = src.get(off..) == Some(after);
                let at = if suffix { src[..off].chars().count() as i64 } else { -1 };
                if !list.is_empty() {
                    list.push(',');
                }
                write!(list, "[{},{}]", dump.out, at).unwrap();
                if !suffix || after.len() >= rest.len() {
                    return format!("[\"stuck\",[{}]]", list);
                }
                if after.is_empty() {
                    return format!("[\"ok\",[{}]]", list);
                }
                rest = after;
            }
            Err(e) => return format!("[\"stop\",[{}],{}]", list, error(&e.to_string())),
        }
    }
}

/// what the constructor makes of the name
fn bare<'a, T: Text<'a>>(tag: &str, name: &'a str) -> s::Definition<'a, T> {
    use s::{Definition as D, TypeDefinition as T, TypeExtension as X};
    let n = name.into();
    match tag {
        "scalar" => D::TypeDefinition(T::Scalar(s::ScalarType::new(n))),
        "type" => D::TypeDefinition(T::Object(s::ObjectType::new(n))),
        "interface" => D::TypeDefinition(T::Interface(s::InterfaceType::new(n))),
        "union" => D::TypeDefinition(T::Union(s::UnionType::new(n))),
        "enum" => D::TypeDefinition(T::Enum(s::EnumType::new(n))),
        "input" => D::TypeDefinition(T::InputObject(s::InputObjectType::new(n))),
        "scalar+" => D::TypeExtension(X::Scalar(s::ScalarTypeExtension::new(n))),
        "type+" => D::TypeExtension(X::Object(s::ObjectTypeExtension::new(n))),
        "interface+" => D::TypeExtension(X::Interface(s::InterfaceTypeExtension::new(n))),
        "union+" => D::TypeExtension(X::Union(s::UnionTypeExtension::new(n))),
        "enum+" => D::TypeExtension(X::Enum(s::EnumTypeExtension::new(n))),
        "input+" => D::TypeExtension(X::InputObject(s::InputObjectTypeExtension::new(n))),
        "directive" => D::DirectiveDefinition(s::DirectiveDefinition::new(n)),
        "enumval" => {
            let mut e = s::EnumType::new("E".into());
            e.values.push(s::EnumValue::new(n));
            D::TypeDefinition(T::Enum(e))
        }
        _ => panic!("new {}", tag),
    }
}

const DEPENDENT: [&str; 7] = ["same", "print", "reread", "reprint", "reminify", "readmin", "nodes"];

fn run<'a, T: Text<'a> + Clone + PartialEq>(
    job: &J,
    src: &'a str,
    reqs: &[J],
    make: impl Fn(&str, &'a str) -> Result<Tree<'a, T>, String>,
) -> Vec<String> {
    let mut hist: Vec<String> = vec![];
    let mut tree: Tree<'a, T> = Tree::None;
    let mut again: Tree<'static, String> = Tree::None;
    let mut start = "QDoc";
    let mut text = String::new();
    let mut mini = String::new();
    let mut style = Style::default();
    let mut i = 0;
    while i < reqs.len() {
        let r = reqs[i].arr();
        let mut failed = false;
        match r[0].str() {
            "parse" => {
                start = r[1].str();
                match make(start, src) {
                    Ok(t) => {
                        hist.push(format!("[\"ok\",{}]", t.dump()));
                        tree = t;
                    }
                    Err(e) => {
                        hist.push(error(&e));
                        failed = true;
                    }
                }
            }
            "build" => {
                // a tree made by hand replaces the parsed one; only for rep "built"
                start = r[1].str();
                let ast = job.get("ast").expect("ast");
                again = if start == "QDoc" { Tree::Q(build::qdoc(ast)) } else { Tree::S(build::sdoc(ast)) };
                hist.push(format!("[\"ok\",{}]", again.dump()));
            }
            "print" => {
                style.indent(r[1].num() as u32).multiline_arguments(r[2].bool());
                text = if matches!(tree, Tree::None) { again.format(&style) } else { tree.format(&style) };
                hist.push(format!("[\"text\",{}]", codes(&text)));
            }
            "reread" => match parse_static(start, &text) {
                Ok(t) => {
                    hist.push(format!("[\"ok\",{}]", t.dump()));
                    again = t;
                }
                Err(e) => {
                    hist.push(error(&e));
                    failed = true;
                }
            },
            "reprint" => {
                text = again.format(&style);
                hist.push(format!("[\"text\",{}]", codes(&text)));
            }
            "minify" | "reminify" => {
                let input = if r[0].str() == "minify" { src.to_string() } else { mini.clone() };
                match minify_query(input) {
                    Ok(m) => {
                        hist.push(format!("[\"ok\",{}]", codes(&m)));
                        mini = m;
                    }
                    Err(e) => {
                        hist.push(format!("[\"err\",[],{}]", codes(&e.to_string())));
                        failed = true;
                    }
                }
            }
            "readmin" => match parse_static(r[1].str(), &mini) {
                Ok(t) => hist.push(format!("[\"ok\",{}]", t.dump())),
                Err(e) => {
                    hist.push(error(&e));
                    failed = true;
                }
            },
            "consume" => hist.push(read_all::<T>(src)),
            "nodes" => {
                hist.push(if matches!(tree, Tree::None) { again.nodes() } else { tree.nodes() });
            }
            "same" => {
                let other: &'static str = Box::leak(r[2].text().into_boxed_str());
                hist.push(match make(r[1].str(), other) {
                    Ok(t) => same(&tree, &t),
                    Err(_) => "[\"none\"]".to_string(),
                });
            }
            "order" => hist.push(order(r[1].arr())),
            "new" => {
                start = "SDoc";
                let definitions = r[1].arr().iter().map(|tag| bare::<T>(tag.str(), src)).collect();
                tree = Tree::S(s::Document { definitions });
                hist.push(format!("[\"ok\",{}]", tree.dump()));
            }
            "default" => {
                let empty: Tree<String> = Tree::S(s::Document::default());
                let schema: s::SchemaDefinition<String> = Default::default();
                let p = graphql_parser::Pos::default();
                let schema: Tree<String> = Tree::S(s::Document { definitions: vec![s::Definition::SchemaDefinition(schema)] });
                hist.push(format!(
                    "[\"default\",{},{},[{},{}],{}]",
                    empty.dump(),
                    schema.dump(),
                    p.line,
                    p.column,
                    codes(&schema.format(&Style::default()))
                ));
            }
            "number" => {
                let n = q::Number::from(src.parse::<i32>().expect("number"));
                let text = n.as_i64().map(|x| x.to_string()).unwrap_or_default();
                hist.push(format!("[\"number\",{},{}]", codes(&text), codes(&q::Value::<T>::Int(n).to_string())));
            }
            "location" => hist.push(match s::DirectiveLocation::from_str(src) {
                Ok(l) => format!("[\"ok\",{},{},{}]", codes(l.as_str()), l.is_query(), l.is_schema()),
                Err(_) => "[\"none\"]".to_string(),
            }),
            other => panic!("request {}", other),
        }
        i += 1;
        if failed {
            while i < reqs.len() && DEPENDENT.contains(&reqs[i].arr()[0].str()) {
                hist.push("[\"skip\"]".to_string());
                i += 1;
            }
        }
    }
    hist
}

fn job(j: &J) -> Vec<String> {
    let src = j.get("src").map(|t| t.text()).unwrap_or_default();
    let reqs = j.get("req").expect("req").arr();
    match j.get("rep").map(|r| r.str()).unwrap_or("str") {
        "str" => run::<&str>(j, &src, reqs, |k, t| parse(k, t)),
        "string" => run::<String>(j, &src, reqs, |k, t| parse(k, t)),
        "cow" => run::<Cow<str>>(j, &src, reqs, |k, t| parse(k, t)),
        // the tree must not need the text it came from
        "static" => run::<String>(j, Box::leak(src.into_boxed_str()), reqs, |k, t| {
            let copy: String = t.to_string();
            let tree = parse_static(k, &copy);
            let mut bytes = copy.into_bytes();
            bytes.iter_mut().for_each(|b| *b = b'?');
            drop(bytes);
            tree
        }),
        r => panic!("rep {}", r),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        eprintln!("panic: {}", info);
    }));
    let stdin = std::io::stdin();
    // with --threads N, N threads do all jobs, each beginning with another one
    if let Some(n) = std::env::args().skip_while(|a| a != "--threads").nth(1) {
        let n: usize = n.parse().unwrap();
        let lines: Vec<String> = stdin.lock().lines().map(|l| l.unwrap()).collect();
        let gate = std::sync::Barrier::new(n);
        std::thread::scope(|s| {
            for k in 0..n {
                let (lines, gate) = (&lines, &gate);
                s.spawn(move || {
                    gate.wait();
                    let start = k * lines.len() / n;
                    for line in lines[start..].iter().chain(&lines[..start]) {
                        answer(line);
                    }
                });
            }
        });
        return;
    }
    for line in stdin.lock().lines() {
        answer(&line.unwrap());
    }
}

fn answer(line: &str) {
    let j = json::parse(line);
    let id = j.get("id").expect("id").num();
    let out = match std::panic::catch_unwind(|| job(&j)) {
        Ok(h) => format!("{{\"id\":{},\"out\":[{}]}}", id, h.join(",")),
        Err(_) => format!("{{\"id\":{},\"panic\":true}}", id),
    };
    let mut w = std::io::stdout().lock();
    writeln!(w, "{}", out).unwrap();
    w.flush().unwrap();
}
