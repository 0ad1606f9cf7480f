//! C17, C18: prettifying.
use super::parse::{diff, parse_ok};
use crate::engine::*;
use crate::fuzz::*;
use crate::hostile;
use crate::model::*;
use crate::proj;
use crate::render::*;
use crate::rng::Rng;
use crate::types::Any;
use yaml_subset::yaml::{from_yaml, parse_yaml_file, Document, DocumentData, Pretty, Yaml};

/// Gives some scalars hostile contents and some sequences the shape that prettifying turns into flow.
fn spice(r: &mut Rng, n: &mut Node, flow: bool, rate: usize) {
    match n {
        Node::Scalar(s) => {
            if r.chance(rate, 100) {
                let text = hostile::string(r);
                let double = r.chance(1, 2);
                if let Some(q) = hostile::quoted(r, &text, double) {
                    *s = q;
                }
            }
        }
        Node::Ref(_) => {}
        Node::Seq { flow: fl, items } | Node::Map { flow: fl, items } => {
            let flow = flow || *fl;
            for i in items.iter_mut() {
                if let Item::Entry(e) = i {
                    spice(r, &mut e.node, flow, rate);
                }
            }
        }
    }
}

/// A sequence whose elements are sequences of scalars.
fn rows(r: &mut Rng, cfg: &Cfg) -> Node {
    let n = 1 + r.below(4);
    let cells = |r: &mut Rng, flow: bool| -> Vec<Item> {
        let most = if r.chance(1, 6) { 14 } else { 4 };
        // many short ones, of which one or two are more than that
        let short = r.chance(1, 10);
        let m = if short { 2 + r.below(34) } else { 1 + r.below(most) };
        let odd = [r.below(m), m - 1 - r.below(m.min(2))];
        let mut v = Vec::new();
        for i in 0..m {
            if short && (r.chance(9, 10) && i != odd[1] || !odd.contains(&i)) {
                v.push(Item::Entry(Entry { key: String::new(), alias: None, node: plain(r.pick(&["1", "x", "y", "0"])) }));
                continue;
            }
            if short && !flow && cfg.aliases > 0 && r.chance(1, 2) {
                v.push(Item::Entry(Entry { key: String::new(), alias: Some("z".to_string()), node: plain("1") }));
                continue;
            }
            if short && !flow && cfg.comments > 0 && r.chance(1, 2) {
                v.push(Item::Comment(" c".to_string()));
            }
            if !flow && r.chance(cfg.comments, 300) {
                v.push(Item::Comment(" c".to_string()));
            }
            let node = match r.below(16) {
                0 => Node::Ref("r".to_string()),
                1 => Node::Map { flow: true, items: vec![Item::Entry(Entry { key: "k".into(), alias: None, node: plain("v") })] },
                2 => Node::Seq { flow: true, items: vec![] },
                3 if !flow => Node::Seq { flow: false, items: vec![Item::Entry(Entry { key: String::new(), alias: None, node: Node::Scalar(gen_scalar(r, cfg, false)) })] },
                4 if !flow => Node::Map { flow: false, items: vec![Item::Entry(Entry { key: "k".into(), alias: None, node: Node::Scalar(gen_scalar(r, cfg, false)) })] },
                _ => Node::Scalar(gen_scalar(r, cfg, flow)),
            };
            let alias = if !flow && r.chance(cfg.aliases, 200) && !matches!(node, Node::Ref(_)) { Some("z".to_string()) } else { None };
            v.push(Item::Entry(Entry { key: String::new(), alias, node }));
        }
        v
    };
    let mut items = Vec::new();
    for _ in 0..n {
        let flow = r.chance(1, 4);
        let c = cells(r, flow);
        items.push(Item::Entry(Entry { key: String::new(), alias: None, node: Node::Seq { flow, items: c } }));
    }
    Node::Seq { flow: false, items }
}

fn gen(r: &mut Rng, ctx: &mut Ctx) -> Doc {
    let mut cfg = Cfg::random(r, ctx.size);
    cfg.max_depth = cfg.max_depth.max(2);
    let mut d = gen_doc(r, &mut cfg);
    if let Node::Map { flow: false, items } | Node::Seq { flow: false, items } = &mut d.root {
        if r.chance(1, 3) {
            let node = rows(r, &cfg);
            items.push(Item::Entry(Entry { key: "rows".to_string(), alias: None, node }));
        }
    }
    let rate = *r.pick(&[0, 20, 50, 90]);
    spice(r, &mut d.root, false, rate);
    d
}

/// Block collections inside flow ones, as serializing tuples makes them.
pub fn foreign(r: &mut Rng, n: &mut Node) {
    if let Node::Map { flow, items } | Node::Seq { flow, items } = n {
        for i in items.iter_mut() {
            if let Item::Entry(e) = i {
                foreign(r, &mut e.node);
            }
        }
        if !*flow && r.chance(1, 6) {
            fn strip(n: &mut Node) -> bool {
                match n {
                    Node::Scalar(s) => !s.style.block(),
                    Node::Ref(_) => true,
                    Node::Map { items, .. } | Node::Seq { items, .. } => {
                        items.retain(|i| matches!(i, Item::Entry(_)));
                        items.iter_mut().all(|i| match i {
                            Item::Entry(e) => {
                                e.alias = None;
                                strip(&mut e.node)
                            }
                            _ => false,
                        })
                    }
                }
            }
            let mut c = Node::Seq { flow: true, items: std::mem::take(items) };
            let ok = strip(&mut c);
            if let Node::Seq { items: i, .. } = c {
                *items = i;
                *flow = ok;
            }
        }
    }
}

/// Where the tree comes from: parsed text, or built.
fn subject(r: &mut Rng, ctx: &mut Ctx) -> Result<Option<(Document, bool)>, String> {
    match r.below(10) {
        0 | 1 => {
            let (_, t) = any_text(r, ctx.size);
            ctx.say(t.clone());
            match parse_yaml_file(&t) {
                Ok(d) => {
                    ctx.hit("accepted mutated text");
                    ctx.distinct(&t);
                    Ok(Some((d, true)))
                }
                Err(_) => {
                    ctx.hit("rejected text");
                    Ok(None)
                }
            }
        }
        2 => {
            let mut d = gen(r, ctx);
            foreign(r, &mut d.root);
            let t = d.dump(FULL);
            ctx.say(format!("tree: {}", t));
            ctx.distinct(&t);
            ctx.hit("built tree, block in flow");
            Ok(Some((proj::document(&d), false)))
        }
        3 | 4 => {
            let d = gen(r, ctx);
            let t = d.dump(FULL);
            ctx.say(format!("tree: {}", t));
            ctx.distinct(&t);
            ctx.hit("built tree");
            Ok(Some((proj::document(&d), true)))
        }
        _ => {
            let d = gen(r, ctx);
            let l = Layout::random(r);
            let (t, _) = render(&d, l, r);
            ctx.say(t.clone());
            ctx.distinct(&t);
            ctx.hit("rendered text");
            Ok(Some((parse_ok(&t)?, true)))
        }
    }
}

/// What a plain scalar reads as without a type.
pub fn reads_as_string(s: &str) -> bool {
    !(matches!(s, "~" | "null" | "Null" | "NULL" | "true" | "false") || s.parse::<f64>().is_ok())
}

/// A flow collection's text, as it stands behind a dash.
fn flow_text(n: &Node) -> Option<String> {
    let d = Document { leading_comments: vec![], items: vec![DocumentData::Yaml(proj::yaml(&Node::Seq {
        flow: false,
        items: vec![Item::Entry(Entry { key: String::new(), alias: None, node: n.clone() })],
    }))] };
    let t = d.format().ok()?;
    t.strip_prefix("---\n-").map(|l| l.to_string())
}

/// Compares a value before (`a`) and after (`b`) prettifying.
fn kept(a: &Node, b: &Node, in_flow: bool, in_seq: bool, ctx: &mut Ctx) -> Res {
    match (a, b) {
        (Node::Ref(x), Node::Ref(y)) if x == y => Ok(()),
        (Node::Scalar(x), Node::Scalar(y)) => {
            if x.value != y.value {
                return Err(format!("a scalar changed from {:?} ({:?}) to {:?} ({:?})", x.value, x.style, y.value, y.style));
            }
            if x.style != y.style {
                ctx.hit(&format!("{:?} to {:?}", x.style, y.style));
            }
            if x.style == Style::Plain && y.style != Style::Plain {
                let special = |c: char| ",[]{}\"#>|".contains(c);
                if !in_flow || !x.value.contains(special) {
                    return Err(format!("plain {:?} became {:?} without need", x.value, y.style));
                }
            }
            if y.style == Style::Plain && x.style != Style::Plain {
                if !reads_as_string(&y.value) {
                    return Err(format!("{:?} {:?} became plain", x.style, x.value));
                }
            }
            if in_flow && y.style.block() {
                return Err(format!("{:?} is {:?} inside a flow collection", y.value, y.style));
            }
            Ok(())
        }
        (Node::Map { items: x, flow: fx }, Node::Map { items: y, flow: fy }) | (Node::Seq { items: x, flow: fx }, Node::Seq { items: y, flow: fy }) => {
            let holds = x.iter().any(|i| matches!(i, Item::Entry(_)));
            if *fx && !fy {
                return Err(format!("a flow collection became a block one: {}", b.dump(FULL)));
            }
            if !fx && *fy && holds && !in_flow {
                // only rows of short values, directly in a block sequence
                let text = if matches!(b, Node::Seq { .. }) && in_seq { flow_text(b) } else { None };
                match text {
                    Some(t) if t.len() <= 90 => ctx.hit("row to flow"),
                    _ => return Err(format!("a block collection became a flow one: {}", b.dump(FULL))),
                }
            }
            let seq = matches!(a, Node::Seq { .. });
            if x.len() != y.len() {
                return Err(format!("a collection of {} items has {} now: {}", x.len(), y.len(), b.dump(FULL)));
            }
            for (i, j) in x.iter().zip(y) {
                match (i, j) {
                    (Item::Comment(c), Item::Comment(d)) | (Item::Inline(c), Item::Inline(d)) if c == d => {}
                    (Item::Entry(e), Item::Entry(f)) if e.key == f.key && e.alias == f.alias => kept(&e.node, &f.node, in_flow || *fy, seq, ctx)?,
                    _ => return Err(format!("an entry or comment changed: {}", b.dump(FULL))),
                }
            }
            Ok(())
        }
        _ => Err(format!("{} became {}", a.dump(FULL), b.dump(FULL))),
    }
}

fn root(d: &Document) -> Option<Yaml> {
    d.items.iter().find_map(|i| if let DocumentData::Yaml(y) = i { Some(y.clone()) } else { None })
}

fn c17(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let d = match subject(r, ctx)? {
        Some((d, _)) => d,
        None => return Ok(()),
    };
    let before = proj::doc(&d)?;
    let p = d.clone().pretty();
    let after = proj::doc(&p)?;
    if (&before.lead, &before.pre, &before.post) != (&after.lead, &after.pre, &after.post) {
        return Err("a comment outside the value changed".into());
    }
    kept(&before.root, &after.root, false, false, ctx).map_err(|e| format!("{}\n--- before\n{}\n--- after\n{}", e, before.dump(FULL), after.dump(FULL)))?;
    if let (Some(a), Some(b)) = (root(&d), root(&p)) {
        if a.clone().pretty() != b {
            return Err("prettifying the value and its document differ".into());
        }
        let (x, y) = (from_yaml::<Any>(a), from_yaml::<Any>(b));
        match (x, y) {
            (Ok(x), Ok(y)) if format!("{:?}", x) == format!("{:?}", y) => ctx.hit("read alike"),
            (Err(_), Err(_)) => ctx.hit("unreadable alike"),
            (x, y) => return Err(format!("read untyped, it changed from {:?} to {:?}", x.map_err(|e| e.0), y.map_err(|e| e.0))),
        }
    }
    // options: inside a flow collection
    if let Some(a) = root(&d) {
        let f = a.pretty_with_options(true, r.chance(1, 2));
        let f = proj::node(&f);
        fn bare(n: &Node) -> bool {
            match n {
                Node::Scalar(s) => !s.style.block(),
                Node::Ref(_) => true,
                Node::Map { items, .. } | Node::Seq { items, .. } => items.iter().all(|i| matches!(i, Item::Entry(e) if e.alias.is_none() && bare(&e.node))),
            }
        }
        if bare(&before.root) {
            ctx.hit("as part of a flow collection");
            kept(&before.root, &f, true, false, ctx).map_err(|e| format!("in a flow collection: {}\n--- before\n{}\n--- after\n{}", e, before.root.dump(FULL), f.dump(FULL)))?;
        }
    }
    Ok(())
}

fn c18(r: &mut Rng, ctx: &mut Ctx) -> Res {
    let (d, _) = match subject(r, ctx)? {
        Some(d) => d,
        None => return Ok(()),
    };
    let p = d.clone().pretty();
    let p_model = proj::doc(&p)?;
    let text = p.format().map_err(|e| format!("format fails: {}", e))?;
    let back = parse_yaml_file(&text).map_err(|e| format!("the prettified text is rejected:\n{}\n--- text\n{}", e, text))?;
    let b_model = proj::doc(&back)?;
    let (w, g) = (p_model.dump(DATA), b_model.dump(DATA));
    if w != g {
        return Err(diff(&format!("the prettified text has other data\n--- text\n{}", text), &w, &g));
    }
    if p_model.comments() != b_model.comments() {
        return Err(format!("the prettified text has other comments\n--- text\n{}\n{:?}\n{:?}", text, p_model.comments(), b_model.comments()));
    }
    let pp = p.clone().pretty();
    if pp != p {
        return Err(format!("prettifying twice changes the tree\n--- once\n{}\n--- twice\n{}", p_model.dump(FULL), proj::doc(&pp)?.dump(FULL)));
    }
    let bp = back.clone().pretty();
    if bp != back {
        return Err(format!("prettifying the parsed text changes it\n--- text\n{}\n--- parsed\n{}\n--- prettified\n{}", text, b_model.dump(FULL), proj::doc(&bp)?.dump(FULL)));
    }
    let again = bp.format().map_err(|e| format!("format fails: {}", e))?;
    if again != text {
        return Err(format!("the text changes\n--- first\n{}\n--- second\n{}", text, again));
    }
    if p != d {
        ctx.hit("changed by prettifying");
    }
    Ok(())
}

fn known(_: &str, _: &mut Ctx) -> Res {
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C17",
            rule: "Documents (parsed from rendered and mutated texts, or built) with long, multi-line and otherwise hostile scalars and nested sequences are prettified; the tree before and after are walked in parallel, and read untyped. Non-trivial: every document that was parsed or built.",
            assumptions: &["the model's own decoding of scalars"],
            quick: 250_000,
            thorough: 4_000_000,
            case: c17,
            fixed: no_fixed,
            known,
        },
        Check {
            id: "C18",
            rule: "As for C17; the prettified document is formatted, parsed, prettified and formatted again. Non-trivial: every document that was parsed or built.",
            assumptions: &[],
            quick: 180_000,
            thorough: 4_000_000,
            case: c18,
            fixed: no_fixed,
            known,
        },
    ]
}
