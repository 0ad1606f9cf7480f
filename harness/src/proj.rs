//! The library's tree as a model document, decoded without the library's own decoders.
use crate::model::*;
use yaml_subset::yaml::string::{DoubleQuotedStringEscapedChar as D, SingleQuotedStringEscapedChar as S};
use yaml_subset::yaml::{
    AliasedYaml, ArrayData, BlockChomping, Document, DocumentData, DoubleQuotedStringPart as DP, HashData, HashElement,
    SingleQuotedStringPart as SP, Yaml,
};

pub fn chomp(c: &BlockChomping) -> char {
    match c {
        BlockChomping::Clip => 'c',
        BlockChomping::Strip => 's',
        BlockChomping::Keep => 'k',
    }
}
pub fn unchomp(c: char) -> BlockChomping {
    match c {
        's' => BlockChomping::Strip,
        'k' => BlockChomping::Keep,
        _ => BlockChomping::Clip,
    }
}

fn push_text(v: &mut Vec<Piece>, t: &str) {
    match v.last_mut() {
        Some(Piece::Text(l)) => l.push_str(t),
        _ => v.push(Piece::Text(t.to_string())),
    }
}

pub fn node(y: &Yaml) -> Node {
    match y {
        Yaml::UnquotedString(s) => plain(s),
        Yaml::SingleQuotedString(ps) => {
            let mut v = Vec::new();
            for p in ps {
                match p {
                    SP::String(s) => push_text(&mut v, s),
                    SP::EscapedChar(S::SingleQuote) => v.push(Piece::Esc('\'')),
                    SP::BlankLines(n) => v.push(Piece::Break(n + 1)),
                    SP::RemovableNewline => v.push(Piece::Break(1)),
                }
            }
            Node::Scalar(Scalar { style: Style::Single, value: decode_pieces(&v, false), chomp: ' ', src: Src::Quoted(v) })
        }
        Yaml::DoubleQuotedString(ps) => {
            let mut v = Vec::new();
            for p in ps {
                match p {
                    DP::String(s) => push_text(&mut v, s),
                    DP::EscapedChar(c) => match c {
                        D::Quote => v.push(Piece::Esc('"')),
                        D::Backslash => v.push(Piece::Esc('\\')),
                        D::Tab => v.push(Piece::Esc('t')),
                        D::CarriageReturn => v.push(Piece::Esc('r')),
                        D::Newline => v.push(Piece::Esc('n')),
                        D::RealNewline => v.push(Piece::Esc('\n')),
                    },
                    DP::BlankLines(n) => v.push(Piece::Break(n + 1)),
                    DP::RemovableNewline => v.push(Piece::Break(1)),
                }
            }
            Node::Scalar(Scalar { style: Style::Double, value: decode_pieces(&v, true), chomp: ' ', src: Src::Quoted(v) })
        }
        Yaml::LiteralString(l, c) => {
            let c = chomp(c);
            Node::Scalar(Scalar { style: Style::Literal, value: literal(l, c), chomp: c, src: Src::Lines(l.clone()) })
        }
        Yaml::FoldedString(l, c) => {
            let c = chomp(c);
            Node::Scalar(Scalar { style: Style::Folded, value: fold(l, c), chomp: c, src: Src::Lines(l.clone()) })
        }
        Yaml::Anchor(a) => Node::Ref(a.clone()),
        Yaml::InlineHash(v) => Node::Map {
            flow: true,
            items: v.iter().map(|(k, y)| Item::Entry(Entry { key: k.clone(), alias: None, node: node(y) })).collect(),
        },
        Yaml::InlineArray(v) => Node::Seq {
            flow: true,
            items: v.iter().map(|y| Item::Entry(Entry { key: String::new(), alias: None, node: node(y) })).collect(),
        },
        Yaml::Hash(v) => Node::Map {
            flow: false,
            items: v
                .iter()
                .map(|d| match d {
                    HashData::Comment(c) => Item::Comment(c.clone()),
                    HashData::InlineComment(c) => Item::Inline(c.clone()),
                    HashData::Element(e) => Item::Entry(Entry {
                        key: e.key.clone(),
                        alias: e.value.alias.clone(),
                        node: node(&e.value.value),
                    }),
                })
                .collect(),
        },
        Yaml::Array(v) => Node::Seq {
            flow: false,
            items: v
                .iter()
                .map(|d| match d {
                    ArrayData::Comment(c) => Item::Comment(c.clone()),
                    ArrayData::InlineComment(c) => Item::Inline(c.clone()),
                    ArrayData::Element(e) => {
                        Item::Entry(Entry { key: String::new(), alias: e.alias.clone(), node: node(&e.value) })
                    }
                })
                .collect(),
        },
    }
}

pub fn doc(d: &Document) -> Result<Doc, String> {
    let mut pre = Vec::new();
    let mut post = Vec::new();
    let mut root = None;
    for i in &d.items {
        match i {
            DocumentData::Comment(c) if root.is_none() => pre.push(c.clone()),
            DocumentData::Comment(c) => post.push(c.clone()),
            DocumentData::Yaml(y) if root.is_none() => root = Some(node(y)),
            DocumentData::Yaml(_) => return Err("the document has two values".to_string()),
        }
    }
    match root {
        Some(root) => Ok(Doc { lead: d.leading_comments.clone(), pre, root, post }),
        None => Err("the document has no value".to_string()),
    }
}

/// The model as a library tree (as the parser would build it).
pub fn yaml(n: &Node) -> Yaml {
    match n {
        Node::Ref(a) => Yaml::Anchor(a.clone()),
        Node::Scalar(s) => match (&s.src, s.style) {
            (Src::Lines(l), Style::Literal) => Yaml::LiteralString(l.clone(), unchomp(s.chomp)),
            (Src::Lines(l), _) => Yaml::FoldedString(l.clone(), unchomp(s.chomp)),
            (Src::Quoted(ps), Style::Single) => Yaml::SingleQuotedString(
                ps.iter()
                    .map(|p| match p {
                        Piece::Text(t) => SP::String(t.clone()),
                        Piece::Esc(_) => SP::EscapedChar(S::SingleQuote),
                        Piece::Break(1) => SP::RemovableNewline,
                        Piece::Break(n) => SP::BlankLines(n - 1),
                    })
                    .collect(),
            ),
            (Src::Quoted(ps), _) => Yaml::DoubleQuotedString(
                ps.iter()
                    .map(|p| match p {
                        Piece::Text(t) => DP::String(t.clone()),
                        Piece::Esc(c) => DP::EscapedChar(match c {
                            '"' => D::Quote,
                            '\\' => D::Backslash,
                            't' => D::Tab,
                            'r' => D::CarriageReturn,
                            'n' => D::Newline,
                            _ => D::RealNewline,
                        }),
                        Piece::Break(1) => DP::RemovableNewline,
                        Piece::Break(n) => DP::BlankLines(n - 1),
                    })
                    .collect(),
            ),
            _ => Yaml::UnquotedString(s.value.clone()),
        },
        Node::Map { flow: true, items } => Yaml::InlineHash(
            items
                .iter()
                .filter_map(|i| if let Item::Entry(e) = i { Some((e.key.clone(), yaml(&e.node))) } else { None })
                .collect(),
        ),
        Node::Seq { flow: true, items } => Yaml::InlineArray(
            items.iter().filter_map(|i| if let Item::Entry(e) = i { Some(yaml(&e.node)) } else { None }).collect(),
        ),
        Node::Map { flow: false, items } => Yaml::Hash(
            items
                .iter()
                .map(|i| match i {
                    Item::Comment(c) => HashData::Comment(c.clone()),
                    Item::Inline(c) => HashData::InlineComment(c.clone()),
                    Item::Entry(e) => HashData::Element(HashElement { key: e.key.clone(), value: aliased(e) }),
                })
                .collect(),
        ),
        Node::Seq { flow: false, items } => Yaml::Array(
            items
                .iter()
                .map(|i| match i {
                    Item::Comment(c) => ArrayData::Comment(c.clone()),
                    Item::Inline(c) => ArrayData::InlineComment(c.clone()),
                    Item::Entry(e) => ArrayData::Element(aliased(e)),
                })
                .collect(),
        ),
    }
}

pub fn aliased(e: &Entry) -> AliasedYaml {
    AliasedYaml { alias: e.alias.clone(), value: yaml(&e.node) }
}

pub fn document(d: &Doc) -> Document {
    let mut items: Vec<DocumentData> = d.pre.iter().map(|c| DocumentData::Comment(c.clone())).collect();
    items.push(DocumentData::Yaml(yaml(&d.root)));
    items.extend(d.post.iter().map(|c| DocumentData::Comment(c.clone())));
    Document { leading_comments: d.lead.clone(), items }
}
