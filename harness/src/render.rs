//! Model to text, in a random layout. Only choices that carry no meaning are random.
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Layout {
    pub step: usize,
    /// Choose a new step for each container.
    pub vary: bool,
    /// Percentages.
    pub flush: usize,
    pub compact: usize,
    pub blank: usize,
    pub trailing: usize,
    pub next_line: usize,
    pub flow_space: usize,
    pub flow_break: usize,
    pub key_comment: usize,
    pub indicator: usize,
    pub crlf: bool,
    pub final_newline: bool,
    pub root: usize,
    /// Also what the grammar is known not to take: such places are marked, see `Mark::Limited`.
    pub limits: bool,
    /// Some blanks are many.
    pub gaps: bool,
}

impl Layout {
    pub fn plain() -> Layout {
        Layout {
            step: 2,
            vary: false,
            flush: 0,
            compact: 100,
            blank: 0,
            trailing: 0,
            next_line: 0,
            flow_space: 0,
            flow_break: 0,
            key_comment: 0,
            indicator: 0,
            crlf: false,
            final_newline: true,
            root: 0,
            limits: false,
            gaps: false,
        }
    }
    pub fn random(r: &mut Rng) -> Layout {
        if r.chance(1, 6) {
            return Layout::plain();
        }
        Layout {
            step: 1 + if r.chance(1, 12) { r.below(12) } else { r.below(4) },
            vary: r.chance(1, 3),
            flush: *r.pick(&[0, 50, 100]),
            compact: *r.pick(&[0, 50, 100, 100]),
            blank: *r.pick(&[0, 0, 0, 10, 10, 30, 30, 70]),
            trailing: *r.pick(&[0, 0, 10, 30]),
            next_line: *r.pick(&[0, 0, 10]),
            flow_space: *r.pick(&[0, 20, 60]),
            flow_break: *r.pick(&[0, 0, 15]),
            key_comment: *r.pick(&[0, 50]),
            indicator: *r.pick(&[0, 0, 30]),
            crlf: r.chance(1, 6),
            final_newline: r.chance(5, 6),
            root: if r.chance(1, 6) { r.below(5) } else { 0 },
            limits: false,
            gaps: r.chance(1, 6),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mark {
    /// Byte offset of the `---`.
    Start(usize),
    /// Written in a way that a known finding says is rejected: if it is accepted, then with its meaning.
    Limited,
    /// An entry: offset of its key or dash, its column, whether it starts its line, whether it is a map entry,
    /// whether it is the first of its container, container number.
    Entry { at: usize, col: usize, own_line: bool, map: bool, first: bool, id: usize },
    /// Opening quote and offset just after the closing one.
    Quoted { from: usize, to: usize, double: bool, flow: bool },
    FlowOpen { at: usize, depth: usize, map: bool },
    FlowClose { at: usize, depth: usize, map: bool },
    Comma(usize),
    FlowColon(usize),
    /// A plain scalar's extent.
    Plain { from: usize, to: usize, flow: bool },
    /// A key whose value is a block container below it: column of the key, number of the container.
    Nested { id: usize, parent: usize, parent_map: bool, map: bool },
    /// A line of a block scalar that is not blank: its offset, the column of the entry, the columns its text is
    /// indented by, and whether that is known already, from a line before or from the header.
    BlockLine { at: usize, col: usize, ci: usize, settled: bool },
}

pub struct Renderer<'a> {
    pub out: String,
    pub r: &'a mut Rng,
    pub l: Layout,
    pub marks: Vec<Mark>,
    /// Column limit for comments: the last thing written is a block scalar of a container at this column.
    after_block: Option<usize>,
    /// A comment ends the current line: nothing may be added to it.
    after_comment: bool,
    flow_depth: usize,
    containers: usize,
}

pub fn render(doc: &Doc, l: Layout, r: &mut Rng) -> (String, Vec<Mark>) {
    let mut w = Renderer {
        out: String::new(),
        r,
        l,
        marks: Vec::new(),
        after_block: None,
        after_comment: false,
        flow_depth: 0,
        containers: 0,
    };
    w.doc(doc);
    (w.out, w.marks)
}

/// Renders with the plain layout: for reports and for feeding other checks.
pub fn render_plain(doc: &Doc) -> String {
    let mut r = Rng::new(1);
    render(doc, Layout::plain(), &mut r).0
}

pub fn needs_indicator(lines: &[String]) -> bool {
    lines.iter().find(|l| !l.is_empty()).map_or(true, |l| l.starts_with(' '))
}

impl<'a> Renderer<'a> {
    fn pct(&mut self, p: usize) -> bool {
        p > 0 && self.r.below(100) < p
    }
    fn nl(&mut self) {
        self.out.push_str(if self.l.crlf { "\r\n" } else { "\n" });
    }
    fn spaces(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }
    /// A number of blanks from 1, seldom more than `usual`.
    fn gap(&mut self, usual: usize) -> usize {
        if self.l.gaps && self.r.chance(1, 4) {
            let most = *self.r.pick(&[6, 12, 40, 90]);
            1 + self.r.below(most)
        } else {
            1 + self.r.below(usual)
        }
    }
    /// Ends the current line and adds blank ones.
    fn end_line(&mut self) {
        if self.after_block.is_none() {
            if !self.after_comment && self.pct(self.l.trailing) {
                let n = self.gap(3);
                self.spaces(n);
            }
            self.nl();
            self.blank_lines();
        } else {
            self.nl();
        }
        self.after_block = None;
        self.after_comment = false;
    }
    fn blank_lines(&mut self) {
        while self.pct(self.l.blank) {
            if self.pct(self.l.trailing) {
                let n = self.gap(4);
                self.spaces(n);
            }
            self.nl();
        }
    }
    fn own_comment(&mut self, c: &str, col: usize, at_start: bool) {
        let limit = self.after_block;
        if !at_start {
            self.end_line();
        }
        let n = match limit {
            Some(m) => self.r.below(m + 1),
            None if self.r.chance(1, 2) => col,
            None => self.gap(9) - 1,
        };
        self.spaces(n);
        self.out.push('#');
        self.out.push_str(c);
        self.after_comment = true;
    }

    fn doc(&mut self, d: &Doc) {
        if !d.lead.is_empty() {
            self.blank_lines();
        }
        for c in &d.lead {
            self.own_comment(c, 0, true);
            self.end_line();
        }
        self.marks.push(Mark::Start(self.out.len()));
        self.out.push_str("---");
        for c in &d.pre {
            self.own_comment(c, 0, false);
        }
        self.end_line();
        let root = if d.root.is_leaf() { 0 } else { self.l.root };
        match &d.root {
            Node::Map { flow: false, items } | Node::Seq { flow: false, items } => {
                let map = matches!(d.root, Node::Map { .. });
                self.spaces(root);
                self.block(items, map, root, true, false);
            }
            n => self.flow_or_scalar(n, 0),
        }
        for c in &d.post {
            self.own_comment(c, 0, false);
        }
        if self.l.final_newline || self.after_block.is_some() {
            let ab = self.after_block;
            self.end_line();
            if ab.is_none() && self.pct(self.l.blank) {
                let n = self.r.below(3);
                self.spaces(n);
            }
        }
    }

    /// The entries of a block container at column `col`. `placed`: the position of the first entry is reached.
    /// `chain`: the container starts on the line of a dash whose sequence, or a sequence around it
    /// starting on that line too, has more elements.
    fn block(&mut self, items: &[Item], map: bool, col: usize, placed: bool, compact_first: bool) -> usize {
        let id = self.containers;
        self.containers += 1;
        let mut placed = placed;
        let mut first = true;
        for it in items {
            match it {
                Item::Comment(c) => {
                    self.own_comment(c, col, false);
                }
                Item::Inline(c) => {
                    let n = if self.l.gaps || self.r.chance(1, 4) { self.gap(3) } else { 1 };
                    self.spaces(n);
                    self.out.push('#');
                    self.out.push_str(c);
                    self.after_comment = true;
                }
                Item::Entry(e) => {
                    let own_line = !placed || !compact_first;
                    if !placed {
                        self.end_line();
                        self.spaces(col);
                    }
                    let in_compact = placed && compact_first;
                    placed = false;
                    self.marks.push(Mark::Entry { at: self.out.len(), col, own_line, map, first, id });
                    first = false;
                    self.entry(e, map, col, in_compact, items, id);
                }
            }
        }
        id
    }

    fn entry(&mut self, e: &Entry, map: bool, col: usize, in_compact: bool, siblings: &[Item], id: usize) {
        if map {
            self.out.push_str(&e.key);
            self.out.push(':');
        } else {
            self.out.push('-');
        }
        let mut start = col + 1;
        if let Some(a) = &e.alias {
            let n = if self.l.gaps || self.r.chance(1, 6) { self.gap(3) } else { 1 };
            self.spaces(n);
            self.out.push('&');
            self.out.push_str(a);
            start += n + 1 + a.chars().count();
        }
        match &e.node {
            Node::Map { flow: false, items } | Node::Seq { flow: false, items } => {
                let child_map = matches!(e.node, Node::Map { .. });
                let first_comment = matches!(items.first(), Some(Item::Comment(_)));
                if !map && (e.alias.is_none() || self.r.chance(1, 2)) && !first_comment && self.compact_ok(items, child_map, in_compact, siblings) && self.pct(self.l.compact) {
                    let n = if self.l.step == 2 || self.r.chance(1, 2) { 1 } else { self.gap(3) };
                    self.spaces(n);
                    // below the first entry, or below the alias name before it
                    let simple = items.iter().all(|i| !matches!(i, Item::Entry(f) if !f.node.is_leaf()));
                    let below = if e.alias.is_some() && simple && self.r.chance(1, 2) { start - 1 - e.alias.as_ref().map_or(0, |a| a.chars().count()) } else { start + n };
                    self.block(items, child_map, below, true, true);
                    return;
                }
                let step = if self.l.vary { 1 + self.r.below(4) } else { self.l.step };
                let child = if map && !child_map && self.pct(self.l.flush) { col } else { col + step };
                self.marks.push(Mark::Nested { id: self.containers, parent: id, parent_map: map, map: child_map });
                let mut items = &items[..];
                if first_comment && self.pct(self.l.key_comment) {
                    if let Item::Comment(c) = &items[0] {
                        let n = self.gap(2);
                        self.spaces(n);
                        self.out.push('#');
                        self.out.push_str(c);
                        self.after_comment = true;
                    }
                    items = &items[1..];
                }
                self.block(items, child_map, child, false, false);
            }
            Node::Scalar(s) if s.style.block() => {
                let n = if self.l.gaps || self.r.chance(1, 6) { self.gap(3) } else { 1 };
                self.spaces(n);
                self.block_scalar(s, col, in_compact);
            }
            n => {
                if self.pct(self.l.next_line) {
                    self.end_line();
                    let k = col + self.gap(4);
                    self.spaces(k);
                } else {
                    let k = if self.l.gaps || self.r.chance(1, 6) { self.gap(3) } else { 1 };
                    self.spaces(k);
                }
                self.flow_or_scalar(n, col);
            }
        }
    }

    /// Whether the container may start on the line of its dash.
    fn compact_ok(&mut self, items: &[Item], child_map: bool, in_compact: bool, siblings: &[Item]) -> bool {
        if let Some(Item::Entry(e)) = items.first() {
            if let Node::Scalar(Scalar { src: Src::Lines(l), .. }) = &e.node {
                if needs_indicator(l) && !self.l.limits {
                    return false;
                }
            }
        }
        let count = |i: &[Item]| i.iter().filter(|x| matches!(x, Item::Entry(_))).count();
        // known limitation of the grammar: `- - - x` followed by `  - y`
        let limited = in_compact && !child_map && count(siblings) > 1 && count(items) == 1;
        if limited && self.l.limits {
            self.marks.push(Mark::Limited);
            return true;
        }
        !limited
    }

    fn block_scalar(&mut self, s: &Scalar, col: usize, in_compact: bool) {
        let lines = match &s.src {
            Src::Lines(l) => l.clone(),
            _ => unreachable!(),
        };
        self.out.push(if s.style == Style::Literal { '|' } else { '>' });
        match s.chomp {
            's' => self.out.push('-'),
            'k' => self.out.push('+'),
            _ => {}
        }
        let indicator = needs_indicator(&lines) || ((!in_compact || self.l.limits) && self.pct(self.l.indicator));
        let n = if indicator { self.gap(4).min(9) } else { self.gap(4) };
        let ci = col + n;
        if indicator {
            if in_compact {
                self.marks.push(Mark::Limited);
            }
            self.out.push_str(&n.to_string());
        }
        if self.pct(self.l.trailing) {
            let k = self.gap(1);
            self.spaces(k);
        }
        let mut settled = indicator;
        for l in &lines {
            self.nl();
            if !l.is_empty() {
                self.marks.push(Mark::BlockLine { at: self.out.len(), col, ci, settled });
                settled = true;
            }
            if l.is_empty() {
                let k = match self.r.below(3) {
                    0 => 0,
                    1 => ci,
                    _ => self.r.below(ci + 1),
                };
                let k = if self.l.trailing == 0 { 0 } else { k };
                self.spaces(k);
            } else {
                self.spaces(ci);
                self.out.push_str(l);
            }
        }
        self.after_block = Some(col);
    }

    fn flow_gap(&mut self, col: usize) {
        if self.pct(self.l.flow_break) {
            if self.pct(self.l.trailing) {
                let k = self.gap(2);
                self.spaces(k);
            }
            self.nl();
            let k = col + self.gap(4);
            self.spaces(k);
        } else if self.pct(self.l.flow_space) {
            let k = self.gap(2);
            self.spaces(k);
        }
    }

    fn flow_or_scalar(&mut self, n: &Node, col: usize) {
        match n {
            Node::Ref(a) => {
                self.out.push('*');
                self.out.push_str(a);
            }
            Node::Scalar(s) => match (&s.src, s.style) {
                (Src::Quoted(ps), st) => {
                    let from = self.out.len();
                    let double = st == Style::Double;
                    self.out.push(if double { '"' } else { '\'' });
                    for p in ps {
                        match p {
                            Piece::Text(t) => self.out.push_str(t),
                            Piece::Esc(c) if double => {
                                self.out.push('\\');
                                if *c == '\n' { self.nl() } else { self.out.push(*c) }
                            }
                            Piece::Esc(_) => self.out.push_str("''"),
                            Piece::Break(n) => {
                                for _ in 0..*n {
                                    self.nl();
                                }
                            }
                        }
                    }
                    self.out.push(if double { '"' } else { '\'' });
                    self.marks.push(Mark::Quoted { from, to: self.out.len(), double, flow: self.flow_depth > 0 });
                }
                _ => {
                    let from = self.out.len();
                    self.out.push_str(&s.value);
                    self.marks.push(Mark::Plain { from, to: self.out.len(), flow: self.flow_depth > 0 });
                }
            },
            Node::Map { items, .. } | Node::Seq { items, .. } => {
                let map = matches!(n, Node::Map { .. });
                self.marks.push(Mark::FlowOpen { at: self.out.len(), depth: self.flow_depth, map });
                self.flow_depth += 1;
                self.out.push(if map { '{' } else { '[' });
                let mut first = true;
                for it in items {
                    if let Item::Entry(e) = it {
                        if !first {
                            self.flow_gap(col);
                            self.marks.push(Mark::Comma(self.out.len()));
                            self.out.push(',');
                        }
                        first = false;
                        self.flow_gap(col);
                        if map {
                            self.out.push_str(&e.key);
                            if self.r.chance(1, 10) {
                                let k = self.gap(1);
                                self.spaces(k);
                            }
                            self.marks.push(Mark::FlowColon(self.out.len()));
                            self.out.push(':');
                            self.out.push(' ');
                            self.flow_gap(col);
                        }
                        self.flow_or_scalar(&e.node, col);
                    }
                }
                self.flow_gap(col);
                self.flow_depth -= 1;
                self.marks.push(Mark::FlowClose { at: self.out.len(), depth: self.flow_depth, map });
                self.out.push(if map { '}' } else { ']' });
            }
        }
    }
}
