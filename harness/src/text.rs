//! Reference model of a text: positions, lines, columns and cursor moves, all
//! computed from the plain string.

use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Debug, PartialEq)]
pub struct Pos {
    pub offset: usize,
    pub len: usize,
    pub line: usize,
    pub col: usize,
    pub newline: bool,
}

#[derive(Clone, Debug)]
pub struct Line {
    pub start: usize,
    pub text: String,
    pub newline: bool,
    /// number of user-perceived characters, newline not counted
    pub width: usize,
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub text: String,
    pub lines: Vec<Line>,
    pub pos: Vec<Pos>,
}

impl Doc {
    pub fn new(text: &str) -> Doc {
        let mut lines = Vec::new();
        let mut pos = Vec::new();
        let mut start = 0;
        let mut n = 0;
        while start < text.len() || n == 0 {
            n += 1;
            let rest = &text[start..];
            let (body, newline) = match rest.find('\n') {
                Some(i) => (&rest[..i], true),
                None => (rest, false),
            };
            let mut width = 0;
            for (i, g) in body.grapheme_indices(true) {
                width += 1;
                pos.push(Pos {
                    offset: start + i,
                    len: g.len(),
                    line: n,
                    col: width,
                    newline: false,
                });
            }
            if newline {
                pos.push(Pos {
                    offset: start + body.len(),
                    len: 1,
                    line: n,
                    col: width + 1,
                    newline: true,
                });
            }
            lines.push(Line {
                start,
                text: body.to_owned(),
                newline,
                width,
            });
            start += body.len() + newline as usize;
        }
        Doc {
            text: text.to_owned(),
            lines,
            pos,
        }
    }

    /// index of the position holding the byte at `offset`
    pub fn index_of(&self, offset: usize) -> Option<usize> {
        if offset >= self.text.len() {
            return None;
        }
        Some(self.pos.partition_point(|p| p.offset <= offset) - 1)
    }

    pub fn at(&self, offset: usize) -> Option<&Pos> {
        self.index_of(offset).map(|i| &self.pos[i])
    }

    pub fn is_position(&self, offset: usize) -> bool {
        self.at(offset).map_or(false, |p| p.offset == offset)
    }

    /// number of positions on a line (1-based), newline counted
    pub fn places(&self, line: usize) -> usize {
        let l = &self.lines[line - 1];
        l.width + l.newline as usize
    }

    pub fn find(&self, line: usize, col: usize) -> Option<&Pos> {
        self.pos.iter().find(|p| p.line == line && p.col == col)
    }

    /// the offset just after the character at `offset`
    pub fn after(&self, offset: usize) -> usize {
        self.at(offset).map_or(self.text.len(), |p| p.offset + p.len)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize, Hash)]
pub enum Move {
    Left,
    Right,
    Up,
    Down,
    Begin,
    End,
    LineBegin,
    LineEnd,
}

pub const MOVES: &[Move] = &[
    Move::Left,
    Move::Right,
    Move::Up,
    Move::Down,
    Move::Begin,
    Move::End,
    Move::LineBegin,
    Move::LineEnd,
];

impl Move {
    pub fn lua(self) -> &'static str {
        match self {
            Move::Left => "move_left",
            Move::Right => "move_right",
            Move::Up => "move_up",
            Move::Down => "move_down",
            Move::Begin => "move_to_begin",
            Move::End => "move_to_end",
            Move::LineBegin => "move_to_line_begin",
            Move::LineEnd => "move_to_line_end",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Sel {
    pub anchor: usize,
    pub cursor: usize,
    /// column wanted by vertical moves
    pub target: usize,
}

impl Sel {
    pub fn begin(&self) -> usize {
        self.anchor.min(self.cursor)
    }
    pub fn end(&self) -> usize {
        self.anchor.max(self.cursor)
    }
}

impl Default for Sel {
    fn default() -> Sel {
        Sel {
            anchor: 0,
            cursor: 0,
            target: 1,
        }
    }
}

/// The selection after one move, the text being non-empty and the cursor on a character.
pub fn moved(doc: &Doc, sel: Sel, m: Move, extend: bool) -> Sel {
    let i = doc.index_of(sel.cursor).expect("HARNESS: cursor in the text");
    let cur = &doc.pos[i];
    let mut target = sel.target;
    let j = match m {
        Move::Left => {
            let j = i.saturating_sub(1);
            if j != i {
                target = doc.pos[j].col;
            }
            j
        }
        Move::Right => {
            let j = (i + 1).min(doc.pos.len() - 1);
            if j != i {
                target = doc.pos[j].col;
            }
            j
        }
        Move::Up | Move::Down => {
            let l = if m == Move::Up {
                cur.line.saturating_sub(1).max(1)
            } else {
                (cur.line + 1).min(doc.lines.len())
            };
            let col = target.min(doc.places(l)).max(1);
            doc.pos
                .iter()
                .position(|p| p.line == l && p.col == col)
                .unwrap_or(i)
        }
        Move::Begin => {
            target = 1;
            0
        }
        Move::End => {
            let j = doc.pos.len() - 1;
            target = doc.pos[j].col;
            j
        }
        Move::LineBegin => {
            target = 1;
            doc.pos.iter().position(|p| p.line == cur.line).unwrap()
        }
        Move::LineEnd => {
            let w = doc.lines[cur.line - 1].width.max(1);
            target = w;
            doc.pos
                .iter()
                .position(|p| p.line == cur.line && p.col == w)
                .unwrap()
        }
    };
    let cursor = doc.pos[j].offset;
    Sel {
        anchor: if extend { sel.anchor } else { cursor },
        cursor,
        target,
    }
}
