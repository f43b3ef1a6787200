//! Span-based source edits. The text outside an edit is the repository's own text, byte for byte.

#[derive(Clone, Debug)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    seq: i64,
}

pub struct Edits {
    src: String,
    edits: Vec<Edit>,
    seq: i64,
}

impl Edits {
    pub fn new(src: String) -> Self {
        Self { src, edits: vec![], seq: 0 }
    }

    /// Source text of `start..end` with every edit recorded so far inside it applied.
    pub fn render(&self, start: usize, end: usize) -> String {
        let mut es: Vec<&Edit> = self
            .edits
            .iter()
            .filter(|e| e.start >= start && e.end <= end)
            .collect();
        es.sort_by_key(|e| (e.start, e.end > e.start, e.seq));
        let mut out = String::new();
        let mut pos = start;
        for e in es {
            if e.start < pos {
                continue;
            }
            out.push_str(&self.src[pos..e.start]);
            out.push_str(&e.text);
            pos = e.end;
        }
        out.push_str(&self.src[pos..end]);
        out
    }

    /// Replace `start..end`; edits recorded inside it are dropped (render them into `text` first).
    pub fn replace(&mut self, start: usize, end: usize, text: String) {
        self.edits.retain(|e| !(e.start >= start && e.end <= end));
        self.push(start, end, text);
    }

    /// Leave out `start..end` (edits recorded inside it too).
    pub fn push_cut(&mut self, start: usize, end: usize) {
        self.replace(start, end, String::new());
    }

    pub fn insert(&mut self, pos: usize, text: String) {
        self.push(pos, pos, text);
    }

    /// Insert ahead of everything else inserted at this place so far.
    pub fn insert_front(&mut self, pos: usize, text: String) {
        self.seq += 1;
        let seq = -self.seq;
        self.edits.push(Edit { start: pos, end: pos, text, seq });
    }

    fn push(&mut self, start: usize, end: usize, text: String) {
        self.seq += 1;
        let seq = self.seq;
        self.edits.push(Edit { start, end, text, seq });
    }
}
