//! Prints a token stream as readable text, one statement per line, and puts marked contract
//! text where `vx_mark!(n);` and `vx_clause!(n);` stand.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> { pub marks: &'a [String], out: String, indent: usize, glue: bool }

fn mark_at(ts: &[TokenTree], i: usize, name: &str) -> Option<(usize, usize)> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (ts.get(i), ts.get(i + 1), ts.get(i + 2)) {
        if id == name && p.as_char() == '!' {
            let n: usize = g.stream().to_string().trim().parse().ok()?;
            let mut next = i + 3;
            if let Some(TokenTree::Punct(p)) = ts.get(next) { if p.as_char() == ';' { next += 1; } }
            return Some((n, next));
        }
    }
    None
}

impl<'a> Printer<'a> {
    pub fn print(ts: TokenStream, marks: &'a [String], indent: usize) -> String {
        let mut p = Printer { marks, out: String::new(), indent, glue: true };
        p.stream(ts);
        p.out
    }

    fn nl(&mut self) {
        while self.out.ends_with(' ') { self.out.pop(); }
        if !self.out.ends_with('\n') { self.out.push('\n'); }
        for _ in 0..self.indent { self.out.push_str("    "); }
        self.glue = true;
    }

    fn word(&mut self, s: &str) {
        if !self.glue && !self.out.ends_with([' ', '\n', '(', '[', '.']) { self.out.push(' '); }
        self.out.push_str(s);
        self.glue = false;
    }

    fn raw(&mut self, text: &str) {
        for line in text.lines() {
            if line.trim().is_empty() { continue; }
            self.nl();
            self.out.push_str(line.trim_end());
        }
        self.glue = false;
    }

    fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let Some((n, next)) = mark_at(&v, i, "vx_mark") {
                let t = self.marks[n].clone();
                self.raw(&t);
                self.nl();
                i = next;
                continue;
            }
            match &v[i] {
                TokenTree::Ident(id) => self.word(&id.to_string()),
                TokenTree::Literal(l) => self.word(&l.to_string()),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    match c {
                        ';' => { while self.out.ends_with(' ') { self.out.pop(); } self.out.push(';'); self.nl(); }
                        ',' => { while self.out.ends_with(' ') { self.out.pop(); } self.out.push_str(", "); self.glue = true; }
                        '\'' => { if !self.glue && !self.out.ends_with([' ', '\n', '(', '[', '<', '&']) { self.out.push(' '); } self.out.push('\''); self.glue = true; }
                        '.' => {
                            if p.spacing() == Spacing::Alone && !self.out.ends_with('.') && !matches!(v.get(i + 1), Some(TokenTree::Punct(q)) if q.as_char() == '.') {
                                while self.out.ends_with(' ') { self.out.pop(); }
                            } else if !self.glue { self.out.push(' '); }
                            self.out.push('.'); self.glue = true;
                            if p.spacing() == Spacing::Joint || self.out.ends_with("..") { self.glue = true; }
                        }
                        _ => {
                            if !self.glue && !self.out.ends_with([' ', '\n', '(', '[']) { self.out.push(' '); }
                            self.out.push(c);
                            self.glue = p.spacing() == Spacing::Joint || matches!(c, '&' | '!' | '#') ;
                            if c == '&' || c == '*' || c == '!' { self.glue = true; }
                        }
                    }
                }
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Parenthesis => { self.word_open("("); self.stream(g.stream()); self.close(")"); }
                    Delimiter::Bracket => { self.word_open("["); self.stream(g.stream()); self.close("]"); }
                    Delimiter::None => { self.stream(g.stream()); }
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut rest: TokenStream = g.stream();
                        if let Some((n, next)) = mark_at(&inner, 0, "vx_clause") {
                            let t = self.marks[n].clone();
                            self.indent += 1;
                            self.raw(&t);
                            self.indent -= 1;
                            self.nl();
                            rest = inner[next..].iter().cloned().collect();
                        }
                        self.word("{");
                        self.indent += 1;
                        self.nl();
                        self.stream(rest);
                        self.indent -= 1;
                        self.nl();
                        self.out.push('}');
                        self.glue = false;
                        // a newline unless an operator or method call follows
                        match v.get(i + 1) {
                            Some(TokenTree::Punct(p)) if matches!(p.as_char(), ';' | ',' | '.' | '?' | ')') => {}
                            Some(TokenTree::Ident(id)) if id == "else" => self.out.push(' '),
                            None => {}
                            _ => self.nl(),
                        }
                    }
                },
            }
            i += 1;
        }
    }

    fn word_open(&mut self, s: &str) {
        // calls and macros glue to the name
        self.out.push_str(s);
        self.glue = true;
    }

    fn close(&mut self, s: &str) {
        while self.out.ends_with(' ') { self.out.pop(); }
        self.out.push_str(s);
        self.glue = false;
    }
}
