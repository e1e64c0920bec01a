//! Prints tokens with a line break after every statement and around every block.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;

pub fn tokens(t: TokenStream) -> String {
    let mut p = P { out: String::new(), depth: 0, glue: true };
    p.stream(t);
    p.out
}
pub fn block(b: &syn::Block) -> String {
    tokens(b.to_token_stream())
}

struct P {
    out: String,
    depth: usize,
    glue: bool,
}
impl P {
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        self.out.push_str(&"    ".repeat(self.depth));
        self.glue = true;
    }
    fn word(&mut self, s: &str, joint: bool) {
        if !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = joint;
    }
    fn stream(&mut self, t: TokenStream) {
        for tt in t {
            match tt {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        self.word("{", true);
                        self.depth += 1;
                        self.nl();
                        self.stream(g.stream());
                        self.depth -= 1;
                        self.nl();
                        self.word("}", false);
                        self.nl();
                    }
                    Delimiter::Parenthesis => {
                        self.word("(", true);
                        self.stream(g.stream());
                        self.glue = true;
                        self.word(")", false);
                    }
                    Delimiter::Bracket => {
                        self.word("[", true);
                        self.stream(g.stream());
                        self.glue = true;
                        self.word("]", false);
                    }
                    Delimiter::None => self.stream(g.stream()),
                },
                TokenTree::Punct(c) => {
                    let ch = c.as_char();
                    self.word(&ch.to_string(), c.spacing() == Spacing::Joint || ch == '\'');
                    if ch == ';' {
                        self.nl();
                    }
                }
                o => self.word(&o.to_string(), false),
            }
        }
    }
}
