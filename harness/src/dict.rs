//! Constants of the code under test.
//!
//! Code often behaves differently around the constants it names (a block size, a threshold, a
//! character). The generators prefer them and their neighbours where a choice allows for them, like
//! the dictionary of a fuzzer. They only influence which inputs are tried, never a verdict.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    /// Integers, with neighbours and small multiples, in order.
    pub ints: Vec<u64>,
    pub floats: Vec<f64>,
    pub chars: Vec<char>,
}

pub fn dict() -> &'static Dict {
    static DICT: OnceLock<Dict> = OnceLock::new();
    DICT.get_or_init(|| {
        let root = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
        let mut files = vec![];
        list(&Path::new(&root).join("src"), &mut files);
        files.sort();
        let mut d = Sets::default();
        for f in files {
            if let Ok(bytes) = std::fs::read(&f) {
                d.scan(&String::from_utf8_lossy(&bytes));
            }
        }
        d.done()
    })
}

fn list(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    for e in entries.flatten() {
        let p = e.path();
        if p.is_dir() {
            list(&p, out);
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

#[derive(Default)]
struct Sets {
    ints: BTreeSet<u64>,
    floats: BTreeSet<u64>,
    chars: BTreeSet<char>,
}

impl Sets {
    fn scan(&mut self, text: &str) {
        let text = text.split("#[cfg(test)]").next().unwrap_or("");
        let c: Vec<char> = text.chars().collect();
        let at = |i: usize| c.get(i).copied().unwrap_or('\0');
        let mut i = 0;
        // The integer before, and whether "<<" came after it.
        let mut shift: Option<(u64, bool)> = None;
        while i < c.len() {
            match c[i] {
                '/' if at(i + 1) == '/' => {
                    while i < c.len() && c[i] != '\n' {
                        i += 1;
                    }
                }
                '"' => {
                    i += 1;
                    while i < c.len() && c[i] != '"' {
                        if c[i] == '\\' {
                            i += 1;
                        } else if !c[i].is_ascii_alphanumeric() {
                            self.chars.insert(c[i]);
                        }
                        i += 1;
                    }
                    i += 1;
                }
                '\'' if at(i + 2) == '\'' && at(i + 1) != '\\' => {
                    self.chars.insert(at(i + 1));
                    i += 3;
                }
                '\'' if at(i + 1) == '\\' => {
                    match at(i + 2) {
                        't' => drop(self.chars.insert('\t')),
                        'n' => drop(self.chars.insert('\n')),
                        'r' => drop(self.chars.insert('\r')),
                        'u' => {
                            let hex: String = c[(i + 4).min(c.len())..].iter().take_while(|x| x.is_ascii_hexdigit()).collect();
                            if let Some(x) = u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) {
                                self.chars.insert(x);
                            }
                        }
                        x => drop(self.chars.insert(x)),
                    }
                    i += 3;
                }
                x if x.is_alphabetic() || x == '_' => {
                    while at(i).is_alphanumeric() || at(i) == '_' {
                        i += 1;
                    }
                    shift = None;
                }
                x if x.is_ascii_digit() => {
                    let start = i;
                    let radix = match (x, at(i + 1)) {
                        ('0', 'x') => 16,
                        ('0', 'b') => 2,
                        _ => 10,
                    };
                    if radix != 10 {
                        i += 2;
                    }
                    let mut t = String::new();
                    while at(i).is_digit(radix) || at(i) == '_' {
                        if at(i) != '_' {
                            t.push(at(i));
                        }
                        i += 1;
                    }
                    let point = at(i) == '.' && at(i + 1) != '.' && !at(i + 1).is_alphabetic();
                    let exp = matches!(at(i), 'e' | 'E');
                    if radix == 10 && (point || exp) {
                        while at(i).is_ascii_digit()
                            || matches!(at(i), '.' | 'e' | 'E' | '_')
                            || (matches!(at(i), '-' | '+') && matches!(at(i - 1), 'e' | 'E'))
                        {
                            if at(i) != '_' {
                                t.push(at(i));
                            }
                            i += 1;
                        }
                        if let Ok(v) = t.parse::<f64>() {
                            self.float(v);
                        }
                        shift = None;
                    } else if let Ok(v) = u64::from_str_radix(&t, radix) {
                        match shift {
                            Some((base, true)) if v < 64 => {
                                self.int(base.wrapping_shl(v as u32));
                                shift = None;
                            }
                            _ => {
                                self.int(v);
                                shift = Some((v, false));
                            }
                        }
                    }
                    while at(i).is_alphanumeric() || at(i) == '_' {
                        i += 1;
                    }
                    if i == start {
                        i += 1;
                    }
                }
                '<' if at(i + 1) == '<' => {
                    if let Some((_, s)) = &mut shift {
                        *s = true;
                    }
                    i += 2;
                }
                x => {
                    if !x.is_whitespace() {
                        shift = None;
                    }
                    i += 1;
                }
            }
        }
    }

    fn int(&mut self, v: u64) {
        if v >= 6 {
            for x in [v - 1, v, v.saturating_add(1), v.saturating_mul(2), v.saturating_mul(2).saturating_add(1)] {
                self.ints.insert(x);
            }
            self.float(v as f64);
        }
    }

    fn float(&mut self, v: f64) {
        if v.is_finite() && v != 0.0 {
            self.floats.insert(v.to_bits());
        }
    }

    fn done(self) -> Dict {
        Dict {
            ints: self.ints.into_iter().collect(),
            floats: self.floats.into_iter().map(f64::from_bits).collect(),
            chars: self.chars.into_iter().collect(),
        }
    }
}
