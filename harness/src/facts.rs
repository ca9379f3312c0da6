//! Everything an application can ask of a `hyper::Error`.
use std::error::Error as StdError;
use std::io;

/// An error made by the "application" (or the transport), told apart by its token.
#[derive(Debug)]
pub struct Own(pub u64);
impl std::fmt::Display for Own {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "own-{}-error", self.0)
    }
}
impl StdError for Own {}

pub const PREDS: [&str; 11] = ["parse", "parse_too_large", "parse_status", "parse_version_h2", "user", "canceled", "closed", "incomplete_message", "body_write_aborted", "shutdown", "timeout"];

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Facts {
    pub preds: Vec<&'static str>,
    pub dbg: String,
    pub display: String,
    /// token of an `Own` found in the source chain (or inside an io::Error of it)
    pub own: Option<u64>,
    pub io: Option<io::ErrorKind>,
    pub io_text: String,
    pub h2: Option<u32>,
    pub depth: usize,
}
impl Facts {
    pub fn of(e: &hyper::Error) -> Facts {
        let b = [
            e.is_parse(),
            e.is_parse_too_large(),
            e.is_parse_status(),
            e.is_parse_version_h2(),
            e.is_user(),
            e.is_canceled(),
            e.is_closed(),
            e.is_incomplete_message(),
            e.is_body_write_aborted(),
            e.is_shutdown(),
            e.is_timeout(),
        ];
        let mut f = Facts {
            preds: PREDS.iter().zip(b).filter(|(_, b)| *b).map(|(p, _)| *p).collect(),
            dbg: format!("{e:?}"),
            display: e.to_string(),
            h2: crate::body::reason_of(e),
            ..Default::default()
        };
        let mut c: Option<&(dyn StdError + 'static)> = e.source();
        while let Some(x) = c {
            f.depth += 1;
            if f.depth > 50 {
                break;
            }
            if let Some(o) = x.downcast_ref::<Own>() {
                f.own = Some(o.0);
            }
            let io = match x.downcast_ref::<io::Error>() {
                Some(i) => Some(i),
                None => x.downcast_ref::<h2::Error>().and_then(|h| h.get_io()),
            };
            if let Some(i) = io {
                f.io.get_or_insert(i.kind());
                if f.io_text.is_empty() {
                    f.io_text = i.to_string();
                }
                if let Some(o) = i.get_ref().and_then(|g| g.downcast_ref::<Own>()) {
                    f.own = Some(o.0);
                }
            }
            c = x.source();
        }
        f
    }
    pub fn is(&self, p: &str) -> bool {
        self.preds.contains(&p)
    }
    /// Contradictions between the predicates of one error.
    pub fn odd(&self) -> Option<String> {
        let kinds: Vec<_> = ["parse", "user", "canceled", "closed", "incomplete_message", "shutdown"].into_iter().filter(|p| self.is(p)).collect();
        if kinds.len() > 1 {
            return Some(format!("is_{} and is_{} both true", kinds[0], kinds[1]));
        }
        for p in ["parse_too_large", "parse_status", "parse_version_h2"] {
            if self.is(p) && !self.is("parse") {
                return Some(format!("is_{p} without is_parse"));
            }
        }
        if ["parse_too_large", "parse_status", "parse_version_h2"].iter().filter(|p| self.is(p)).count() > 1 {
            return Some("two parse causes at once".into());
        }
        if self.is("body_write_aborted") && !self.is("user") {
            return Some("is_body_write_aborted without is_user".into());
        }
        if self.is("timeout") && (self.is("user") || self.is("parse")) {
            return Some("a timeout that is also a parse or user error".into());
        }
        if self.display.trim().is_empty() || self.dbg.trim().is_empty() {
            return Some("empty Display or Debug".into());
        }
        if self.depth > 50 {
            return Some("endless source chain".into());
        }
        None
    }
}
