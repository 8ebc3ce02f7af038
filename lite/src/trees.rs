// included by both sides of the comparison

/// A digest of the trees and errors a text is read to.
pub fn trees(text: &str) -> u64 {
    use std::fmt::Write;
    struct Fnv(u64);
    impl Write for Fnv {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
            }
            Ok(())
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    match cddl_cat::parser::parse_cddl(text) {
        Ok(c) => {
            let _ = write!(h, "{c:?}");
            match cddl_cat::flatten::flatten(&c) {
                Ok(r) => {
                    let mut r: Vec<_> = r.iter().collect();
                    r.sort_by_key(|(n, _)| n.as_str());
                    let _ = write!(h, "{r:?}");
                }
                Err(e) => {
                    let _ = write!(h, "{e:?}");
                }
            }
        }
        Err(e) => {
            let _ = write!(h, "{e:?}");
        }
    }
    match cddl_cat::flatten::slice_flatten_from_str(text) {
        Ok(r) => {
            let mut r: Vec<_> = r.iter().collect();
            r.sort_by_key(|(n, _)| n.as_str());
            let _ = write!(h, "{r:?}");
        }
        Err(e) => {
            let _ = write!(h, "{e:?}");
        }
    }
    h.0
}
