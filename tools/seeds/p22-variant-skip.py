PROP="P22"
EDITS=[("crates/mirror-mirror/src/enum_.rs","""            VariantKind::Unit => return None,
        };
        self.index += 1;
        Some(item)
    }
}
""","""            VariantKind::Unit => return None,
        };
        self.index += 1;
        Some(item)
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let len = self.enum_.fields_len();
        (len - self.index.min(1), Some(len))
    }
}
""")]
NEEDS="asking a started iteration over a variant's fields how many fields remain"
BREAKS="after the second field the iteration announces more fields than it still yields"
MAIN='''
use mirror_mirror::{Reflect, Enum};
#[derive(Reflect, Debug, Clone)]
enum E { A(i32, i32, i32) }
fn main() {
    let e = E::A(1, 2, 3);
    let mut i = Enum::fields(&e);
    let mut left = 3;
    loop {
        let (lo, hi) = i.size_hint();
        assert!(lo <= left && hi.map_or(true, |h| h >= left));
        if i.next().is_none() { break }
        left -= 1;
    }
}
'''
