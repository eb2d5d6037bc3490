PROP="P13"
EDITS=[("crates/mirror-mirror/src/key_path.rs","""        self.path.extend(iter);
    }
}""","""        for key in iter {
            // entering the same variant twice is the same as entering it once
            if matches!(key, Key::Variant(_)) && self.path.last() == Some(&key) {
                continue;
            }
            self.path.push(key);
        }
    }
}""")]
NEEDS="extending a path that ends in a variant key with the same variant key"
BREAKS="extend drops keys"
MAIN='''
use mirror_mirror::key_path::{Key, KeyPath};
fn main() {
    let mut p = KeyPath::default().field("a").variant("V");
    p.extend([Key::variant("V"), Key::variant("V"), Key::numbered_field(0)]);
    assert_eq!(p.len(), 5);
    let mut q = KeyPath::default().field(0);
    q.extend([Key::variant("V"), Key::numbered_field(0)]);
    assert_eq!(q.to_string(), ".0::V.0");
}
'''
