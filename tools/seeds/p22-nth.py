PROP="P22"
EDITS=[("crates/mirror-mirror/src/array.rs","""        let value = self.array.get(self.index)?;
        self.index += 1;
        Some(value)
    }
""","""        let value = self.array.get(self.index)?;
        self.index = self.index.checked_add(1)?;
        Some(value)
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let value = self.array.get(self.index.checked_add(n)?)?;
        self.index = n + 1;
        Some(value)
    }
""")]
NEEDS="skipping elements of an iteration that has already started"
BREAKS="skipping in an iteration over a list or array goes back to an earlier element afterwards"
MAIN='''
use mirror_mirror::{Array};
fn main() {
    let v = vec![1, 2, 3, 4, 5];
    let mut i = Array::iter(&v);
    assert_eq!(i.next().unwrap().downcast_ref::<i32>(), Some(&1));
    assert_eq!(i.nth(1).unwrap().downcast_ref::<i32>(), Some(&3));
    assert_eq!(i.next().unwrap().downcast_ref::<i32>(), Some(&4));
    assert_eq!(i.next().unwrap().downcast_ref::<i32>(), Some(&5));
    assert!(i.next().is_none());
}
'''
