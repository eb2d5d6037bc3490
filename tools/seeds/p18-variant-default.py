PROP="P18"
EDITS=[("crates/mirror-mirror/src/type_info/mod.rs","""        let mut acc = Vec::with_capacity(self.len());
        for _ in 0..self.len() {
            acc.push(self.element_type().default_value()?);
        }
        Some(acc.to_value())
""","""        let element = self.element_type().default_value()?;
        let mut acc = alloc::vec![element.clone()];
        acc.resize(self.len().max(1), element);
        Some(acc.to_value())
""")]
NEEDS="an array of length zero"
BREAKS="the default value of an empty array has one element (and does not convert back)"
MAIN='''
use mirror_mirror::{Reflect, DescribeType, FromReflect};
fn main() {
    let d = <[i32; 3] as DescribeType>::type_descriptor();
    assert_eq!(<[i32; 3]>::from_reflect(&d.default_value().unwrap()), Some([0, 0, 0]));
    let d = <[i32; 0] as DescribeType>::type_descriptor();
    let v = d.default_value().unwrap();
    assert_eq!(v.reflect_ref().as_list().unwrap().len(), 0);
    assert_eq!(<[i32; 0]>::from_reflect(&v), Some([]));
}
'''
